#include "reg_impl.h"
REGFILE(ChebyshevII, FC2, C2)
