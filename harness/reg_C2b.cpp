#include "reg_impl.h"
REGFILE2(ChebyshevII, FC2, C2)
