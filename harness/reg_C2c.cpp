#include "reg_impl.h"
REGFILE3(ChebyshevII, FC2, C2)
