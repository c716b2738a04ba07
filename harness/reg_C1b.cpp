#include "reg_impl.h"
REGFILE2(ChebyshevI, FC1, C1)
