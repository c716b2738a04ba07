#include "reg_impl.h"
REGFILE3(ChebyshevI, FC1, C1)
