#include "reg_impl.h"
REGFILE(ChebyshevI, FC1, C1)
