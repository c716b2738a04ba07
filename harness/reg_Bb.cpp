#include "reg_impl.h"
REGFILE2(Butterworth, FB, B)
