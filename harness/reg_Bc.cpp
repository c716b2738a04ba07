#include "reg_impl.h"
REGFILE3(Butterworth, FB, B)
