#include "reg_impl.h"
REGFILE(Butterworth, FB, B)
