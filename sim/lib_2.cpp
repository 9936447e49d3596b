#include "lib_impl.h"
template struct Lib<long, double, long>;
