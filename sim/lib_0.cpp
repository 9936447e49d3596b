#include "lib_impl.h"
template struct Lib<unsigned long, double, int>;
