#include "lib_impl.h"
template struct Lib<unsigned int, float, int>;
