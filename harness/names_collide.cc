#define COLLIDE
#include "names.cc"
