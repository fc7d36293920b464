// numeric functions: the real translation unit, no wrapper needed (all functions are external)
#include "common/src/functions.cpp"
