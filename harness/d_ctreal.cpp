// LIBS: Models ThermalFunctions Utility
#define REAL_ONE_LOOP
#include "d_ct.cpp"
