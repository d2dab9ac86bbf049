// LIBS: Minimizer Models ThermalFunctions Utility
// SRCS: src/prog/NLOVEV.cpp
// FLAGS: -Wl,--allow-multiple-definition -fno-inline
#include "stubs_min.h"
