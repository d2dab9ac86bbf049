// LIBS: TransitionTracer GW BounceSolution MinimumTracer Minimizer Models ThermalFunctions Utility
// SRCS: src/prog/MinimaTracer.cpp
// FLAGS: -Wl,--allow-multiple-definition -fno-inline
#include "stubs.h"
