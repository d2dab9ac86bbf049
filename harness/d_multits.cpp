// LIBS: Minimizer Models ThermalFunctions Utility dl
// SRCS: src/minimizer/MinimizeGSL.cpp
// FLAGS: -fsanitize=thread -g
// The same with free-running workers and the code of the search compiled with
// the thread sanitizer.
#define FREE_RUNNING
#include "d_multi.cpp"
