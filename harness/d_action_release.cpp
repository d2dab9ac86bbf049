// LIBS: BounceSolution Utility
// SRCS: src/bounce_solution/action_calculation.cpp
// FLAGS: -DNDEBUG -Wl,--allow-multiple-definition
#include "d_action.cpp"
