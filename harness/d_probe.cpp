// LIBS: TransitionTracer GW MinimumTracer BounceSolution Minimizer Models ThermalFunctions Utility
int main(){}
