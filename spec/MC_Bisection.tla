---------------------------- MODULE MC_Bisection ----------------------------
EXTENDS Bisection
CutsSmall == 0..(Top - 1)
CutsBig == {0, 1, 2, 100, 1023, 1024, 4095, 8191, 8192, 8193, 12000, 16383, 16384, 16385, 20000, 24575, 28000, 32000, 32766, 32767}
=============================================================================
