---------------------------- MODULE MC_Layout ----------------------------
EXTENDS Layout
\* small model for exhaustive checking: few values
BigVals == {-2000, -9, -8, -5, -4, -3, -2, 0, 1, 2, 3, 4, 5, 7, 8, 9, 1999}
BigNear == {-2000, -1993, -1992, -1991, -16, -9, -8, -7, -1, 0, 2, 7, 8, 9, 15, 1992, 1993, 2001, 2007, 2008}
BigOffs == {-8, -7, 0, 3, 7, 8}
BigTree == {0, 1, -7, 2000, -2000}
SmallOffs == {0, 8}
SmallTree == {-7}
SmallVals == {-8, 0, 3}
SmallNear == {0}
=============================================================================
