------------------------------- MODULE MCPool -------------------------------
EXTENDS PoolSpec
\* char, a struct of three chars, short, int, double
AllTypes == {<<1, 1>>, <<3, 1>>, <<2, 2>>, <<4, 4>>, <<8, 8>>}
\* the buffer ends where the words do
HighBases == {231, 234, 235}
=============================================================================
