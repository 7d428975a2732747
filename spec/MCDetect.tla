------------------------------ MODULE MCDetect ------------------------------
EXTENDS Detect
Some == {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<1, 0, 1>>, <<1, 1, 0>>, <<1, 1, 1>>}
Symm == Permutations(Threads)
=============================================================================
