------------------------------- MODULE RTreeMC -------------------------------
EXTENDS RTree
\* touching, nested, equal and far boxes on a line
Box4 == <<<<0, 0, 1, 0>>, <<1, 0, 1, 0>>, <<2, 0, 4, 0>>, <<0, 0, 1, 0>>>>
Box5 == Append(Box4, <<5, 0, 5, 0>>)
Box6 == Append(Box5, <<3, 0, 6, 0>>)
Box7 == Append(Box6, <<7, 0, 7, 0>>)
Box8 == Append(Box7, <<2, 0, 2, 0>>)
=============================================================================
