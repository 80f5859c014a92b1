// The tree of an index list: the same units as for C12 (searching, joining and linking).
#include "../C12/proof_tree.cpp"
