#!/bin/bash
# brun.sh harness.cpp [seed] [tier] [budget] [section]  (builds with the core lib of the current tree)
cd /verif
LIB=$(python3 -c "
import check
l,log=check.build_core(); print(l or log[:3000])")
F=$1; shift
X=/tmp/brun_$(basename $F).x
clang++ $BFLAGS -std=c++17 -O1 -g1 -D_GLIBCXX_ASSERTIONS -fno-access-control -w -ferror-limit=5 -Iinclude -I${DB0_REPO:-/repo}/src -I${DB0_REPO:-/repo} -I/usr/include/python3.12 $F $LIB -Wl,-z,muldefs -o $X -lpthread -ldl -lpython3.12 -no-pie -Wl,--unresolved-symbols=ignore-all || exit 2
time timeout 900 $X "$@"
