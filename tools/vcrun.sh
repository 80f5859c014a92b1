#!/bin/bash
# vcrun.sh harness.cpp unit time [flags]
H=$1; U=$2; T=$3; shift 3
clang++ "$@" -std=c++17 -O1 -Xclang -disable-llvm-passes -gline-tables-only -DVC_SYMBOLIC=1 -DDB0_CONTRACTS=1 -fno-access-control -fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero,unreachable,return -fsanitize-trap=all -w -I/verif/include -I${DB0_REPO:-/repo}/src -I${DB0_REPO:-/repo} -I/usr/include/python3.12 -c -emit-llvm $H -o ${OUT:-/tmp/vcrun}.bc || exit 1
VC=$(ls -t /verif/.build/vc-* | head -1)
$VC ${OUT:-/tmp/vcrun}.bc --unit $U --out ${OUT:-/tmp/vcrun}.json --time $T --hard 30
