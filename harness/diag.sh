#!/bin/bash
# diag.sh REPO HERE OUT: builds the explorer of P30 (the library twice: as it is, and with its debugging checks)
repo=$1; here=$2; out=$3
set -e
F="-std=c++14 -Og -g1 -w -fsanitize=address --param asan-stack=0 -fno-omit-frame-pointer -I$repo/src -I$here/mc -I$here/harness -DHIF_THROW -DHIF_LOG_PLAIN_PREFIX"
g++ $F -DNAME=diag_plain -c $here/harness/diag_core.cpp -o $out.p.o & a=$!
g++ $F -DNAME=diag_debug -DHIF_DEBUG -Dhif=hif_dbg -Dhx=hx_dbg -c $here/harness/diag_core.cpp -o $out.d.o & b=$!
g++ $F -c $here/harness/diag.cpp -o $out.m.o & c=$!
wait $a; wait $b; wait $c
g++ -fsanitize=address $out.p.o $out.d.o $out.m.o -o $out -llapack -lblas
