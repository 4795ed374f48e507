#!/bin/bash
# sched.sh REPO HERE OUT SRC FLAGS...: builds an explorer whose threads run under mc/sched.cpp
repo=$1; here=$2; out=$3; src=$4; shift 4
set -e
g++ -std=c++14 -O2 -g1 -w -c $here/mc/sched.cpp -o $out.sched.o & pid=$!
g++ -std=c++14 -Og -g1 -w -fopenmp -fsanitize=thread -mmemcpy-strategy=libcall:-1:noalign -mmemset-strategy=libcall:-1:noalign "$@" -I$repo/src -I$here/mc -c $here/harness/$src -o $out.o
wait $pid
W=; for f in memcpy memmove memset free __cxa_guard_acquire __cxa_guard_release; do W="$W -Wl,--wrap=$f"; done
g++ $out.o $out.sched.o $W -o $out -llapack -lblas -lpthread
