#!/bin/bash
# development helper: build the full harness in /tmp/vb from $1 (default /repo)
R=${1:-/repo}; O=${2:-/tmp/vb}; mkdir -p $O; cd $O
F="-std=c++17 -O1 -g1 -fopenmp -fsanitize=thread -DCPP -include cstdint -I$R -I$R/GTgraph/R-MAT -I$R/GTgraph/sprng2.0-lite/include -w"
for f in ${V:-/verif}/harness/inst/*.cpp; do b=$(basename $f .cpp); ( [ -n "$ALL" -o ! -e i_$b.o -o $f -nt i_$b.o ] && g++ $F -c $f -o i_$b.o 2>&1 | grep -E "error" | head -5 ) & done
C="-O1 -g1 -fsanitize=thread -DAdd_ -w -I$R -I$R/GTgraph/sprng2.0-lite/include"; S=$R/GTgraph/sprng2.0-lite/src
for f in ${V:-/verif}/harness/inst/*.c; do b=$(basename $f .c); ( [ -n "$ALL" -o ! -e i_$b.o -o $f -nt i_$b.o ] && gcc $C -fvisibility=hidden -c $f -o i_$b.o && objcopy --localize-hidden i_$b.o ) & done
for f in $S/*.c $S/*/*.c; do b=$(basename $f .c); case $b in drand|fwrap_mpi|simple_mpi|cputime|timing|simple) continue;; esac; ( [ -n "$ALL" -o ! -e i_sprng_$b.o -o $f -nt i_sprng_$b.o ] && gcc ${C/-I$R /} -I$S -c $f -o i_sprng_$b.o ) & done
for f in ${V:-/verif}/sim/*.cpp ${V:-/verif}/harness/*.cpp ${V:-/verif}/harness/props/*.cpp; do b=$(basename $f .cpp); ( [ -n "$ALL" -o ! -e h_$b.o -o $f -nt h_$b.o ] && g++ -std=c++17 -O2 -g1 -w -c $f -o h_$b.o 2>&1 | grep -E "error" | head -5 ) & done
wait
g++ -o harness i_*.o h_*.o -rdynamic -Wl,-z,muldefs -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp -ldl -lgraphblas 2>&1 | tail -15
