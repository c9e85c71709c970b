#!/bin/bash
# builds and runs the simulator's own tests
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
g++ -std=c++17 -O1 -g1 -fopenmp -fsanitize=thread -w -c $D/code.cpp -o $T/code.o && g++ -std=c++17 -O2 -w -o $T/t $T/code.o $D/main.cpp $D/../sim/*.cpp -rdynamic -Wl,-z,muldefs -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp -ldl && $T/t
rc=$?; rm -rf "$T"; exit $rc
