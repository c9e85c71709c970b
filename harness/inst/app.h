#pragma once
#include <cstdlib>
#include <cstring>
#include <sstream>
#include "../props/appjob.h"
struct CoutCapture {
    std::ostringstream s; std::streambuf *old; AppJob &j;
    CoutCapture(AppJob &j_) : j(j_) { old = std::cout.rdbuf(s.rdbuf()); }
    ~CoutCapture() { std::cout.rdbuf(old); std::string t = s.str(); j.out = (char *)malloc(t.size() + 1); memcpy(j.out, t.c_str(), t.size() + 1); }
};
template <class F> static int call_main(F f, AppJob &j) {
    char **v = (char **)malloc(sizeof(char *) * (j.argc + 1));
    for (int i = 0; i < j.argc; ++i) { v[i] = (char *)malloc(strlen(j.argv[i]) + 1); strcpy(v[i], j.argv[i]); }
    v[j.argc] = nullptr; int r; { CoutCapture c(j); r = f(j.argc, v); }
    for (int i = 0; i < j.argc; ++i) free(v[i]); free(v); return r;
}
