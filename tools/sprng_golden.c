/* Prints harness/golden31.h from the random-number library it is linked with, after comparing that library with the
   sequences its authors published (the *.data files). Usage: golden SPRNG-SOURCE-DIR > harness/golden31.h */
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "../harness/recipes31.h"
int main(int argc, char **argv) {
    static const char *N[] = {"lfg", "lcg", "lcg64", "cmrg", "mlfg"}; int t, i, k;
    for (t = 0; t < 5; ++t) {
        char f[600]; double d[1800]; FILE *fp; int *s, **kid; snprintf(f, sizeof f, "%s/%s/%s.data", argv[1], N[t], N[t]); fp = fopen(f, "r");
        for (i = 0; i < 1800; ++i) if (fscanf(fp, "%lf", d + i) != 1) return 2;
        fclose(fp);
        s = init_rng(t, 0, 1, 985456376, 0);
        for (i = 0; i < 500; ++i) if (get_rn_int(s) != (int)d[i]) { fprintf(stderr, "%s: integer %d differs\n", N[t], i); return 1; }
        for (i = 500; i < 1500; ++i) { double x = i < 1000 ? get_rn_flt(s) : get_rn_dbl(s); if (fabs(x - d[i]) > 1e-6) { fprintf(stderr, "%s: value %d differs: %f %f\n", N[t], i, x, d[i]); return 1; } }
        spawn_rng(s, 2, &kid, 0);
        for (i = 1750; i < 1800; ++i) if (get_rn_int(kid[0]) != (int)d[i]) { fprintf(stderr, "%s: value %d differs\n", N[t], i); return 1; }
        s = init_rng(t, 0, 1, 985456376, 0);
        for (i = 1650; i < 1700; ++i) if (get_rn_int(s) != (int)d[i]) { fprintf(stderr, "%s: value %d differs\n", N[t], i); return 1; }
    }
    printf("// Values of the streams of recipes31.h, written by tools/sprng_golden.c after agreement with the published sequences.\n#pragma once\nstatic const unsigned long long GOLDEN31[] = {");
    for (k = 0; k < R31_N; ++k) {
        double v[200]; unsigned long long h = 1; int n = golden_program(recipe31(k), v); if (n < 0) { fprintf(stderr, "recipe %d fails\n", k); return 1; }
        for (i = 0; i < n; ++i) h = r31_mix(h, v[i]);
        printf("%s0x%llx,", k % 8 ? " " : "\n    ", h);
    }
    printf("\n};\n"); return 0;
}
