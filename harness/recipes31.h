// The streams whose values are fixed in golden31.h (shared with tools/sprng_golden.c).
#ifndef VERIF_RECIPES31_H
#define VERIF_RECIPES31_H
#ifdef __cplusplus
extern "C" {
#endif
int *init_rng(int, int, int, int, int); int get_rn_int(int *); float get_rn_flt(int *); double get_rn_dbl(int *); int spawn_rng(int *, int, int ***, int); int free_rng(int *);
#ifdef __cplusplus
}
#endif
typedef struct { int type, param, gen, total, seed; } Recipe;
static const int R31_NP[] = {11, 7, 3, 3, 11}; // parameters of LFG, LCG, LCG64, CMRG, MLFG
static const int R31_SEEDS[] = {985456376, 0, 0x7fffffff, 42, 0x12345678, 0x55555555, 1, 2, 3, 0x40000000, 65536, 32768, 1000003, 0x2aaaaaaa, 0x00ff00ff, -5};
static const int R31_GEN[][2] = {{0, 1}, {3, 4}, {1, 2}, {17, 100}, {0, 4}, {1100, 1200}};
enum { R31_LIGHT = 13 * 16 * 6, R31_N = R31_LIGHT + 22 * 6 * 4 };
static Recipe recipe31(int k) {
    Recipe r; int p, s, g;
    if (k < R31_LIGHT) { p = k % 13; k /= 13; s = k % 16; g = k / 16; r.type = p < 7 ? 1 : p < 10 ? 2 : 3; r.param = p < 7 ? p : (p - 7) % 3; }
    else { k -= R31_LIGHT; p = k % 22; k /= 22; s = k % 6; g = k / 6; r.type = p < 11 ? 0 : 4; r.param = p % 11; }
    r.seed = R31_SEEDS[s]; r.gen = R31_GEN[g][0]; r.total = R31_GEN[g][1]; return r;
}
static unsigned long long r31_mix(unsigned long long h, double x) { unsigned long long b; __builtin_memcpy(&b, &x, 8); h ^= b + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }
// draws from the stream and from streams spawned from it; out collects the values (at most 200)
static int golden_program(Recipe r, double *out) {
    int n = 0, i, k, **kid = 0, **sub = 0, *s = init_rng(r.type, r.gen, r.total, r.seed, r.param); if (!s) return -1;
    for (i = 0; i < 40; ++i) out[n++] = get_rn_int(s);
    for (i = 0; i < 20; ++i) out[n++] = get_rn_dbl(s);
    for (i = 0; i < 20; ++i) out[n++] = get_rn_flt(s);
    if (r.gen <= 100) {
        if (spawn_rng(s, 3, &kid, 0) != 3) return -2;
        for (k = 0; k < 3; ++k) for (i = 0; i < 10; ++i) out[n++] = get_rn_int(kid[k]);
        if (spawn_rng(kid[1], 2, &sub, 0) != 2) return -3;
        for (k = 0; k < 2; ++k) { for (i = 0; i < 6; ++i) out[n++] = get_rn_int(sub[k]); free_rng(sub[k]); }
        for (k = 0; k < 3; ++k) free_rng(kid[k]);
        __builtin_free(sub); __builtin_free(kid); kid = 0;
        if (spawn_rng(s, 1, &kid, 0) != 1) return -4;
        for (i = 0; i < 6; ++i) out[n++] = get_rn_int(kid[0]);
        free_rng(kid[0]); __builtin_free(kid);
    }
    free_rng(s); return n;
}
#endif
