/* The serial graph generators (C): included before the sources of one generator; every name of it stays local to its unit. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <getopt.h>
#include <math.h>
#include "../gtjob.h"
#ifdef GT_PART /* one source file on its own (when the sources cannot be compiled together) */
extern FILE *gt_null; FILE *gt_open(const char *, const char *); int gt_close(FILE *);
#else
#ifdef GT_SPLIT
#define GT_VAR
#else
#define GT_VAR static
#endif
GT_VAR FILE *gt_null, *gt_files[64];
GT_VAR int gt_nfiles;
static char gt_buf[4096];
/* relative names (the log, the default output) live in the simulated directory */
GT_VAR FILE *gt_open(const char *p, const char *m) {
    char b[300]; FILE *f; snprintf(b, sizeof b, "%s%s", *p == '/' ? "" : "/sim/", p);
    f = fopen(b, m); if (f && gt_nfiles < 64) gt_files[gt_nfiles++] = f; return f;
}
GT_VAR int gt_close(FILE *f) { int i; for (i = 0; i < gt_nfiles; ++i) if (gt_files[i] == f) { gt_files[i] = gt_files[--gt_nfiles]; break; } return fclose(f); }
static void gt_flush(void) { while (gt_nfiles) fclose(gt_files[--gt_nfiles]); } /* what leaving the process does */
static void gt_prepare(void) { gt_nfiles = 0; optind = 0; if (!gt_null) { gt_null = fopen("/dev/null", "w"); setvbuf(gt_null, gt_buf, _IOFBF, sizeof gt_buf); } }
#endif
#undef stderr
#define stderr gt_null
#define printf(...) fprintf(gt_null, __VA_ARGS__)
#define fopen gt_open
#define fclose gt_close
#define main gt_main
