#include "gt.h"
/* VERIF_SPLIT GTgraph/R-MAT */
#ifndef GT_SPLIT
#include "GTgraph/R-MAT/globals.c"
#include "GTgraph/R-MAT/utils.c"
#include "GTgraph/R-MAT/init.c"
#include "GTgraph/R-MAT/graph.c"
#include "GTgraph/R-MAT/drive.c"
#else
#include "GTgraph/R-MAT/graph.h"
#include "GTgraph/R-MAT/init.h"
void graphGen(graph *); int main(int, char **);
#endif
#undef fclose
__attribute__((visibility("default"))) void gt_rmat_prepare(void) { gt_prepare(); }
__attribute__((visibility("default"))) void gt_rmat_run(struct GtJob *j) {
    if (j->op == 1) {
        graph G; getParams(); setGTgraphParams(j->scale, j->edgefactor, j->a, j->b, j->c, j->d); graphGen(&G);
        j->n = G.n; j->m = G.m; j->start = G.start; j->end = G.end; j->w = G.w; j->status = 0; return;
    }
    j->status = gt_main(j->argc, j->argv); gt_flush();
}
