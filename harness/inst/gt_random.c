#include "gt.h"
/* VERIF_SPLIT GTgraph/random */
#ifndef GT_SPLIT
#include "GTgraph/random/globals.c"
#include "GTgraph/random/utils.c"
#include "GTgraph/random/init.c"
#include "GTgraph/random/graph.c"
#include "GTgraph/random/drive.c"
#else
#include "GTgraph/random/graph.h"
#include "GTgraph/random/init.h"
void graphGen(graph *); int main(int, char **);
#endif
#undef fclose
__attribute__((visibility("default"))) void gt_random_prepare(void) { gt_prepare(); }
__attribute__((visibility("default"))) void gt_random_run(struct GtJob *j) {
    j->status = gt_main(j->argc, j->argv); gt_flush();
}
