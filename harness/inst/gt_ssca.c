#include "gt.h"
/* VERIF_SPLIT GTgraph/SSCA2 */
#ifndef GT_SPLIT
#include "GTgraph/SSCA2/globals.c"
#include "GTgraph/SSCA2/utils.c"
#include "GTgraph/SSCA2/init.c"
#include "GTgraph/SSCA2/graph.c"
#include "GTgraph/SSCA2/drive.c"
#else
#include "GTgraph/SSCA2/graph.h"
#include "GTgraph/SSCA2/init.h"
void graphGen(graph *); int main(int, char **);
#endif
#undef fclose
__attribute__((visibility("default"))) void gt_ssca_prepare(void) { gt_prepare(); }
__attribute__((visibility("default"))) void gt_ssca_run(struct GtJob *j) {
    j->status = gt_main(j->argc, j->argv); gt_flush();
}
