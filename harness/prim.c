/* runs one image primitive on images from standard input; compiled once per primitive (-DOP_...) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <omp.h>
#include "modules/cross-level/imagefuns-cl.h"
#include "modules/cross-level/queue-cl.h"

int main(void){
  int nt, nx, ny, r;
#ifdef OP_FIFO
  char op;
  queue_t q;
  while (scanf("%d", &nx) == 1){
    if (create_queue(&q, nx) != SUCCESS) return 9;
    while (scanf(" %c", &op) == 1 && op != '.'){
      if (op == '+'){
        int x, y;
        if (scanf("%d %d", &x, &y) != 2) return 8;
        printf("%d 0 0\n", enqueue(&q, x, y) == SUCCESS);
      } else {
        int x = 0, y = 0, ok;
        ok = dequeue(&q, &x, &y) == SUCCESS;
        printf("%d %d %d\n", ok, ok ? x : 0, ok ? y : 0);
      }
    }
    destroy_queue(&q);
    printf(".\n");
  }
  return 0;
#else
  while (scanf("%d %d %d %d", &nt, &nx, &ny, &r) == 4){
    int n = nx*ny, p, v;
    small *im = malloc(n*sizeof(small));
    short *sh = malloc(n*sizeof(short));
    for (p=0; p<n; p++){ if (scanf("%d", &v) != 1) return 8; im[p] = v; sh[p] = v; }
    omp_set_num_threads(nt);
#ifdef OP_CCL
    int *lab = calloc(n, sizeof(int));
    printf("%d", connectedcomponents_(im, lab, nx, ny));
    for (p=0; p<n; p++) printf(" %d", lab[p]);
    free(lab);
#endif
#ifdef OP_OBJ
    int *lab = NULL, *size = NULL, no = 0;
    binary_to_objects(im, nx, ny, r, &lab, &size, &no);
    printf("%d", no);
    for (p=0; p<n; p++) printf(" %d", no > 0 ? lab[p] : 0);
    for (p=0; p<no; p++) printf(" %d", size[p]);
    if (no > 0){ free(lab); free(size); }
#endif
#ifdef OP_MAJ
    printf("%d", majorfill_(im, nx, ny));
    for (p=0; p<n; p++) printf(" %d", im[p]);
#endif
#ifdef OP_BUF
    printf("%d", buffer_(im, nx, ny, r));
    for (p=0; p<n; p++) printf(" %d", im[p]);
#endif
#ifdef OP_DST
    ushort *d = dist_transform_(im, nx, ny);
    printf("0");
    for (p=0; p<n; p++) printf(" %d", d[p]);
    free(d);
#endif
#ifdef OP_REC
    short *mk = malloc(n*sizeof(short));
    printf("%d", greyscale_reconstruction_(sh, mk, nx, ny));
    for (p=0; p<n; p++) printf(" %d", mk[p]);
    free(mk);
#endif
    printf("\n");
    free(im); free(sh);
  }
  return 0;
#endif
}
