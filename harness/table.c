/* reads tables as told on standard input: file rownames colnames separator(1 , 2 tab 3 blank) mask skip out; each case in its own process */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "modules/cross-level/table-cl.h"

static void show(table_t *t, int rn, int cn, int stats){
  int i, j;
  printf("dim %d %d\n", t->nrow, t->ncol);
  if (cn){ printf("cols"); for (j=0; j<t->ncol; j++) printf(" %s", t->col_names[j]); printf("\n"); }
  if (rn){ printf("rows"); for (i=0; i<t->nrow; i++) printf(" %s", t->row_names[i]); printf("\n"); }
  printf("data"); for (i=0; i<t->nrow; i++) for (j=0; j<t->ncol; j++) printf(" %.12g", t->data[i][j]); printf("\n");
  if (stats){
    printf("stat"); for (j=0; j<t->ncol; j++) printf(" %.12g %.12g %.12g %.12g %.12g", t->mean[j], t->sd[j], t->min[j], t->max[j], t->sum[j]); printf("\n");
    if (cn){ printf("find"); for (j=0; j<t->ncol; j++) printf(" %d", find_table_col(t, t->col_names[j])); printf(" %d\n", find_table_col(t, "nosuchname")); }
    if (rn){ printf("findrow"); for (i=0; i<t->nrow; i++) printf(" %d", find_table_row(t, t->row_names[i])); printf(" %d\n", find_table_row(t, "nosuchname")); }
  }
}

int main(void){
  char in[1024], out[1024];
  int rn, cn, sep, mask, skip, i, st;
  static const char *S[] = { "", ",", "\t", " " };
  while (scanf("%1000s %d %d %d %d %d %1000s", in, &rn, &cn, &sep, &mask, &skip, out) == 7){
    fflush(stdout);
    pid_t p = fork();
    if (p == 0){
      table_t t = read_table(in, rn, cn);
      show(&t, rn, cn, 1);
      for (i=0; i<t.nrow; i++) t.row_mask[i] = (mask >> i) & 1;
      write_table(&t, out, S[sep], skip);
      free_table(&t);
      if (!skip || mask){
        t = read_table(out, rn, cn);
        printf("again\n");
        show(&t, rn, cn, 0);
      }
      fflush(stdout);
      _exit(0);
    }
    waitpid(p, &st, 0);
    printf("\nend %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
  }
  return 0;
}
