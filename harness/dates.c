/* date conversions for days from standard input; compiled once per group (-DG_...) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "modules/cross-level/date-cl.h"

static void show(date_t *t){ printf(" %d %d %d %d %d %d %d", t->year, t->month, t->day, t->doy, t->week, t->quarter, t->ce); }

int main(void){
  int y, m, d, n, w, q, ce, a, b, c;
  char text[1024], in[1024];
#ifdef G_PARSE
  while (fgets(in, sizeof in, stdin)){
    date_t t;
    in[strcspn(in, "\n")] = 0;
    init_date(&t);
    printf("%d", date_from_string(&t, in) == SUCCESS);
    show(&t);
    printf("\n");
  }
  return 0;
#endif
  while (scanf("%d %d %d %d %d %d %d", &y, &m, &d, &n, &w, &q, &ce) == 7){
    printf("0");
#ifdef G_DOY
    doy2md(n, &a, &b); printf(" %d %d", a, b);
    printf(" %d %d %d", doy2m(n), doy2d(n), md2doy(m, d));
    printf(" %d %d %d", doy2week(n), doy2quarter(n), m2quarter(m));
    printf(" %d", week2doy(w));
#endif
#ifdef G_CE
    printf(" %d %d", date2ce(y, m, d), doy2ce(n, y));
    ce2date(ce, &a, &b, &c); printf(" %d %d %d", a, b, c);
    ce2doy(ce, &a, &b); printf(" %d %d", a, b);
    printf(" %d", ce2year(ce));
#endif
#ifdef G_SET
    date_t t, u;
    memset(&t, 0x55, sizeof t); init_date(&t); set_date(&t, y, m, d); show(&t);
    init_date(&t); set_date(&t, 1950, 7, 19); set_date_ce(&t, ce); show(&t);
    init_date(&t); set_date_doy(&t, n); set_date_year(&t, y); show(&t);
    init_date(&t); set_date(&t, y, 12, 31); set_date_month_day(&t, m, d); show(&t);
    init_date(&t); set_date(&t, y, 5, 5); set_date_week(&t, w); show(&t);
    init_date(&t); set_date(&t, y, 5, 5); set_date_month(&t, m); show(&t);
    init_date(&t); set_date(&t, y, 5, 5); set_date_quarter(&t, q); show(&t);
    init_date(&t); set_date(&t, y, m, d); set_time(&t, 11, 22, 33); memset(&u, 0, sizeof u); copy_date(&t, &u); show(&u);
    printf(" %d %d %d", u.hh, u.mm, u.ss);
#endif
#ifdef G_TEXT
    compact_date(y, m, d, text, sizeof text); printf(" %s", text);
    long_date(y, m, d, 3, 14, 59, 99, text, sizeof text); printf(" %s", text);
#endif
    printf("\n");
  }
  return 0;
}
