/* Replaces the random draws of a program: $DRAW is low (always 0), high (always RAND_MAX), alternate, or a seed. */
#include <stdlib.h>
#include <string.h>
static unsigned long long s; static int init, mode;
static void start(void){
  const char *d = getenv("DRAW"); init = 1;
  if (!d || !strcmp(d, "low")) mode = 0;
  else if (!strcmp(d, "high")) mode = 1;
  else if (!strcmp(d, "alternate")) mode = 2;
  else { mode = 3; s = strtoull(d, NULL, 10) * 2654435761ULL + 88172645463325252ULL; }
}
void srand(unsigned int x){ (void)x; }
int rand(void){
  if (!init) start();
  if (mode == 0) return 0;
  if (mode == 1) return RAND_MAX;
  if (mode == 2){ s++; return s % 2 ? 0 : RAND_MAX; }
  s ^= s << 13; s ^= s >> 7; s ^= s << 17;
  return (int)(s % ((unsigned long long)RAND_MAX + 1));
}
