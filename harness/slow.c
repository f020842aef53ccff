/* Widens the window between reading and replacing a file: every rename onto a file called $VF_SLOW_NAME waits $VF_SLOW_US. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static void wait_for(const char *dst){
  const char *n = getenv("VF_SLOW_NAME"), *u = getenv("VF_SLOW_US"), *b;
  if (!n || !u || !dst) return;
  b = strrchr(dst, '/');
  b = b ? b + 1 : dst;
  if (strcmp(b, n) == 0) usleep((useconds_t)atoi(u));
}
int rename(const char *a, const char *b){
  int (*f)(const char*, const char*) = dlsym(RTLD_NEXT, "rename");
  wait_for(b);
  return f(a, b);
}
int renameat(int d1, const char *a, int d2, const char *b){
  int (*f)(int, const char*, int, const char*) = dlsym(RTLD_NEXT, "renameat");
  wait_for(b);
  return f(d1, a, d2, b);
}
int renameat2(int d1, const char *a, int d2, const char *b, unsigned int fl){
  int (*f)(int, const char*, int, const char*, unsigned int) = dlsym(RTLD_NEXT, "renameat2");
  wait_for(b);
  return f(d1, a, d2, b, fl);
}
