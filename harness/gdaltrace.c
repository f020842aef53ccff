/* Records raster accesses of a program ($VF_TRACE), delays them at random ($VF_DELAY = "seed max_microseconds") and lets the
   n-th write fail ($VF_FAIL_WRITE = "n"). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

typedef void *H;
typedef int (*io_t)(H, int, int, int, int, int, void*, int, int, int, int, int);
typedef int (*iox_t)(H, int, int, int, int, int, void*, int, int, int, long long, long long, void*);
typedef int (*dio_t)(H, int, int, int, int, int, void*, int, int, int, int, int*, int, int, int);
typedef int (*diox_t)(H, int, int, int, int, int, void*, int, int, int, int, int*, long long, long long, long long, void*);

static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static unsigned rnd; static int rnd_init, fd = -1, nwrite;

static void *sym(const char *n){ return dlsym(RTLD_NEXT, n); }

static int event(H band, H ds, int rw, int b, int x, int y, int w, int h){
  H (*bds)(H) = sym("GDALGetBandDataset"); int (*bnr)(H) = sym("GDALGetBandNumber"); const char *(*des)(H) = sym("GDALGetDescription");
  const char *t = getenv("VF_TRACE"), *d = getenv("VF_DELAY"), *f = getenv("VF_FAIL_WRITE");
  unsigned us = 0; int fail = 0;
  if (band){ ds = bds ? bds(band) : NULL; b = bnr ? bnr(band) : 0; }
  pthread_mutex_lock(&mtx);
  if (d){
    unsigned seed = 0, max = 0;
    sscanf(d, "%u %u", &seed, &max);
    if (!rnd_init){ rnd = seed * 2654435761u + 1; rnd_init = 1; }
    rnd = rnd * 1103515245u + 12345u;
    if (max) us = (rnd >> 8) % max;
  }
  if (rw && f && ++nwrite == atoi(f)) fail = 1;
  pthread_mutex_unlock(&mtx);
  if (us) usleep(us);
  pthread_mutex_lock(&mtx);
  if (t && ds && des){
    char line[4096];
    int n = snprintf(line, sizeof(line), "{\"k\":\"%s\",\"f\":\"%s\",\"b\":%d,\"x\":%d,\"y\":%d,\"w\":%d,\"h\":%d}\n", rw ? "w" : "r", des(ds), b, x, y, w, h);
    if (fd < 0) fd = open(t, O_WRONLY|O_CREAT|O_APPEND, 0644);
    if (fd >= 0 && n > 0 && n < (int)sizeof(line)){ if (write(fd, line, n) < 0) fd = -1; }
  }
  pthread_mutex_unlock(&mtx);
  return fail;
}

int GDALRasterIO(H band, int rw, int x, int y, int w, int h, void *buf, int bx, int by, int t, int ps, int ls){
  io_t f = sym("GDALRasterIO");
  return event(band, NULL, rw, 0, x, y, w, h) ? 3 : f(band, rw, x, y, w, h, buf, bx, by, t, ps, ls);
}
int GDALRasterIOEx(H band, int rw, int x, int y, int w, int h, void *buf, int bx, int by, int t, long long ps, long long ls, void *a){
  iox_t f = sym("GDALRasterIOEx");
  return event(band, NULL, rw, 0, x, y, w, h) ? 3 : f(band, rw, x, y, w, h, buf, bx, by, t, ps, ls, a);
}
int GDALDatasetRasterIO(H ds, int rw, int x, int y, int w, int h, void *buf, int bx, int by, int t, int nb, int *bm, int ps, int ls, int bs){
  dio_t f = sym("GDALDatasetRasterIO"); int i, bad = 0;
  for (i=0; i<nb; i++) bad |= event(NULL, ds, rw, bm ? bm[i] : i+1, x, y, w, h);
  return bad ? 3 : f(ds, rw, x, y, w, h, buf, bx, by, t, nb, bm, ps, ls, bs);
}
int GDALDatasetRasterIOEx(H ds, int rw, int x, int y, int w, int h, void *buf, int bx, int by, int t, int nb, int *bm, long long ps, long long ls, long long bs, void *a){
  diox_t f = sym("GDALDatasetRasterIOEx"); int i, bad = 0;
  for (i=0; i<nb; i++) bad |= event(NULL, ds, rw, bm ? bm[i] : i+1, x, y, w, h);
  return bad ? 3 : f(ds, rw, x, y, w, h, buf, bx, by, t, nb, bm, ps, ls, bs, a);
}
