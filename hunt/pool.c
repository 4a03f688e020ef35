/* M01: the suballocator against a shadow of what the client owns */
#include "hunt.h"
void *poolMalloc(long), *poolFixedMalloc(long);
void poolFree(void *), addToUsedPool(void *), memFreePoolPurge(char), getPoolStats(long *, long *, long *);
extern long poolAbsoluteMax, poolTotalFree, memUsedPoolSize, memUsedPoolMax, memFreePoolSize, memFreePoolMax;
extern void **memUsedPool, **memFreePool;
extern char g_outputToString; extern char *g_printString;
int let(char **, const char *);
#define MAXB 6000
static struct { long *p, size, alloc; unsigned pat; } B[MAXB];
static long nb, step; static int stat_;  /* set once the program itself holds blocks (printing) */
static char tr[16000]; static long trn;
static void log_(const char *fmt, ...) { va_list ap; if (trn > 3000) { memmove(tr, tr + 1500, trn - 1500); trn -= 1500; } va_start(ap, fmt); trn += vsnprintf(tr + trn, sizeof tr - trn, fmt, ap); va_end(ap); }
#define BAD(...) do { char m_[500]; snprintf(m_, sizeof m_, __VA_ARGS__); snprintf(h_cur, sizeof h_cur, "calls (the last ones): %s", tr); h_fail("%s", m_); } while (0)
static void fill(long k) { long i; for (i = 0; i < B[k].size / 8; i++) B[k].p[i] = (long)(B[k].pat * 2654435761UL + i); }
static void same(long k) { long i; for (i = 0; i < B[k].size / 8; i++) if (B[k].p[i] != (long)(B[k].pat * 2654435761UL + i)) BAD("the contents of a live block of %ld bytes changed (word %ld)", B[k].size, i); }
static void all(int full) {
  long i, j, fs = 0, us = 0, live = 0;
  if (memUsedPoolSize < 0 || memUsedPoolSize > memUsedPoolMax || memFreePoolSize < 0 || memFreePoolSize > memFreePoolMax) BAD("table sizes: used %ld of %ld, free %ld of %ld", memUsedPoolSize, memUsedPoolMax, memFreePoolSize, memFreePoolMax);
  for (i = 0; i < memFreePoolSize; i++) fs += ((long *)memFreePool[i])[-2];
  for (i = 0; i < memUsedPoolSize; i++) { long *p = memUsedPool[i]; us += p[-2] - p[-1]; if (p[-3] != i) BAD("entry %ld of the used table says it is entry %ld", i, p[-3]); }
  if (poolTotalFree != fs + us) BAD("poolTotalFree is %ld, but the tables hold %ld free bytes", poolTotalFree, fs + us);
  for (i = 0; i < nb; i++) {
    long *p = B[i].p;
    if (p[-1] != B[i].size) BAD("a live block's size is %ld, should be %ld", p[-1], B[i].size);
    if (p[-2] != B[i].alloc || p[-2] < p[-1]) BAD("a live block's allocated size is %ld, was %ld (size %ld)", p[-2], B[i].alloc, p[-1]);
    if (p[-3] == -1) { if (p[-1] != p[-2]) BAD("a live block with unused space is not in the used table"); }
    else if (p[-3] < 0 || p[-3] >= memUsedPoolSize || memUsedPool[p[-3]] != p) BAD("a live block's location %ld in the used table is wrong", p[-3]);
    else live += p[-2] - p[-1];
    if (full) same(i);
  }
  if (stat_ ? us < live : us != live) BAD("the used table holds %ld free bytes, the live blocks %ld", us, live);
  if (full) for (j = 0; j < memFreePoolSize; j++) for (i = 0; i < nb; i++) if (memFreePool[j] == (void *)B[i].p) BAD("a live block is in the free table");
}
int main(int argc, char **argv) {
  h_start(argc, argv);
  while (h_more()) {
    long n = rnd(6) ? rnd(120) : rnd(2) ? rnd(1500) : rnd(5000), grow = rnd(4) ? 50 + rnd(30) : 90, sz = rnd(3) ? 200 : rnd(2) ? 30 : 3000, k, i;
    poolAbsoluteMax = rnd(2) ? 1000000 : rnd(3) ? rnd(4000) : 0;
    trn = 0; tr[0] = 0; h_case("a sequence of pool calls");
    log_("poolAbsoluteMax=%ld; ", poolAbsoluteMax);
    if (!rnd(12)) {   /* phases: the tables go past their capacity, and are purged and filled again */
      int r, ph = 1 + rnd(3);
      while (nb) { poolFree(B[nb - 1].p); nb--; }
      poolAbsoluteMax = 100000000;
      for (r = 0; r < ph; r++) {
        long m = rnd(2) ? 990 + rnd(30) : rnd(3000), cut = rnd(3) ? 0 : 1 + rnd(3), left = rnd(3) ? 0 : rnd(20);
        log_("%ld times poolMalloc(32)%s; ", m, cut ? ", cutting and addToUsedPool" : "");
        for (i = 0; i < m; i++) {
          long *p = poolMalloc(32); if (p[-1] != 32) BAD("size %ld instead of 32", p[-1]);
          if (cut && i % cut == 0 && p[-3] == -1) { p[-1] = 8; addToUsedPool(p); }
          B[nb].p = p; B[nb].size = p[-1]; B[nb].alloc = p[-2]; B[nb].pat = (unsigned)h_rnd(); fill(nb); nb++;
        }
        all(1); log_("poolFree of all but %ld; ", left);
        while (nb > left) { k = rnd(nb); same(k); poolFree(B[k].p); B[k] = B[nb - 1]; nb--; }
        all(1);
        if (rnd(3)) { log_("memFreePoolPurge(0); "); memFreePoolPurge(0); if (memFreePoolSize) BAD("memFreePoolPurge(0) leaves blocks"); }
        all(0);
      }
      continue;
    }
    for (step = 0; step < n; step++) {
      int op = rnd(100);
      if (op < grow && nb < MAXB) {
        long s = 8 * (1 + rnd(sz)), oldf = memFreePoolSize, over = poolTotalFree > poolAbsoluteMax; int fixed = !rnd(3);
        long *p; log_("%s(%ld); ", fixed ? "poolFixedMalloc" : "poolMalloc", s);
        (void)oldf; (void)over;
        p = fixed ? poolFixedMalloc(s) : poolMalloc(s);
        if (p[-1] != s || p[-2] < s) BAD("a block of %ld bytes has size %ld, allocated %ld", s, p[-1], p[-2]);
        if (fixed && p[-2] != s) BAD("poolFixedMalloc(%ld) has %ld bytes allocated", s, p[-2]);
        for (i = 0; i < nb; i++) if (B[i].p == p) BAD("a block in use is handed out again");
        B[nb].p = p; B[nb].size = s; B[nb].alloc = p[-2]; B[nb].pat = (unsigned)h_rnd(); fill(nb); nb++;
      } else if (op < 97 && nb) {
        k = rnd(3) ? rnd(nb) : nb - 1;
        if (!rnd(4) && B[k].p[-3] == -1 && B[k].size > 8) {
          long s = 8 * (1 + rnd(B[k].size / 8 - 1));
          log_("cut block %ld to %ld, addToUsedPool; ", k, s);
          B[k].p[-1] = s; B[k].size = s; addToUsedPool(B[k].p);
        } else {
          log_("poolFree(block %ld); ", k);
          same(k); poolFree(B[k].p); B[k] = B[nb - 1]; nb--;
        }
      } else if (op < 98) { int u = rnd(2); log_("memFreePoolPurge(%d); ", u); memFreePoolPurge(u);
        if (!u && memFreePoolSize) BAD("memFreePoolPurge(0) leaves %ld blocks", memFreePoolSize);
        if (u && memFreePoolSize && poolTotalFree > poolAbsoluteMax) BAD("memFreePoolPurge(1) leaves %ld blocks and %ld bytes", memFreePoolSize, poolTotalFree);
      } else if (!rnd(20)) { long a, b, c, f = 0, u = 0;
        for (i = 0; i < memFreePoolSize; i++) f += ((long *)memFreePool[i])[-2];
        for (i = 0; i < memUsedPoolSize; i++) u += ((long *)memUsedPool[i])[-2] - ((long *)memUsedPool[i])[-1];
        stat_ = 1; g_outputToString = 1; getPoolStats(&a, &b, &c); g_outputToString = 0; let(&g_printString, "");
        if (a != f || b != u) BAD("getPoolStats reports %ld and %ld, should be %ld and %ld", a, b, f, u); }
      if (n < 150 || !rnd(40)) all(n < 150 && !rnd(8));
    }
    all(1);
    while (nb && rnd(20)) { poolFree(B[nb - 1].p); nb--; }
    h_evals += n;
  }
  return h_finish("random sequences of up to 5000 suballocator calls, blocks of up to 24000 bytes");
}
