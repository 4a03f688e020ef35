/* shared by the harnesses: bookkeeping of the current case, watchdog, random numbers */
#ifndef HUNT_H
#define HUNT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
#include <sys/time.h>
static char h_cur[20000];
static long h_evals = 0;
static int h_done = 0;
static unsigned long long h_s = 88172645463325252ULL;
static double h_end;
static unsigned long long h_rnd(void) { h_s ^= h_s << 13; h_s ^= h_s >> 7; h_s ^= h_s << 17; return h_s; }
static long rnd(long n) { return n <= 0 ? 0 : (long)(h_rnd() % (unsigned long long)n); }
static long rng(long a, long b) { return a + rnd(b - a + 1); }
static double h_now(void) { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec * 1e-6; }
static int h_more(void) { return h_now() < h_end; }
static void h_report(const char *why) {
  if (h_done) return;
  h_done = 1;
  fprintf(stdout, "\nHUNTFAIL %s\ncase: %s\nHUNTEND\n", why, h_cur); fflush(stdout);
  fprintf(stderr, "\nHUNTFAIL %s\ncase: %s\nHUNTEND\n", why, h_cur); fflush(stderr);
}
static void h_fail(const char *fmt, ...) {
  char b[8000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  h_report(b); _exit(1);
}
/* describe the case about to run */
static void h_case(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(h_cur, sizeof h_cur, fmt, ap); va_end(ap);
  h_evals++;
  if ((h_evals & 15) == 1) alarm(20);
}
static void h_atexit(void) { if (!h_done) h_report("the program ended inside the call (bug check, exit or sanitizer)"); }
static void h_alarm(int s) { h_report("the call does not terminate (20 s watchdog)"); _exit(1); }
static void h_sig(int s) { h_report(s == SIGSEGV ? "segmentation fault" : "abort/trap"); _exit(1); }
void __asan_on_error(void);
void __asan_on_error(void) { h_report("address sanitizer error"); }
static void h_start(int argc, char **argv) {
  long seed = argc > 2 ? atol(argv[2]) : 1;
  int i;
  h_s ^= (unsigned long long)seed * 0x9E3779B97F4A7C15ULL; if (!h_s) h_s = 1;
  for (i = 0; i < 20; i++) h_rnd();
  h_end = h_now() + (argc > 3 ? atof(argv[3]) : 10);
  signal(SIGALRM, h_alarm); signal(SIGABRT, h_sig); signal(SIGSEGV, h_sig); signal(SIGFPE, h_sig); signal(SIGILL, h_sig);
  atexit(h_atexit);
}
static int h_finish(const char *bound) {
  alarm(0);
  h_done = 1;
  printf("\nHUNT evaluations=%ld bound=%s\n", h_evals, bound); fflush(stdout);
  _exit(0);
}
#endif
