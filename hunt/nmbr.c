/* bounded stand-in / replay harness for the number-string library (independent oracles on plain arrays) */
#include "hunt.h"
#include "mmvstr.h"
#include "mmdata.h"
#define MX 6000
typedef struct { long n, a[MX]; } arr;
static char *show(const arr *x) { static char b[8][1500]; static int k; char *o = b[k++ & 7]; int n = 0; long i;
  n += sprintf(o, "["); for (i = 0; i < x->n && n < 1400; i++) n += sprintf(o + n, "%s%ld", i ? " " : "", x->a[i]); sprintf(o + n, "]"); return o; }
static char *shown(const nmbrString *s) { arr x; x.n = 0; while (s[x.n] != -1 && x.n < MX - 1) { x.a[x.n] = s[x.n]; x.n++; } return show(&x); }
static void eqs(const char *what, const nmbrString *got, const arr *want) {
  long i;
  for (i = 0; i < want->n; i++) if (got[i] != want->a[i]) h_fail("%s: got %s expected %s", what, shown(got), show(want));
  if (got[want->n] != -1) h_fail("%s: got %s expected %s (longer)", what, shown(got), show(want));
  if (nmbrLen(got) != want->n) h_fail("%s: nmbrLen = %ld, expected %ld", what, nmbrLen(got), want->n);
  if (nmbrAllocLen(got) < want->n) h_fail("%s: nmbrAllocLen = %ld below the length %ld", what, nmbrAllocLen(got), want->n);
}
static long sz(void) { long r = rnd(10); if (!rnd(50)) return rnd(900); return r < 7 ? rnd(6) : r < 9 ? rnd(15) : rnd(60); }
static int alph = 4;
static arr ra(void) { arr x; long i; x.n = sz(); for (i = 0; i < x.n; i++) x.a[i] = rnd(12) ? rnd(alph) : rnd(3) ? rnd(1000000) : -2 - rnd(50); return x; }
static arr oseg(const arr *x, long a, long b) { arr o; long i; o.n = 0; for (i = 1; i <= x->n; i++) if (i >= a && i <= b) o.a[o.n++] = x->a[i - 1]; return o; }
#define NV 6
static nmbrString *V[NV]; static arr A[NV];
static void setv(int k, arr x) { /* assign through space + writes */
  nmbrString *t; long i;
  t = nmbrSpace(x.n); for (i = 0; i < x.n; i++) { if (t[i] != 0) h_fail("nmbrSpace(%ld)[%ld] = %ld", x.n, i, t[i]); t[i] = x.a[i]; }
  nmbrLet(&V[k], t); A[k] = x;
}
static int mem(const arr *x, long n, long v) { long i; for (i = 0; i < n; i++) if (x->a[i] == v) return 1; return 0; }
static void all(const char *what) { int i; for (i = 0; i < NV; i++) { char b[200]; sprintf(b, "%s: variable %d", what, i); eqs(b, V[i], &A[i]); } }
static void N01(void) {
  static int inited; int k, i, j, m; arr o; long a, b; nmbrString *t;
  if (!inited) { inited = 1; for (k = 0; k < NV; k++) { V[k] = NULL_NMBRSTRING; A[k].n = 0; } }
  k = rnd(NV); i = rnd(NV); j = rnd(NV); m = rnd(NV);
  for (a = 0; a < NV; a++) if (A[a].n > 1000 || (A[a].n > 100 && rnd(4))) { h_case("shrink"); nmbrLet(&V[a], NULL_NMBRSTRING); A[a].n = 0; }
  switch (rnd(11)) {
  case 0: o = ra(); h_case("assign %s", show(&o)); setv(k, o); break;
  case 1: h_case("nmbrLet(v%d, v%d) v=%s", k, i, show(&A[i])); o = A[i]; nmbrLet(&V[k], V[i]); A[k] = o; break;
  case 2: h_case("nmbrCat(%s, %s)", show(&A[i]), show(&A[j])); o = A[i]; for (a = 0; a < A[j].n; a++) o.a[o.n++] = A[j].a[a];
    t = nmbrCat(V[i], V[j], NULL); eqs("cat", t, &o); nmbrLet(&V[k], t); A[k] = o; break;
  case 3: h_case("nmbrCat(%s, %s, %s)", show(&A[i]), show(&A[j]), show(&A[m])); o = A[i]; for (a = 0; a < A[j].n; a++) o.a[o.n++] = A[j].a[a]; for (a = 0; a < A[m].n; a++) o.a[o.n++] = A[m].a[a];
    t = nmbrCat(V[i], V[j], V[m], NULL); eqs("cat", t, &o); nmbrLet(&V[k], t); A[k] = o; break;
  case 4: a = rng(-2, A[i].n + 1); b = rng(-2, A[i].n); h_case("nmbrSeg(%s, %ld, %ld)", show(&A[i]), a, b); o = oseg(&A[i], a, b);
    t = nmbrSeg(V[i], a, b); eqs("seg", t, &o); nmbrLet(&V[k], t); A[k] = o; break;
  case 5: a = rng(-2, A[i].n + 1); b = rng(-2, A[i].n - (a < 1 ? 1 : a) + 1); h_case("nmbrMid(%s, %ld, %ld)", show(&A[i]), a, b); o = oseg(&A[i], a < 1 ? 1 : a, (a < 1 ? 1 : a) + b - 1);
    t = nmbrMid(V[i], a, b); eqs("mid", t, &o); nmbrLet(&V[k], t); A[k] = o; break;
  case 6: b = rng(-2, A[i].n); h_case("nmbrLeft(%s, %ld)", show(&A[i]), b); o = oseg(&A[i], 1, b);
    t = nmbrLeft(V[i], b); eqs("left", t, &o); nmbrLet(&V[k], t); A[k] = o; break;
  case 7: a = rng(-2, A[i].n + 3); h_case("nmbrRight(%s, %ld)", show(&A[i]), a); o = oseg(&A[i], a, A[i].n);
    t = nmbrRight(V[i], a); eqs("right", t, &o); nmbrLet(&V[k], t); A[k] = o; break;
  case 8: a = rnd(50); h_case("nmbrAddElement(%s, %ld)", show(&A[i]), a); o = A[i]; o.a[o.n++] = a;
    t = nmbrAddElement(V[i], a); eqs("addElement", t, &o); nmbrLet(&V[k], t); A[k] = o; break;
  case 9: { /* nested temporaries: left & right of the same variable survive until the assignment; shrink in place */
    nmbrString *x, *y; a = rng(0, A[i].n); h_case("nmbrCat(nmbrLeft(v, %ld), v%d, nmbrRight(v, %ld)) v=%s", a, j, a + 1, show(&A[i]));
    x = nmbrLeft(V[i], a); y = nmbrRight(V[i], a + 1); o = oseg(&A[i], 1, a); eqs("left kept", x, &o);
    for (b = 0; b < A[j].n; b++) o.a[o.n++] = A[j].a[b]; for (b = a; b < A[i].n; b++) o.a[o.n++] = A[i].a[b];
    t = nmbrCat(x, V[j], y, NULL); eqs("cat of parts", t, &o); nmbrLet(&V[k], t); A[k] = o; break; }
  default: { flag e; h_case("nmbrEq(%s, %s), nmbrZapLen", show(&A[i]), show(&A[j])); e = nmbrEq(V[i], V[j]);
    m = A[i].n == A[j].n && !memcmp(A[i].a, A[j].a, A[i].n * sizeof(long)); if (!e != !m) h_fail("nmbrEq = %d", e);
    if (A[k].n > 1) { a = rng(0, A[k].n); if (a == 0) a = 1; nmbrZapLen(V[k], a); V[k][a] = -1; A[k].n = a; }
    if (A[i].n && rnd(2)) { h_case("copy of v%d with one element changed, %ld elements", i, A[i].n); nmbrLet(&V[k], V[i]); A[k] = A[i]; if (k != i) { a = rnd(2) ? A[k].n - 1 : rnd(A[k].n); V[k][a]++; if (V[k][a] == -1) V[k][a] = 5; A[k].a[a] = V[k][a];
      if (nmbrEq(V[i], V[k]) || nmbrEq(V[k], V[i])) h_fail("nmbrEq = 1 although element %ld of %ld differs", a + 1, A[k].n); } }
    nmbrLet(&V[i], V[i]); } }
  all("after the operation");
}
static void N02(void) {
  nmbrString *x = NULL_NMBRSTRING, *y = NULL_NMBRSTRING, *t; arr p, q, o; long i, st, r, w;
  V[0] = NULL_NMBRSTRING; V[1] = NULL_NMBRSTRING;
  alph = 1 + rnd(5); p = ra(); q = ra();
  if (rnd(2) && p.n) { long s = rnd(p.n); q.n = rnd(p.n - s + 1); for (i = 0; i < q.n; i++) q.a[i] = p.a[s + i]; } /* a part of p */
  h_case("set-up"); setv(0, p); setv(1, q); x = V[0]; y = V[1];
  switch (rnd(7)) {
  case 0: st = rng(-2, p.n + 2); h_case("nmbrInstr(%ld, %s, %s)", st, show(&p), show(&q)); r = nmbrInstr(st, x, y); w = 0;
    for (i = st < 1 ? 1 : st; i + q.n - 1 <= p.n && !w; i++) { if (!memcmp(p.a + i - 1, q.a, q.n * sizeof(long))) w = i; }
    if (r != w) h_fail("got %ld expected %ld", r, w); break;
  case 1: if (!q.n) break; st = rng(-1, p.n + 3); h_case("nmbrRevInstr(%ld, %s, %s)", st, show(&p), show(&q)); r = nmbrRevInstr(st, x, y); w = 0;
    for (i = 1; i <= st && i + q.n - 1 <= p.n; i++) if (!memcmp(p.a + i - 1, q.a, q.n * sizeof(long))) w = i;
    if (r != w) h_fail("got %ld expected %ld", r, w); break;
  case 2: st = rng(1, p.n + 1); w = q.n ? q.a[0] : 3; h_case("nmbrElementIn(%ld, %s, %ld)", st, show(&p), w); r = nmbrElementIn(st, x, w);
    { long z = 0; for (i = p.n; i >= st; i--) if (p.a[i - 1] == w) z = i; if (r != z) h_fail("got %ld expected %ld", r, z); } break;
  case 3: h_case("nmbrUnion(%s, %s)", show(&p), show(&q)); o = p; for (i = 0; i < q.n; i++) if (!mem(&p, p.n, q.a[i]) && !mem(&q, i, q.a[i])) o.a[o.n++] = q.a[i];
    t = nmbrUnion(x, y); eqs("union", t, &o); nmbrLet(&V[1], t); eqs("kept", V[1], &o); y = V[1]; break;
  case 4: h_case("nmbrIntersection(%s, %s)", show(&p), show(&q)); o.n = 0; for (i = 0; i < q.n; i++) if (mem(&p, p.n, q.a[i])) o.a[o.n++] = q.a[i];
    t = nmbrIntersection(x, y); eqs("intersection", t, &o); nmbrLet(&V[1], t); y = V[1]; break;
  case 5: h_case("nmbrSetMinus(%s, %s)", show(&p), show(&q)); o.n = 0; for (i = 0; i < p.n; i++) if (!mem(&q, q.n, p.a[i])) o.a[o.n++] = p.a[i];
    t = nmbrSetMinus(x, y); eqs("difference", t, &o); nmbrLet(&V[1], t); y = V[1]; break;
  default: { static struct mathToken_struct *T; if (!T) { T = calloc(60, sizeof *T); } g_MathToken = T; g_mathTokens = 59;
    for (i = 0; i < 60; i++) { T[i].tokenType = rnd(2) ? var_ : con_; T[i].tmp = 0; }
    for (i = 0; i < p.n; i++) { if (p.a[i] < 0 || p.a[i] > 59) p.a[i] = rnd(60); } setv(0, p); x = V[0];
    { char ty[64]; for (i = 0; i < 60; i++) ty[i] = T[i].tokenType == var_ ? 'v' : 'c'; ty[60] = 0; h_case("nmbrExtractVars(%s) types %s", show(&p), ty); }
    o.n = 0; for (i = 0; i < p.n; i++) if (T[p.a[i]].tokenType == var_ && !mem(&o, o.n, p.a[i])) o.a[o.n++] = p.a[i];
    t = nmbrExtractVars(x); eqs("extractVars", t, &o); nmbrLet(&V[1], t); y = V[1];
  } }
  eqs("first argument", x, &p); nmbrLet(&V[0], NULL_NMBRSTRING); nmbrLet(&V[1], NULL_NMBRSTRING);
}
int main(int argc, char **argv) {
  char *m = argc > 1 ? argv[1] : "N01"; g_listMode = 0; initBigArrays();
  h_start(argc, argv);
  while (h_more()) { int i; for (i = 0; i < 50; i++) if (!strcmp(m, "N01")) N01(); else N02(); }
  return h_finish("random number strings up to 300 elements, small alphabets, sequences of operations on 6 variables");
}
