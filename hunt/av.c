/* V05: assignVar on random assertions and hypotheses against an enumeration of all substitutions */
#include "hunt.h"
#include "mmvstr.h"
#include "mmdata.h"
#include "mminou.h"
#include "mmpars.h"
#include "mmveri.h"
#define NV 7
#define NC 4
#define NA 60
#define NT 12
static char dbt[400000]; static size_t dn;
static void add(const char *f, ...) { va_list ap; va_start(ap, f); dn += vsnprintf(dbt + dn, sizeof dbt - dn, f, ap); va_end(ap); }
static char dA[NA][NV][NV], dT[NT][NV][NV];
static void dlines(char d[NV][NV]) {
  int n = rnd(4), i, j, k;
  memset(d, 0, NV * NV);
  while (n--) {
    int p[NV], m = rng(2, 4);
    for (i = 0; i < NV; i++) p[i] = i;
    for (i = NV - 1; i > 0; i--) { j = rnd(i + 1); k = p[i]; p[i] = p[j]; p[j] = k; }
    add(" $d");
    for (i = 0; i < m; i++) add(" v%d", p[i]);
    add(" $.\n");
    for (i = 0; i < m; i++) for (j = 0; j < m; j++) if (i != j) d[p[i]][p[j]] = 1;
  }
}
static void expr(int k, int nv) { int i; for (i = 0; i < k; i++) if (rnd(100) < 60) add(" v%ld", rnd(nv)); else add(" c%ld", rnd(NC)); }
static long vid[NV], cid[NC], tid[NA + NT], bar;
static int vof(long t) { int i; for (i = 0; i < NV; i++) if (vid[i] == t) return i; return -1; }
/* the enumeration */
static long sc[600], in[3000]; static int nsc, nin, nsol;
static int bound[NV], st[NV], le[NV], st1[NV], le1[NV], st2[NV], le2[NV];
static long steps;
static int hopeless(int i, int j) { /* separators left must agree */
  int a = 0, b = 0; for (; i < nsc; i++) a += sc[i] == bar; for (; j < nin; j++) b += in[j] == bar; return a != b; }
static void solve(int i, int j) {
  int v, k;
  if (nsol >= 2 || ++steps > 2000000) return;
  if (i == nsc) { if (j == nin) { if (nsol == 0) { memcpy(st1, st, sizeof st); memcpy(le1, le, sizeof le); } else { memcpy(st2, st, sizeof st); memcpy(le2, le, sizeof le); } nsol++; } return; }
  v = vof(sc[i]);
  if (v < 0) { if (j < nin && in[j] == sc[i] && (sc[i] != bar || !hopeless(i, j))) solve(i + 1, j + 1); return; }
  if (bound[v]) {
    if (j + le[v] > nin) return;
    for (k = 0; k < le[v]; k++) if (in[j + k] != in[st[v] + k]) return;
    solve(i + 1, j + le[v]); return;
  }
  bound[v] = 1;
  for (k = 0; j + k <= nin; k++) { if (k && in[j + k - 1] == bar) break; st[v] = j; le[v] = k; solve(i + 1, j + k); }
  bound[v] = 0;
}
static void show(char *o, size_t n, const long *a, int k) { int i; size_t l = 0; o[0] = 0; for (i = 0; i < k && l + 40 < n; i++) l += snprintf(o + l, n - l, "%s ", g_MathToken[a[i]].tokenName); }
int main(int argc, char **argv) {
  int i, j, k; long s;
  static char a1[3000], a2[6000], a3[4000];
  h_start(argc, argv);
  h_case("reading the generated database");
  add("$c |- wff"); for (i = 0; i < NC; i++) add(" c%d", i); add(" $.\n$v"); for (i = 0; i < NV; i++) add(" v%d", i); add(" $.\n");
  for (i = 0; i < NV; i++) add("wv%d $f wff v%d $.\n", i, i);
  for (i = 0; i < NA; i++) {
    int ne = rnd(4), nv = rng(1, 5);
    add("${\n"); dlines(dA[i]);
    for (j = 0; j < ne; j++) { add(" a%d.%d $e |-", i, j); expr(rng(0, 5), nv); add(" $.\n"); }
    add(" a%d $a |-", i); expr(rng(0, 6), nv); add(" $.\n$}\n");
  }
  for (i = 0; i < NT; i++) { add("${\n"); dlines(dT[i]); add(" t%d $p |- ", i); expr(rng(0, 4), NV); add(" $= ? $.\n$}\n"); }
  { FILE *f = fopen("db.mm", "w"); fwrite(dbt, 1, dn, f); fclose(f); }
  g_outputToString = 1;
  initBigArrays();
  let(&g_input_fn, "db.mm");
  { long sz = 0; vstring p = readSourceAndIncludes("db.mm", &sz); if (!p) h_fail("database not read"); g_sourcePtr = p; g_sourceLen = sz; 
    g_sourcePtr = readRawSource(g_sourcePtr, &g_sourceLen); parseKeywords(); parseLabels(); parseMathDecl(); parseStatements(); }
  for (i = 0; i < NV; i++) { char b[9]; sprintf(b, "v%d", i); vid[i] = -2; for (s = 0; s < g_mathTokens; s++) if (!strcmp(g_MathToken[s].tokenName, b)) vid[i] = s; }
  for (i = 0; i < NC; i++) { char b[9]; sprintf(b, "c%d", i); cid[i] = -2; for (s = 0; s < g_mathTokens; s++) if (!strcmp(g_MathToken[s].tokenName, b)) cid[i] = s; if (cid[i] < 0) h_fail("constant %s is missing", b); }
  for (i = 0; i < NA + NT; i++) { char b[9]; sprintf(b, i < NA ? "a%d" : "t%d", i < NA ? i : i - NA); tid[i] = 0; for (s = 1; s <= g_statements; s++) if (!strcmp(g_Statement[s].labelName, b)) tid[i] = s; if (!tid[i]) h_fail("statement %s is missing", b); }
  bar = g_mathTokens;
  g_WrkProof.RPNStack = malloc(1000 * sizeof(long)); g_WrkProof.mathStringPtrs = malloc(1000 * sizeof(nmbrString *)); 
  g_WrkProof.stepSrcPtrPntr = malloc(1000 * sizeof(char *)); g_WrkProof.stepSrcPtrNmbr = malloc(1000 * sizeof(long));
  while (h_more()) {
    int a = rnd(NA), t = rnd(NT), nh, unk = 0, ec0, seen[NV], nseen = 0, nreq, big = rnd(12) == 0;
    long as = tid[a], ts = tid[NA + t];
    int keepf = rnd(100) < 65 ? 100 : rng(0, 80), keepe = rnd(100) < 75 ? 100 : 70;
    long sig[NV][40]; int sl[NV]; int few = rng(1, 3);
    nmbrString *hyp[40];
    nh = g_Statement[as].numReqHyp;
    for (i = 0; i < NV; i++) { sl[i] = rnd(5) == 0 ? 0 : rng(1, big ? 25 : 4); for (j = 0; j < sl[i]; j++) sig[i][j] = rnd(100) < 60 ? vid[rnd(NV)] : cid[rnd(few)]; }
    nsc = nin = 0; sc[nsc++] = bar; in[nin++] = bar;
    for (i = 0; i < nh; i++) {
      nmbrString *m = g_Statement[g_Statement[as].reqHypList[i]].mathString;
      int isf = g_Statement[g_Statement[as].reqHypList[i]].type == (char)f_, st0 = nin, ln;
      if (rnd(100) >= (isf ? keepf : keepe)) { unk = 1; hyp[i] = 0; sc[nsc++] = bar; in[nin++] = bar; continue; }
      for (j = 0; m[j] != -1; j++) { int v; sc[nsc++] = m[j]; v = vof(m[j]); if (v < 0) in[nin++] = m[j]; else for (k = 0; k < sl[v]; k++) in[nin++] = sig[v][k]; }
      ln = nin - st0;
      if (ln > 1 && rnd(12) == 0) { int q = rng(st0, nin - 1); int w = rnd(3); /* a difference */
        if (w == 0) in[q] = rnd(2) ? vid[rnd(NV)] : cid[rnd(NC)];
        else if (w == 1) { memmove(in + q, in + q + 1, (nin - q - 1) * sizeof(long)); nin--; }
        else { memmove(in + q + 1, in + q, (nin - q) * sizeof(long)); nin++; in[q] = cid[rnd(NC)]; } }
      ln = nin - st0;
      hyp[i] = NULL_NMBRSTRING; nmbrLet(&hyp[i], nmbrSpace(ln)); for (j = 0; j < ln; j++) hyp[i][j] = in[st0 + j];
      sc[nsc++] = bar; in[nin++] = bar;
    }
    memset(seen, 0, sizeof seen); for (i = 0; i < nsc; i++) { int v = vof(sc[i]); if (v >= 0 && !seen[v]) { seen[v] = 1; nseen++; } }
    nreq = 0; for (j = 0; g_Statement[as].reqVarList[j] != -1; j++) nreq++;
    memset(bound, 0, sizeof bound); nsol = 0; steps = 0;
    if (nseen == nreq) solve(0, 0);
    if (steps > 2000000) { for (i = 0; i < nh; i++) if (hyp[i]) nmbrLet(&hyp[i], NULL_NMBRSTRING); continue; }
    ec0 = rnd(4) == 0 ? rng(1, 3) : 0;
    if (nseen != nreq && !unk) h_fail("harness: variables");
    { nmbrString *S = 0, *I = 0, *R; long e[300]; int n = 0, viol = 0, msg, rl, startt = g_nmbrStartTempAllocStack;
      for (i = 0; i < nh; i++) { g_WrkProof.RPNStack[i] = i; g_WrkProof.mathStringPtrs[i] = hyp[i] ? hyp[i] : NULL_NMBRSTRING; g_WrkProof.stepSrcPtrPntr[i] = g_Statement[ts].proofSectionPtr; g_WrkProof.stepSrcPtrNmbr[i] = 1; }
      g_WrkProof.stepSrcPtrPntr[nh] = g_Statement[ts].proofSectionPtr; g_WrkProof.stepSrcPtrNmbr[nh] = 1;
      g_WrkProof.RPNStackPtr = nh; g_WrkProof.errorCount = ec0;
      S = NULL_NMBRSTRING; I = NULL_NMBRSTRING; nmbrLet(&S, nmbrSpace(nsc)); nmbrLet(&I, nmbrSpace(nin));
      for (i = 0; i < nsc; i++) S[i] = sc[i]; for (i = 0; i < nin; i++) I[i] = in[i];
      show(a1, sizeof a1, sc, nsc); show(a2, sizeof a2, in, nin);
      h_case("assertion a%d, theorem t%d of the generated database\nscheme   %s\ninstance %s\nunknown hypotheses: %s, errors before: %d; substitutions that fit: %s", a, t, a1, a2, unk ? "yes" : "no", ec0, nseen != nreq ? "not determined" : nsol == 0 ? "none" : nsol == 1 ? "one" : "several");
      let(&g_printString, "");
      g_outputToString = 1;
      R = assignVar(S, I, as, ts, nh, unk);
      msg = g_printString[0] != 0; let(&g_printString, "");
      for (rl = 0; R[rl] != -1; rl++);
      for (i = 0; i < nsc; i++) if (S[i] != sc[i]) h_fail("the scheme was changed");
      for (i = 0; i < nin; i++) if (I[i] != in[i]) h_fail("the instance was changed");
      if (S[nsc] != -1 || I[nin] != -1) h_fail("the end marker of an argument was changed");
      if (g_nmbrStartTempAllocStack != startt) h_fail("the scope of temporaries was not restored");
      if (ec0 && msg) h_fail("a second message for the same proof");
      if (nseen != nreq) { if (rl || g_WrkProof.errorCount != ec0 || msg) h_fail("not all variables are determined, but the step is not left unknown"); }
      else if (nsol == 0) { if (rl) h_fail("the hypotheses do not unify but the step has a result"); if (g_WrkProof.errorCount != ec0 + 1) h_fail("the hypotheses do not unify: error count %d instead of %d", (int)g_WrkProof.errorCount, ec0 + 1); if (!ec0 && !msg) h_fail("the hypotheses do not unify but nothing is reported"); }
      else {
        int good = 0;
        {
          n = 0; for (j = 0; g_Statement[as].mathString[j] != -1 && n < 250; j++) { int v = vof(g_Statement[as].mathString[j]); if (v < 0) e[n++] = g_Statement[as].mathString[j]; else for (k = 0; k < le1[v] && n < 280; k++) e[n++] = in[st1[v] + k]; }
          if (n == rl) { for (i = 0; i < n && R[i] == e[i]; i++); if (i == n) good = 1; }
        }
        if (nsol == 1) {
          int u, v, x, y;
          if (!good && n < 250) { show(a1, sizeof a1, R, rl > 200 ? 200 : rl); show(a3, sizeof a3, e, n); h_fail("the result is %s\ninstead of %s", a1, a3); }
          if (g_WrkProof.errorCount != ec0) h_fail("the unification is unique but an error is counted");
          for (u = 0; u < NV; u++) for (v = 0; v < NV; v++) if (dA[a][u][v] && seen[u] && seen[v])
            for (x = 0; x < le1[u]; x++) for (y = 0; y < le1[v]; y++) { int p = vof(in[st1[u] + x]), q = vof(in[st1[v] + y]); if (p >= 0 && q >= 0 && (p == q || !dT[t][p][q])) viol = 1; }
          if (!ec0 && viol && !msg) h_fail("a disjoint variable violation is not reported");
          if (!ec0 && !viol && msg) h_fail("there is no disjoint variable violation but a message is printed");
        } else if (unk) { if (rl || g_WrkProof.errorCount != ec0) h_fail("the unification with unknown hypotheses is ambiguous but the step is not left unknown"); }
        else { if (g_WrkProof.errorCount != ec0 + 1) h_fail("the unification is ambiguous but no error is counted"); if (!ec0 && !msg) h_fail("the unification is ambiguous but nothing is reported"); }
      }
      nmbrLet(&S, NULL_NMBRSTRING); nmbrLet(&I, NULL_NMBRSTRING); nmbrLet(&R, NULL_NMBRSTRING);
    }
    for (i = 0; i < nh; i++) if (hyp[i]) nmbrLet(&hyp[i], NULL_NMBRSTRING);
  }
  return h_finish("random assertions with up to 3 essential hypotheses and 5 variables, substitutions of up to 25 symbols, some hypotheses unknown");
}
