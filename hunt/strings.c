/* bounded stand-in / replay harness for the string library (independent oracles) */
#include "hunt.h"
#include "mmvstr.h"
extern long g_tempAllocStackTop, g_startTempAllocStack;
static char *esc(const char *s) { static char b[8][1200]; static int k; char *o = b[k++ & 7]; int n = 0; 
  for (; *s && n < 1100; s++) { if (*s < 32 || *s > 126) n += sprintf(o + n, "\\x%02x", (unsigned char)*s); else o[n++] = *s; } o[n] = 0; return o; }
/* a heap string of exactly the right size (address sanitizer sees the end) */
static char *mk(long n, int alpha) {
  static const char *A[] = { "ab", "ab,", "a b\tc\n", "abcABC xyz[]()'\"\t \n\r,.-0159", "," };
  char *s = malloc(n + 1); long i; int la;
  if (alpha < 0) { for (i = 0; i < n; i++) { do s[i] = (char)rnd(256); while (!s[i]); } }
  else { la = strlen(A[alpha]); for (i = 0; i < n; i++) s[i] = A[alpha][rnd(la)]; }
  s[n] = 0; return s;
}
static long sz(void) { long r = rnd(10); return r < 7 ? rnd(8) : r < 9 ? rnd(40) : rnd(300); }
static char *oseg(const char *s, long a, long b) { /* characters a..b (1-based), clipped */
  long n = strlen(s), i, k = 0; char *o = malloc(n + 2);
  for (i = 1; i <= n; i++) if (i >= a && i <= b) o[k++] = s[i - 1];
  o[k] = 0; return o;
}
static void eq(const char *what, const char *got, const char *want) {
  if (strcmp(got, want)) h_fail("%s: got \"%s\" expected \"%s\"", what, esc(got), esc(want));
}
static void S01(void) {
  char *s = mk(sz(), rnd(6) - 1); long n = strlen(s), a, b; char *o; vstring t = "", u = "";
  char *copy = strdup(s);
  a = rng(-3, n + 1); b = rng(-3, n + 6);
  if (rnd(8) == 0) b = rng(-3, n + 5);
  switch (rnd(6)) {
  case 0: h_case("left(\"%s\", %ld)", esc(s), b); t = left(s, b); o = oseg(s, 1, b); break;
  case 1: h_case("right(\"%s\", %ld)", esc(s), a); t = right(s, a); o = oseg(s, a, n); break;
  case 2: h_case("mid(\"%s\", %ld, %ld)", esc(s), a, b); t = mid(s, a, b); o = oseg(s, a < 1 ? 1 : a, (a < 1 ? 1 : a) + b - 1); break;
  case 3: h_case("seg(\"%s\", %ld, %ld)", esc(s), a, b); t = seg(s, a, b); o = oseg(s, a, b); break;
  case 4: h_case("space(%ld)", b); t = space(b); o = calloc(b < 0 ? 1 : b + 1, 1); memset(o, ' ', b < 0 ? 0 : b); break;
  default: { char c = (char)rng(1, 255); h_case("string(%ld, %d)", b, c); t = string(b, c); o = calloc(b < 0 ? 1 : b + 1, 1); memset(o, c, b < 0 ? 0 : b); }
  }
  eq("substring", t, o);
  if (len(t) != (long)strlen(t)) h_fail("len(\"%s\") = %ld", esc(t), len(t));
  if (strcmp(copy, s)) h_fail("the argument was modified");
  if (rnd(2)) { /* keep the result across another call, then assign */
    char *keep = strdup(t); left("other", 3); eq("first temporary after a second call", t, keep);
    let(&u, t); eq("assigned", u, keep); let(&u, ""); free(keep);
  } else freeTempAlloc();
  free(s); free(o); free(copy);
}
static long oinstr(long st, const char *s, const char *m) {
  long n = strlen(s), lm = strlen(m), p;
  if (st < 1) st = 1;
  for (p = st; p + lm - 1 <= n; p++) if (!memcmp(s + p - 1, m, lm)) return p;
  return 0;
}
static void S02(void) {
  char *s = mk(sz(), rnd(4) - 1), *m, *copy = strdup(s); long n = strlen(s), st = rng(-2, n + 4), g, w;
  if (rnd(2) && n > 0) { long a = rnd(n), l = rng(1, n - a); m = malloc(l + 1); memcpy(m, s + a, l); m[l] = 0; if (rnd(3) == 0) m[rnd(l)] = 'b'; }
  else m = mk(rng(1, 4), rnd(2));
  h_case("instr(%ld, \"%s\", \"%s\")", st, esc(s), esc(m));
  g = instr(st, s, m); w = oinstr(st, s, m);
  if (g != w) h_fail("got %ld expected %ld", g, w);
  h_case("rinstr(\"%s\", \"%s\")", esc(s), esc(m));
  { long p = 0, last = 0; while ((p = oinstr(p + 1, s, m))) last = p; g = rinstr(s, m); if (g != last) h_fail("got %ld expected %ld", g, last); }
  if (strcmp(copy, s)) h_fail("the argument was modified");
  free(s); free(m); free(copy);
}
/* k-th item by an independent split */
static char *item(const char *l, long k, long *pos) {
  const char *p = l; const char *q; char *o;
  long i;
  if (k < 1) return NULL;
  for (i = 1; i < k; i++) { p = strchr(p, ','); if (!p) return NULL; p++; }
  q = strchr(p, ','); if (!q) q = p + strlen(p);
  o = malloc(q - p + 1); memcpy(o, p, q - p); o[q - p] = 0; *pos = p - l + 1; return o;
}
static void S03(void) {
  char *s = mk(sz(), rnd(3) ? 1 : rnd(6) - 1), *copy = strdup(s), *it, *e; long n = 1, i, k, g, pos, w; 
  for (i = 0; s[i]; i++) if (s[i] == ',') n++;
  k = rng(-1, n + 2);
  h_case("numEntries(\"%s\")", esc(s));
  g = numEntries(s); w = s[0] ? n : 0; if (g != w) h_fail("got %ld expected %ld", g, w);
  h_case("entry(%ld, \"%s\")", k, esc(s));
  it = item(s, k, &pos);
  eq("entry", entry(k, s), it ? it : "");
  h_case("entryPosition(%ld, \"%s\")", k, esc(s));
  g = entryPosition(k, s); w = it && it[0] ? pos : 0; if (g != w) h_fail("got %ld expected %ld", g, w);
  if (rnd(2) && it) { e = it; it = NULL; } else { e = mk(rnd(4), 0); }
  h_case("lookup(\"%s\", \"%s\")", esc(e), esc(s));
  g = lookup(e, s); w = 0;
  for (i = 1; i <= n && !w; i++) { char *x = item(s, i, &pos); if (!strcmp(x, e)) w = i; free(x); }
  if (g != w) h_fail("got %ld expected %ld", g, w);
  if (strcmp(copy, s)) h_fail("the argument was modified");
  freeTempAlloc(); free(s); free(e); if (it) free(it); free(copy);
}
/* independent edit */
static int bl(char c) { return c == ' ' || c == '\t'; }
static char *oedit(const char *s, long f) {
  long n = strlen(s), i, k = 0, q = 0; char *o = malloc(8 * n + 10), *r;
  i = 0;
  if (f & 8) while (bl(s[i])) i++;
  for (; s[i]; i++) {
    unsigned char c = s[i];
    if ((f & 256) && (c == '"' || c == '\'')) q = !q;
    if (!q) {
      if ((f & 2) && bl(c)) continue;
      if (f & 1) { c &= 127; if (!c) continue; }
      if ((f & 4) && (c == 13 || c == 10 || c == 12 || c == 27 || c == 8)) continue;
      if ((f & 8192) && c == 13) continue;
      if ((f & 32) && c >= 'a' && c <= 'z') c -= 32;
      if (f & 64) { if (c == '[') c = '('; if (c == ']') c = ')'; }
      if ((f & 512) && c >= 'A' && c <= 'Z') c += 32;
      if (f & 4096) {
        if ((c >= 234 && c <= 237) || c == 218 || c == 217 || c == 191 || c == 192) c = '+';
        else if (c == 241 || c == 196) c = '-'; else if (c == 248 || c == 166 || c == 179) c = '|';
      }
    }
    o[k++] = c;
  }
  o[k] = 0;
  if (f & 128) { while (k > 0 && bl(o[k - 1])) k--; o[k] = 0; }
  if (f & 16384) { while (k > 0 && (bl(o[k - 1]) || o[k - 1] == '\n')) k--; o[k] = 0; }
  if (f & 16) { long j = 0; for (i = 0; i < k; i++) { if (!bl(o[i])) o[j++] = o[i]; else if (j == 0 || i == 0 || !bl(o[i - 1])) o[j++] = ' '; } 
    o[j] = 0; k = j; }
  if (f & (2048 | 1024)) { /* tab stops every 8 columns */
    long col = 0, j = 0; r = malloc(8 * k + 10);
    for (i = 0; i < k; i++) {
      if (o[i] == '\n') { r[j++] = o[i]; col = 0; }
      else if (o[i] == '\t') { do { r[j++] = ' '; col++; } while (col % 8); }
      else { r[j++] = o[i]; col++; }
    }
    r[j] = 0; free(o); o = r; k = j;
  }
  return o;
}
/* expand tabs of a one-line string */
static void S04(void) {
  vstring a = "", b = "", c = "";
  char *s = mk(sz(), rnd(6) - 1), *t = mk(sz(), rnd(6) - 1), *u = mk(sz(), rnd(6) - 1), *o;
  long i, na = g_tempAllocStackTop;
  switch (rnd(6)) {
  case 0: case 1:
    h_case("let(&a, \"%s\"); let(&a, \"%s\"); let(&a, \"%s\")", esc(s), esc(t), esc(u));
    let(&a, s); eq("let", a, s); let(&b, a); let(&a, t); eq("let", a, t); eq("other variable", b, s); let(&a, u); eq("let", a, u); eq("other variable", b, s);
    if (g_tempAllocStackTop != g_startTempAllocStack) h_fail("temporaries not released by the assignment");
    let(&c, a); if (c == a && a[0]) h_fail("two variables share storage");
    break;
  case 2:
    h_case("let(&a, cat(\"%s\", \"%s\", left(\"%s\", 3)))", esc(s), esc(t), esc(u));
    o = malloc(2000); snprintf(o, 2000, "%s%s%.3s", s, t, u);
    let(&a, cat(s, t, left(u, 3), NULL)); eq("cat", a, o);
    let(&b, cat(a, NULL)); eq("cat of one", b, o);
    let(&a, cat("<", a, "|", a, ">", NULL)); { char *p = malloc(5000); sprintf(p, "<%s|%s>", o, o); eq("cat with the target as argument", a, p); free(p); }
    free(o); break;
  case 3: { /* temporaries of an enclosing scope survive */
    char *x, *y; long save = g_startTempAllocStack;
    h_case("scope: left(\"%s\",4) kept while an inner scope assigns", esc(s));
    x = left(s, 4); o = oseg(s, 1, 4);
    g_startTempAllocStack = g_tempAllocStackTop;
    let(&a, cat(t, u, NULL)); y = right(t, 2); let(&b, y);
    eq("outer temporary", x, o);
    g_startTempAllocStack = save; eq("outer temporary", x, o); freeTempAlloc(); free(o);
    if (g_tempAllocStackTop != save) h_fail("stack top %ld", g_tempAllocStackTop);
    break; }
  case 4:
    h_case("chr/ascii/xlate: \"%s\" table \"%s\"", esc(s), esc(t));
    i = rng(-300, 600); { char *r = chr(i); if ((unsigned char)r[0] != (i & 255) || (r[0] && r[1])) h_fail("chr(%ld)", i); if (r[0] && ascii_(r) != (i & 255)) h_fail("ascii_(chr(%ld)) = %ld", i, ascii_(r)); }
    { long k = 0, lt = strlen(t); o = malloc(strlen(s) + 1); for (i = 0; s[i]; i++) if ((unsigned char)s[i] < lt) o[k++] = t[(unsigned char)s[i]]; o[k] = 0;
      eq("xlate", xlate(s, t), o); free(o); }
    break;
  default: { /* makeTempAlloc hands a variable to the temporaries */
    vstring v = "";
    h_case("makeTempAlloc(\"%s\")", esc(s));
    let(&v, s); let(&a, cat(makeTempAlloc(v), t, NULL)); o = malloc(2000); sprintf(o, "%s%s", s, t); eq("makeTempAlloc", a, o); free(o);
    break; }
  }
  let(&a, ""); let(&b, ""); let(&c, "");
  if (a[0] || b[0]) h_fail("not emptied");
  if (g_tempAllocStackTop != na) h_fail("temporary stack top changed from %ld to %ld", na, g_tempAllocStackTop);
  free(s); free(t); free(u);
}
static void S05(void) {
  char *s, *o, *copy; long f = 0, i, nf = rng(0, 4);
  static const long F[] = { 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 2048, 4096, 8192, 16384 };
  int tabs = rnd(8) == 0;
  if (tabs) { s = mk(sz(), 2); { long n = strlen(s); for (i = 0; i < n; i++) if (rnd(2)) s[i] = '\t'; } }
  else s = mk(sz(), rnd(6) - 1);
  copy = strdup(s);
  for (i = 0; i < nf; i++) f |= F[rnd(14)];
  h_case("edit(\"%s\", %ld)", esc(s), f);
  o = oedit(s, f); eq("edit", edit(s, f), o);
  freeTempAlloc(); free(o);
  if (strcmp(s, copy)) h_fail("the argument was modified");
  /* tab then untab is the identity on the untabbed line */
  { char *p = strdup(s); long k = 0; for (i = 0; p[i]; i++) if (p[i] != '\n') p[k++] = p[i]; p[k] = 0;
    h_case("edit(edit(\"%s\", 1024), 2048)", esc(p));
    { char *x = oedit(p, 2048), *tb = edit(p, 1024); 
      if (strlen(tb) > strlen(x)) h_fail("tabbing made the line longer");
      eq("tab, then untab", edit(tb, 2048), x); free(x); freeTempAlloc(); }
    free(p); }
  /* str, val round trip */
  { char b[80]; double d = (double)rng(-1000000, 1000000) / (rnd(2) ? 1 : 100); char *r; long n;
    h_case("str(%f)", d); r = str(d); sprintf(b, "%f", d); n = strlen(b); while (b[n - 1] == '0') n--; if (b[n - 1] == '.') n--; b[n] = 0; eq("str", r, b);
    { double v = val(r), e = v - d; if (e < 0) e = -e; if (e > 1e-5) h_fail("val(str(%f)) = %f", d, v); } freeTempAlloc(); }
  free(s); free(copy);
}
int main(int argc, char **argv) {
  char *m = argc > 1 ? argv[1] : "S01";
  h_start(argc, argv);
  while (h_more()) {
    int i; for (i = 0; i < 50; i++)
      if (!strcmp(m, "S01")) S01(); else if (!strcmp(m, "S02")) S02(); else if (!strcmp(m, "S03")) S03(); else if (!strcmp(m, "S04")) S04(); else S05();
  }
  return h_finish("random strings up to 300 characters, small alphabets and arbitrary bytes");
}
