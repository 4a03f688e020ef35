/* T01: the token and white space scanners against an independent reading of the same text */
#include "hunt.h"
#include <ctype.h>
long whiteSpaceLen(char *), rawWhiteSpaceLen(char *), tokenLen(char *), rawTokenLen(char *), proofTokenLen(char *), countLines(const char *, long), texDefWhiteSpaceLen(char *), texDefTokenLen(char *);
extern int g_listMode;
static int gr(int c) { c &= 255; return c > 32 && c < 127; }
static int al(int c) { c &= 255; return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
/* the oracles work on (s, n) with explicit ends */
static long o_ws(const char *s, long n) {
  long i = 0;
  while (i < n) {
    if (s[i] == '$' && i + 1 < n && s[i + 1] == '(') {
      long k = i + 2;
      for (;;) {
        while (k < n && s[k] != '$') k++;
        if (k + 1 >= n) return n;
        if (s[k + 1] == ')') break;
        k += 2;
      }
      i = k + 2;
    } else if (s[i] == '$' && i + 1 < n && s[i + 1] == '!') {
      const char *e = memchr(s + i, '\n', n - i);
      if (!e) return n;
      i = e - s + 1;
    } else if (gr(s[i])) return i;
    else i++;
  }
  return n;
}
static long o_tok(const char *s, long n, int proof) {
  long i = 0;
  if (proof && n && strchr(":?()=", s[0])) return 1;
  while (i < n && gr(s[i])) {
    if (s[i] == '$') {
      if (i + 1 < n && (s[i + 1] == '$' || (!proof && s[i + 1] >= '0' && s[i + 1] <= '9'))) { i += 2; continue; }
      return i;
    }
    if (proof && strchr(":?()=", s[i])) return i;
    i++;
  }
  return i;
}
static long o_dws(const char *s, long n) {
  long i = 0;
  while (i < n) {
    if (s[i] == '/' && i + 1 < n && s[i + 1] == '*') {
      long k;
      for (k = i + 2; k + 1 < n && !(s[k] == '*' && s[k + 1] == '/'); k++);
      if (k + 1 >= n) return n;
      i = k + 2;
    } else if (gr(s[i])) return i;
    else i++;
  }
  return n;
}
static long o_dtok(const char *s, long n) {
  long i = 1;
  if (!n) return 0;
  if (s[0] == '"' || s[0] == '\'') {
    for (;;) {
      while (i < n && s[i] != s[0]) i++;
      if (i >= n) return n;
      if (i + 1 < n && s[i + 1] == s[0]) { i += 2; continue; }
      return i + 1;
    }
  }
  if (gr(s[0]) && !al(s[0])) return 1;
  for (i = 0; i < n && al(s[i]); i++);
  return i;
}
static void chk(const char *f, long got, long want) { if (got != want) h_fail("%s returns %ld, expected %ld", f, got, want); }
int main(int argc, char **argv) {
  static const char *frag[] = { "$(", "$)", "$!", "$$", "$", "$.", "$a", "$1", "\n", " ", "\t", "  ", "(", ")", "!", "*", "/*", "*/", "**/", "/", "\"", "\"\"", "'", "''", "a", "B7", "x", ":", "?", "=", "_", "\200", "\377", "\1", "\r\n", "$( ", " $)", "$t", "0", "$( a $) " };
  g_listMode = 0;
  h_start(argc, argv);
  while (h_more()) {
    long k, n = 0, m = rnd(5) ? rnd(8) : rnd(60), i, w, cn; char b[400], show[1300], *s;
    int sub = rnd(3) ? 40 : 3 + rnd(12), off = rnd(40);
    for (k = 0; k < m; k++) { const char *f = frag[(off + rnd(sub)) % 40]; strcpy(b + n, f); n += strlen(f); }
    s = malloc(n + 1); memcpy(s, b, n); s[n] = 0;
    for (i = 0, k = 0; i < n; i++) k += sprintf(show + k, (s[i] >= 32 && s[i] < 127) ? "%c" : "\\x%02x", s[i] & 255);
    show[k] = 0;
    h_case("the text is \"%s\"", show);
    for (i = 0; i <= n; i++) {
      chk("whiteSpaceLen", whiteSpaceLen(s + i), o_ws(s + i, n - i));
      for (w = i; w < n && !gr(s[w]); w++); chk("rawWhiteSpaceLen", rawWhiteSpaceLen(s + i), w - i);
      for (w = i; w < n && gr(s[w]); w++); chk("rawTokenLen", rawTokenLen(s + i), w - i);
      chk("tokenLen", tokenLen(s + i), o_tok(s + i, n - i, 0));
      chk("proofTokenLen", proofTokenLen(s + i), o_tok(s + i, n - i, 1));
      chk("texDefWhiteSpaceLen", texDefWhiteSpaceLen(s + i), o_dws(s + i, n - i));
      chk("texDefTokenLen", texDefTokenLen(s + i), o_dtok(s + i, n - i));
      k = rng(-1, n + 2); for (w = i, cn = 0; w < n && (k < 0 || w - i < k); w++) cn += s[w] == '\n';
      chk("countLines", countLines(s + i, k), cn);
    }
    free(s);
  }
  return h_finish("random texts of up to 60 fragments (keywords, comment and quote delimiters, blanks, control and 8-bit characters), every start position");
}
