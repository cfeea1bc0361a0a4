/* Texts in memory, for walks that put texts together: vsnprintf by ISO C for the conversions used (%s, %%, decimal numbers of type long), strdup, strlen, strcmp, free;
 * every string in an object of its own, released at most once. */
#ifndef VF_TXT_GHOST_H_
#define VF_TXT_GHOST_H_
#ifdef VF_CBMC
#define VF_DYN(p) __CPROVER_DYNAMIC_OBJECT(p)
#else
#define VF_DYN(p) 0
#endif
static int ln(const char *s) { VF_CHECK(s != NULL, "a text that is there"); if (s == NULL) return 0; int n = 0; while (s[n]) ++n; return n; }
/* vsnprintf by ISO C */
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
    size_t o = 0;
    for (; *f; ++f) {
        if (*f == '%') {
            ++f;
            if (*f == 's') { const char *s = va_arg(ap, const char *); int m = ln(s); for (int j = 0; j < m; ++j) { if (o + 1 < n) b[o] = s[j]; ++o; } continue; }
            if (*f != '%') {
                int lg = 0; while (*f == 'l' || *f == 'z' || *f == 'j') { lg = 1; ++f; }
                VF_CHECK(*f == 'd' || *f == 'i' || *f == 'u', "only texts and numbers are put together");
                long v; if (lg) v = va_arg(ap, long); else if (*f == 'u') v = va_arg(ap, unsigned int); else v = va_arg(ap, int); unsigned long u = *f != 'u' && v < 0 ? -(unsigned long)v : (unsigned long)v; char d[20]; int k = 0;
                if (*f != 'u' && v < 0) { if (o + 1 < n) b[o] = '-'; ++o; }
                do { d[k++] = '0' + u % 10; u /= 10; } while (u);
                while (k) { --k; if (o + 1 < n) b[o] = d[k]; ++o; }
                continue;
            }
        }
        if (o + 1 < n) b[o] = *f;
        ++o;
    }
    if (n) b[o < n ? o : n - 1] = 0;
    return (int)o;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
#ifndef TXT_NOMEM
#ifndef SZ
#define SZ 56
#endif
#ifndef TXT_FREE
#define TXT_FREE(p) 0
#endif
/* strings in memory: every one in an object of its own, released once */
static char B0[SZ], B1[SZ], B2[SZ], B3[SZ], B4[SZ], B5[SZ], B6[SZ], B7[SZ], B8[SZ], B9[SZ], B10[SZ], B11[SZ], B12[SZ], B13[SZ], B14[SZ], B15[SZ];
static int nB, n_dup, live[16];
static char *B(int i) { switch (i) { case 0: return B0; case 1: return B1; case 2: return B2; case 3: return B3; case 4: return B4; case 5: return B5; case 6: return B6; case 7: return B7; case 8: return B8; case 9: return B9; case 10: return B10; case 11: return B11; case 12: return B12; case 13: return B13; case 14: return B14; default: return B15; } }
static char *put(const char *s) { VF_CHECK(nB < 16, "strings"); int i = nB++; char *b = B(i); int n = ln(s); for (int k = 0; k < n; ++k) b[k] = s[k]; b[n] = 0; live[i] = 1; return b; }
char *strdup(const char *s) { if (++n_dup == NOMEM) return NULL; return put(s); }
size_t strlen(const char *s) { return ln(s); }
int strcmp(const char *a, const char *b) { int i = 0; VF_CHECK(a != NULL && b != NULL, "texts that are there"); if (a == NULL || b == NULL) return 0; while (a[i] && a[i] == b[i]) ++i; return a[i] - b[i]; }
void free(void *p) { if (p == NULL) return; for (int i = 0; i < 16; ++i) if (i < nB && p == (void *)B(i)) { VF_CHECK(live[i], "a string is released once"); live[i] = 0; return; } 
    if (TXT_FREE(p)) return;
    VF_CHECK(VF_DYN(p), "only what was allocated is released"); }
static int alive(void) { int n = 0; for (int i = 0; i < 16; ++i) n += live[i]; return n; }
#ifndef MAXOUT
#define MAXOUT 64
#endif
static char want[MAXOUT]; static int nw;
static void w(const char *s) { int n = ln(s); for (int i = 0; i < n; ++i) if (nw < MAXOUT - 1) want[nw++] = s[i]; want[nw] = 0; }
static void same(const char *s) { VF_CHECK(s != NULL, "there is a text"); if (s == NULL) return; for (int i = 0; i < nw; ++i) VF_CHECK(s[i] == want[i], "the text of the value"); VF_CHECK(s[nw] == 0, "and nothing more"); }
#define ALIVE(out) (alive() + ((out) != NULL && VF_DYN(out)))
#endif
#endif
