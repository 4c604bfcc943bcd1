/* C library functions as the symbolic executor sees them.  The native replay
 * uses the real ones. */
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include "vp.h"
#undef stdin
#undef stdout
#undef stderr
int vp_case, vp_deep;
FILE *stdin, *stdout, *stderr;
static int errno_;
int *__errno_location(void) { return &errno_; }
void *malloc(size_t);
void free(void *);

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strcpy(char *d, const char *s)
{
    size_t i = strlen(s), j;
    VP_ASSERT(d > s + i || s > d + i, "strcpy of overlapping strings");
    for (j = 0; j <= i; j++) d[j] = s[j];
    return d;
}
char *stpcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
char *strncpy(char *d, const char *s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n)
{
    size_t k = strlen(d), i = 0;
    for (; i < n && s[i]; i++) d[k + i] = s[i];
    d[k + i] = 0;
    return d;
}
size_t strlcpy(char *d, const char *s, size_t n)
{
    size_t i = 0, l = strlen(s);
    if (n) { for (; i + 1 < n && s[i]; i++) d[i] = s[i]; d[i] = 0; }
    return l;
}
size_t strlcat(char *d, const char *s, size_t n)
{
    size_t k = strnlen(d, n);
    return k + (k == n ? strlen(s) : strlcpy(d + k, s, n - k));
}
int strcmp(const char *a, const char *b)
{
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return (unsigned char)a[i] - (unsigned char)b[i];
}
int strncmp(const char *a, const char *b, size_t n)
{
    size_t i = 0;
    for (; i < n; i++) {
        if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i];
        if (!a[i]) return 0;
    }
    return 0;
}
int memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i];
    return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memmove(void *, const void *, size_t);
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
void *memset(void *, int, size_t);
void bzero(void *d, size_t n) { memset(d, 0, n); }
void *memchr(const void *s, int c, size_t n)
{
    const unsigned char *p = s;
    for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i);
    return 0;
}
static inline int lower(unsigned char c) { return (unsigned)c - 'A' < 26 ? c + 32 : c; }
int strcasecmp(const char *a, const char *b)
{
    size_t i = 0;
    while (a[i] && lower(a[i]) == lower(b[i])) i++;
    return lower(a[i]) - lower(b[i]);
}
int strncasecmp(const char *a, const char *b, size_t n)
{
    size_t i = 0;
    for (; i < n; i++) {
        if (lower(a[i]) != lower(b[i])) return lower(a[i]) - lower(b[i]);
        if (!a[i]) return 0;
    }
    return 0;
}
char *strchr(const char *s, int c)
{
    for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *index(const char *s, int c) { return strchr(s, c); }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *strrchr(const char *s, int c)
{
    const char *r = 0;
    for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
char *rindex(const char *s, int c) { return strrchr(s, c); }
size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && strchr(set, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : 0; }
char *strstr(const char *h, const char *n)
{
    size_t l = strlen(n);
    for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; }
}
char *strcasestr(const char *h, const char *n)
{
    size_t l = strlen(n);
    for (;; h++) { if (!strncasecmp(h, n, l)) return (char *)h; if (!*h) return 0; }
}
char *strdup(const char *s)
{
    size_t n = strlen(s) + 1, i; char *d = malloc(n);
    for (i = 0; i < n; i++) d[i] = s[i];
    return d;
}
char *strndup(const char *s, size_t m)
{
    size_t n = strnlen(s, m), i; char *d = malloc(n + 1);
    for (i = 0; i < n; i++) d[i] = s[i];
    d[n] = 0;
    return d;
}
/* ctype: any int is accepted; outside ASCII nothing is alphanumeric ("C" locale) */
int isdigit(int c) { return (unsigned)c - '0' < 10; }
int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int isalnum(int c) { return (isdigit(c) | isalpha(c)); }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9 < 5); }
int isupper(int c) { return (unsigned)c - 'A' < 26; }
int islower(int c) { return (unsigned)c - 'a' < 26; }
int isprint(int c) { return (unsigned)c - 32 < 95; }
int isgraph(int c) { return (unsigned)c - 33 < 94; }
int iscntrl(int c) { return ((unsigned)c < 32) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | (((unsigned)c | 32) - 'a' < 6); }
int tolower(int c) { return (unsigned)c - 'A' < 26 ? c + 32 : c; }
int toupper(int c) { return (unsigned)c - 'a' < 26 ? c - 32 : c; }
static long tol(const char *s, const char **e)
{
    int neg = 0; long v = 0; const char *b = s;
    while (isspace((unsigned char)*s)) s++;
    if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
    if (!isdigit(*s)) { if (e) *e = b; return 0; }
    while (*s >= '0' && *s <= '9') { if (v < 1000000000000l) v = v * 10 + (*s - '0'); s++; }
    if (e) *e = s;
    return neg ? -v : v;
}
int atoi(const char *s) { return (int)tol(s, 0); }
long atol(const char *s) { return tol(s, 0); }
long strtol(const char *s, char **e, int base) { vp_bound_(base == 10 || base == 0, "strtol base"); return tol(s, (const char **)e); }
unsigned long strtoul(const char *s, char **e, int base) { return (unsigned long)strtol(s, e, base); }
long long strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
long long atoll(const char *s) { return tol(s, 0); }
void *mempcpy(void *d, const void *s, size_t n) { memmove(d, s, n); return (char *)d + n; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }
void explicit_bzero(void *d, size_t n) { memset(d, 0, n); }
double difftime(long a, long b) { return (double)(a - b); }
static char *strtok_p;
char *strtok_r(char *s, const char *delim, char **sp)
{
    char *b;
    if (!s) s = *sp;
    if (!s) return 0;
    while (*s && strchr(delim, *s)) s++;
    if (!*s) { *sp = 0; return 0; }
    b = s;
    while (*s && !strchr(delim, *s)) s++;
    if (*s) { *s = 0; *sp = s + 1; } else *sp = 0;
    return b;
}
char *strtok(char *s, const char *delim) { return strtok_r(s, delim, &strtok_p); }
char *strsep(char **sp, const char *delim)
{
    char *b = *sp, *s;
    if (!b) return 0;
    s = b + strcspn(b, delim);
    if (*s) { *s = 0; *sp = s + 1; } else *sp = 0;
    return b;
}
char *strerror(int e) { return "error"; }
void perror(const char *s) { }
int abs(int v) { return v < 0 ? -v : v; }
unsigned short htons(unsigned short v) { return (unsigned short)(v >> 8 | v << 8); }
unsigned short ntohs(unsigned short v) { return htons(v); }
unsigned htonl(unsigned v) { return v >> 24 | (v >> 8 & 0xff00) | (v << 8 & 0xff0000) | v << 24; }
unsigned ntohl(unsigned v) { return htonl(v); }

/* dotted quads of four decimal numbers (no octal, hex or short forms) */
int inet_pton(int af, const char *s, void *d)
{
    unsigned char *o = d; int i; unsigned v;
    vp_bound_(af == 2, "inet_pton family");
    for (i = 0; i < 4; i++) {
        if (!isdigit((unsigned char)*s)) return 0;
        for (v = 0; isdigit((unsigned char)*s); s++) { v = v * 10 + (unsigned)(*s - '0'); if (v > 255) return 0; }
        o[i] = (unsigned char)v;
        if (i < 3 && *s++ != '.') return 0;
    }
    return !*s || isspace((unsigned char)*s);
}
int inet_aton(const char *s, void *d) { return inet_pton(2, s, d); }
unsigned inet_addr(const char *s) { unsigned v; return inet_pton(2, s, &v) ? v : 0xffffffffu; }

/* printf family: %s %c %d %i %u %x %X %p with l/z/h, width, 0/-/# flags and
 * precision.  n is the room including the NUL. */
#define OUT(ch) do { char oc_ = (ch); if (pos + 1 < n) out[pos] = oc_; pos++; } while (0)
int vsnprintf(char *out, size_t n, const char *f, va_list ap)
{
    size_t pos = 0;
    for (; *f; f++) {
        if (*f != '%') { OUT(*f); continue; }
        f++;
        int left = 0, zero = 0, width = 0, prec = -1, lng = 0, plus = 0;
        for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f != '#' && *f != ' ') break; }
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; }
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        width = (int)vp_conc_(width);
        if (*f == '.') {
            f++;
            if (*f == '*') { prec = va_arg(ap, int); f++; }
            else { prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); prec = (int)vp_conc_(prec); }
        }
        while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f != 'h') lng = 1; f++; }
        switch (*f) {
        case '%': OUT('%'); break;
        case 'c': {
            int c = va_arg(ap, int), w;
            if (!left) for (w = 1; w < width; w++) OUT(' ');
            OUT((char)c);
            if (left) for (w = 1; w < width; w++) OUT(' ');
            break;
        }
        case 's': {
            const char *s = va_arg(ap, const char *);
            int k = 0;
            if (!s) s = "(null)";
            if (!left && width > 0) {
                int l = 0; while ((prec < 0 || l < prec) && s[l]) l++;
                for (; l < width; l++) OUT(' ');
            }
            while ((prec < 0 || k < prec) && s[k]) { OUT(s[k]); k++; }
            if (left) for (; k < width; k++) OUT(' ');
            break;
        }
        case 'd': case 'u': case 'i': case 'x': case 'X': case 'p': case 'o': {
            char d[28]; int k = 0, neg = 0, base = 10;
            unsigned long v;
            if (*f == 'x' || *f == 'X' || *f == 'p') base = 16;
            if (*f == 'o') base = 8;
            if (*f == 'd' || *f == 'i') { long sv = lng ? va_arg(ap, long) : (long)va_arg(ap, int); neg = sv < 0; v = neg ? 0ul - (unsigned long)sv : (unsigned long)sv; }
            else v = lng || *f == 'p' ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
            /* digits depend on the value: explored one by one */
            v = (unsigned long)vp_conc_((long)v);
            do { int g = (int)(v % base); d[k++] = (char)(g < 10 ? '0' + g : (*f == 'X' ? 'A' : 'a') + g - 10); v /= base; } while (v);
            while (k < prec && k < 20) d[k++] = '0';
            if ((neg || plus) && zero) OUT(neg ? '-' : '+');
            if ((neg || plus) && !zero) d[k++] = neg ? '-' : '+';
            if (!left) { int w = k + (zero && (neg || plus)); for (; w < width; w++) OUT(zero ? '0' : ' '); }
            { int w = k; while (k > 0) { --k; OUT(d[k]); } if (left) for (; w < width; w++) OUT(' '); }
            break;
        }
        case 'n': *va_arg(ap, int *) = (int)pos; break;
        default: vp_bound_(0, "printf conversion not modelled"); break;
        }
    }
    if (n > 0) out[pos < n ? pos : n - 1] = 0;
    return (int)pos;
}
int vsprintf(char *out, const char *f, va_list ap) { return vsnprintf(out, (size_t)1 << 30, f, ap); }
int sprintf(char *out, const char *f, ...)
{
    va_list ap; int r;
    va_start(ap, f); r = vsprintf(out, f, ap); va_end(ap);
    return r;
}
int snprintf(char *out, size_t n, const char *f, ...)
{
    va_list ap; int r;
    va_start(ap, f); r = vsnprintf(out, n, f, ap); va_end(ap);
    return r;
}
int printf(const char *f, ...) { return 0; }
int fprintf(FILE *o, const char *f, ...) { return 0; }
int vfprintf(FILE *o, const char *f, va_list ap) { return 0; }
int puts(const char *s) { return 0; }
int fputs(const char *s, FILE *o) { return 0; }
int fflush(FILE *o) { return 0; }
void setlinebuf(FILE *o) { }
/* ---- less usual functions, so that a rewritten body stays encodable ---- */
int isblank(int c) { return (c == ' ') | (c == 9); }
int isascii(int c) { return (unsigned)c < 128; }
int toascii(int c) { return c & 127; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
unsigned long long strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
void *rawmemchr(const void *s, int c) { const unsigned char *p = s; while (*p != (unsigned char)c) p++; return (void *)p; }
void *memccpy(void *d, const void *s, int c, size_t n)
{
    char *o = d; const char *p = s;
    while (n--) { if ((*o++ = *p++) == (char)c) return o; }
    return 0;
}
void *memmem(const void *h, size_t hl, const void *n, size_t nl)
{
    const char *p = h;
    for (; hl >= nl; hl--, p++) if (!memcmp(p, n, nl)) return (void *)p;
    return 0;
}
char *stpncpy(char *d, const char *s, size_t n)
{
    size_t i = 0; char *e;
    while (i < n && s[i]) { d[i] = s[i]; i++; }
    e = d + i;
    while (i < n) d[i++] = 0;
    return e;
}
void *realloc(void *, size_t);
void *reallocarray(void *p, size_t n, size_t k) { return realloc(p, n * k); }
int vasprintf(char **o, const char *f, va_list ap)
{
    va_list c; int l;
    va_copy(c, ap); l = vsnprintf(0, 0, f, c); va_end(c);
    *o = malloc((size_t)l + 1);
    return vsnprintf(*o, (size_t)l + 1, f, ap);
}
int asprintf(char **o, const char *f, ...)
{
    va_list ap; int r;
    va_start(ap, f); r = vasprintf(o, f, ap); va_end(ap);
    return r;
}
/* %d %u %ld %s %c %[...] and %n, with widths and * */
int vsscanf(const char *s, const char *f, va_list ap)
{
    const char *b = s; int n = 0;
    for (; *f; f++) {
        int w = 0, skip = 0, lng = 0, inv = 0; const char *set = 0, *se = 0, *e;
        if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
        if (*f != '%') { if (*s != *f) break; s++; continue; }
        f++;
        if (*f == '*') { skip = 1; f++; }
        while (isdigit((unsigned char)*f)) w = w * 10 + (*f++ - '0');
        while (*f == 'l' || *f == 'z' || *f == 'h') { if (*f == 'h') lng--; else lng++; f++; }
        if (*f == '[') {
            f++; if (*f == '^') { inv = 1; f++; }
            set = f; if (*f == ']') f++;
            while (*f != ']') f++;
            se = f;
        } else if (*f != 'c' && *f != 'n') while (isspace((unsigned char)*s)) s++;
        if (*f == 'n') { if (!skip) *va_arg(ap, int *) = (int)(s - b); continue; }
        if (*f == '%') { if (*s != '%') break; s++; continue; }
        if (!*s) { if (!n) n = -1; break; }
        if (*f == 'd' || *f == 'u' || *f == 'i') {
            long v = tol(s, &e);
            vp_bound_(!w && lng >= 0, "sscanf conversion not modelled");
            if (e == s) break;
            s = e;
            if (!skip) { if (lng) *va_arg(ap, long *) = v; else *va_arg(ap, int *) = (int)v; n++; }
        } else if (*f == 's' || *f == 'c' || set) {
            char *o = skip ? 0 : va_arg(ap, char *); int k = 0;
            if (*f == 'c' && !w) w = 1;
            while (*s && (!w || k < w)) {
                if (*f == 's' && isspace((unsigned char)*s)) break;
                if (set) { const char *q; int hit = 0; for (q = set; q < se; q++) { if (q + 2 < se && q[1] == '-') { if (*s >= *q && *s <= q[2]) hit = 1; q += 2; } else if (*q == *s) hit = 1; } if (hit == inv) break; }
                if (o) o[k] = *s;
                k++; s++;
            }
            if (!k) break;
            if (o) { if (*f != 'c') o[k] = 0; n++; }
        } else { vp_bound_(0, "sscanf conversion not modelled"); break; }
    }
    return n;
}
int sscanf(const char *s, const char *f, ...)
{
    va_list ap; int r;
    va_start(ap, f); r = vsscanf(s, f, ap); va_end(ap);
    return r;
}
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf(s, f, ap); va_end(ap); return r; }
long __isoc23_strtol(const char *s, char **e, int base) { return strtol(s, e, base); }
unsigned long __isoc23_strtoul(const char *s, char **e, int base) { return strtoul(s, e, base); }
long long __isoc23_strtoll(const char *s, char **e, int base) { return strtoll(s, e, base); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int base) { return strtoull(s, e, base); }
void qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *))
{
    size_t i, j, k; char *p = b, t;
    for (i = 1; i < n; i++)
        for (j = i; j > 0 && c(p + (j - 1) * w, p + j * w) > 0; j--)
            for (k = 0; k < w; k++) { t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; }
}
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*c)(const void *, const void *))
{
    size_t lo = 0, hi = n;
    while (lo < hi) { size_t m = lo + (hi - lo) / 2; int r = c(k, (const char *)b + m * w); if (!r) return (char *)b + m * w; if (r < 0) hi = m; else lo = m + 1; }
    return 0;
}
int fputc(int c, FILE *o) { return c; }
int putc(int c, FILE *o) { return c; }
int putchar(int c) { return c; }
char *getenv(const char *s) { return 0; }
double floor(double d) { long v = (long)d; return (double)(v > d ? v - 1 : v); }
double ceil(double d) { long v = (long)d; return (double)(v < d ? v + 1 : v); }
