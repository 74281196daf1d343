// File contents as an array of (symbolic) bytes. The encoding build replaces the
// stream and stdio classes by models reading that array; the native replay writes
// the array to a memory file and uses the real library.
#pragma once
#include "sx_pre.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <string>
#include <limits>
#include <fstream>
#include <sstream>
#include <vector>
static char sx_fd[8192]; static size_t sx_fl; static bool sx_fx = true; // bytes, length, the file exists
static inline void f_c(char c) { sx_fd[sx_fl++] = c; }
static inline void f_s(const char *s) { while (*s) f_c(*s++); }
static inline void f_n(long v) { char b[24]; int k = 0; if (v < 0) { f_c('-'); v = -v; } do { b[k++] = '0' + v % 10; v /= 10; } while (v); while (k) f_c(b[--k]); }
template<class X> static inline void f_b(X v) { char b[sizeof(X)]; memcpy(b, &v, sizeof(X)); for (size_t i = 0; i < sizeof(X); i++) f_c(b[i]); }
#ifndef SX_ENCODE
#include <unistd.h>
#include <sys/mman.h>
static inline std::string f_name() {
    if (!sx_fx) return "/nonexistent/m";
    int fd = memfd_create("sx", 0); if (fd < 0 || write(fd, sx_fd, sx_fl) != (ssize_t) sx_fl) abort();
    return "/proc/self/fd/" + std::to_string(fd);
}
static inline void f_done(const std::string &) {}
#else
static inline std::string f_name() { return std::string("m"); }
static inline void f_done(const std::string &) {}
static inline bool sx_sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static inline bool sx_dg(char c) { return c >= '0' && c <= '9'; }
struct sx_num { bool ok; bool ovf; bool neg; unsigned long long v; const char *e; };
static inline int sx_dv(char c, int base) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; return d < base ? d : -1; }
static sx_num sx_parse(const char *p, int base = 10) {
    sx_num r{false, false, false, 0, p}; if (*p == '+' || *p == '-') { r.neg = *p == '-'; p++; }
    if (base == 10) { while (sx_dg(*p)) { unsigned d = *p - '0'; if (r.v > (~0ull - d) / 10) r.ovf = true; r.v = r.v * 10 + d; r.ok = true; p++; } if (r.ok) r.e = p; return r; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && sx_dv(p[2], 16) >= 0) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    while (sx_dv(*p, base) >= 0) { unsigned d = sx_dv(*p, base); if (r.v > (~0ull - d) / base) r.ovf = true; r.v = r.v * base + d; r.ok = true; p++; }
    if (r.ok) r.e = p; return r;
}
#undef strchr
#undef strrchr
#undef strstr
extern "C" {
size_t strlen(const char *s) noexcept { size_t k = 0; while (s[k]) k++; return k; }
int strcmp(const char *a, const char *b) noexcept { while (*a && *a == *b) { a++; b++; } return (unsigned char) *a - (unsigned char) *b; }
int strncmp(const char *a, const char *b, size_t n) noexcept { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char) *a - (unsigned char) *b; if (!*a) break; } return 0; }
static char *sx_strstr(const char *h, const char *n) { for (;; h++) { size_t k = 0; while (n[k] && h[k] == n[k]) k++; if (!n[k]) return (char *) h; if (!*h) return nullptr; } }
static char *sx_strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return nullptr; } }
static char *sx_strrchr(const char *s, int c) { char *r = nullptr; for (;; s++) { if (*s == (char) c) r = (char *) s; if (!*s) return r; } }
static void *sx_memchr(const void *s, int c, size_t n) { const char *p = (const char *) s; for (; n; n--, p++) if (*p == (char) c) return (void *) p; return nullptr; }
extern "C" void *sx_memchr_c(const void *s, int c, size_t n) __asm__("memchr"); extern "C" void *sx_memchr_c(const void *s, int c, size_t n) { return sx_memchr(s, c, n); }
int memcmp(const void *a0, const void *b0, size_t n) noexcept { const unsigned char *a = (const unsigned char *) a0, *b = (const unsigned char *) b0; for (; n; n--, a++, b++) if (*a != *b) return *a - *b; return 0; }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
long long strtoll(const char *s, char **e, int b) noexcept {
    const char *p = s; while (sx_sp(*p)) p++; sx_num r = sx_parse(p, b); if (e) *e = (char *) (r.ok ? r.e : s);
    if (r.neg) return r.ovf || r.v > 1ull << 63 ? (long long) (1ull << 63) : (long long) -r.v; return r.ovf || r.v >> 63 ? (long long) (~0ull >> 1) : (long long) r.v;
}
long strtol(const char *s, char **e, int b) noexcept { return strtoll(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) noexcept { const char *p = s; while (sx_sp(*p)) p++; sx_num r = sx_parse(p, b); if (e) *e = (char *) (r.ok ? r.e : s); return r.ovf ? ~0ul : r.neg ? -r.v : r.v; }
unsigned long long strtoull(const char *s, char **e, int b) noexcept { return strtoul(s, e, b); }
int atoi(const char *s) noexcept { return (int) strtoll(s, nullptr, 10); }
long atol(const char *s) noexcept { return strtoll(s, nullptr, 10); }
long long atoll(const char *s) noexcept { return strtoll(s, nullptr, 10); }
// decimal numbers (no inf, nan, hexadecimal)
double strtod(const char *s, char **e) noexcept {
    const char *p = s; while (sx_sp(*p)) p++; bool neg = false, ok = false; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
    unsigned long long m = 0; int sc = 0;
    while (sx_dg(*p)) { m = m * 10 + (*p - '0'); ok = true; p++; }
    if (*p == '.') { p++; while (sx_dg(*p)) { m = m * 10 + (*p - '0'); sc--; ok = true; p++; } }
    if (!ok) { if (e) *e = (char *) s; return 0.0; }
    if (*p == 'e' || *p == 'E') { const char *q = p + 1; bool en = false; if (*q == '+' || *q == '-') { en = *q == '-'; q++; } if (sx_dg(*q)) { int x = 0; while (sx_dg(*q)) { if (x < 1000) x = x * 10 + (*q - '0'); q++; } sc += en ? -x : x; p = q; } }
    double v = (double) m, t = 1; for (int i = sc < 0 ? -sc : sc; i > 0; i--) t *= 10; v = sc < 0 ? v / t : v * t;
    if (e) *e = (char *) p; return neg ? -v : v;
}
float strtof(const char *s, char **e) noexcept { return (float) strtod(s, e); }
double atof(const char *s) noexcept { return strtod(s, nullptr); }
// stdio
struct sx_FILE { size_t pos; bool eof; };
FILE *fopen(const char *, const char *) { if (!sx_fx) return nullptr; sx_FILE *f = (sx_FILE *) malloc(sizeof(sx_FILE)); f->pos = 0; f->eof = false; return (FILE *) f; }
int fclose(FILE *f) { free(f); return 0; }
int fgetc(FILE *f0) { sx_FILE *f = (sx_FILE *) f0; if (f->pos >= sx_fl) { f->eof = true; return EOF; } return (unsigned char) sx_fd[f->pos++]; }
int feof(FILE *f) noexcept { return ((sx_FILE *) f)->eof; }
int ferror(FILE *) noexcept { return 0; }
void rewind(FILE *f) { ((sx_FILE *) f)->pos = 0; ((sx_FILE *) f)->eof = false; }
char *fgets(char *s, int n, FILE *f) { int k = 0; while (k + 1 < n) { int c = fgetc(f); if (c == EOF) break; s[k++] = c; if (c == '\n') break; } if (!k) return nullptr; s[k] = 0; return s; }
ssize_t getline(char **l, size_t *n, FILE *f) {
    size_t k = 0; if (!*l) { *n = 120; *l = (char *) malloc(*n); }
    for (;;) { int c = fgetc(f); if (c == EOF) break; if (k + 2 > *n) { size_t m = 2 * *n; char *q = (char *) malloc(m); for (size_t i = 0; i < k; i++) q[i] = (*l)[i]; free(*l); *l = q; *n = m; } (*l)[k++] = c; if (c == '\n') break; }
    if (!k) return -1; (*l)[k] = 0; return k;
}
size_t fread(void *p, size_t sz, size_t n, FILE *f0) {
    sx_FILE *f = (sx_FILE *) f0; size_t k = 0; if (!sz) return 0;
    for (; k < n; k++) { if (f->pos + sz > sx_fl) { f->pos = sx_fl; f->eof = true; break; } memcpy((char *) p + k * sz, sx_fd + f->pos, sz); f->pos += sz; }
    return k;
}
}
static const char *sx_scan1(const char *s, const char *&f, bool &ok) { return s; }
template<class X> static void sx_store(X *p, const sx_num &r) { *p = (X) (r.neg ? -(long long) r.v : (long long) r.v); }
static int sx_sscanf(const char *, const char *) { return 0; }
template<class X, class... R> static int sx_sscanf(const char *s, const char *f, X *x, R *...r) {
    while (*s && sx_sp(*s)) s++; while (*f && *f != '%') f++;
    if (!*s) return EOF;
    const char *e;
    if constexpr (std::is_floating_point<X>::value) { char *q; double v = strtod(s, &q); if (q == s) return 0; *x = (X) v; e = q; }
    else { sx_num n = sx_parse(s); if (!n.ok) return 0; sx_store(x, n); e = n.e; }
    if (*f) f++; int k = sizeof...(R) ? sx_sscanf(e, f, r...) : 0; return 1 + (k < 0 ? 0 : k);
}
#define sscanf sx_sscanf
#define strstr sx_strstr
#define strchr sx_strchr
#define strrchr sx_strrchr
// iostreams reading the bytes d[0..n)
namespace std {
struct sx_istream {
    const char *d; size_t n, pos = 0, gc = 0; bool E = false, F = false, B = false;
    bool good() const { return !E && !F && !B; } bool eof() const { return E; } bool fail() const { return F || B; } bool bad() const { return B; }
    explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
    void clear() { E = F = B = false; } size_t gcount() const { return gc; }
    bool sentry(bool ws) { if (!good()) { F = true; return false; } if (ws) { while (pos < n && sx_sp(d[pos])) pos++; if (pos >= n) { E = F = true; return false; } } return true; }
    int get() { gc = 0; if (!sentry(false)) return EOF; if (pos >= n) { E = F = true; return EOF; } gc = 1; return (unsigned char) d[pos++]; }
    sx_istream &get(char &c) { int x = get(); if (x != EOF) c = (char) x; return *this; }
    int peek() { gc = 0; if (!sentry(false)) return EOF; if (pos >= n) { E = true; return EOF; } return (unsigned char) d[pos]; }
    sx_istream &unget() { gc = 0; E = false; if (sentry(false)) { if (pos) pos--; else B = true; } return *this; }
    sx_istream &putback(char) { return unget(); }
    sx_istream &ignore(long k = 1, int dl = EOF) { if (sentry(false)) while (k-- > 0) { if (pos >= n) { E = true; break; } if ((unsigned char) d[pos++] == dl) break; } return *this; }
    sx_istream &getline(char *s, long m, char dl = '\n') {
        gc = 0; long k = 0;
        if (sentry(false)) { for (;;) { if (pos >= n) { E = true; break; } if (d[pos] == dl) { pos++; gc++; break; } if (k + 1 >= m) { F = true; break; } s[k++] = d[pos++]; gc++; } if (!gc) F = true; }
        if (m > 0) s[k] = 0; return *this;
    }
    template<class X> sx_istream &num(X &x) {
        if (!sentry(true)) return *this;
        size_t p = pos; bool neg = false, ok = false, ovf = false; unsigned long long v = 0; if (d[p] == '+' || d[p] == '-') { neg = d[p] == '-'; p++; }
        while (p < n && sx_dg(d[p])) { unsigned q = d[p] - '0'; if (v > (~0ull - q) / 10) ovf = true; v = v * 10 + q; ok = true; p++; }
        pos = p; if (p >= n) E = true;
        if (!ok) { x = 0; F = true; return *this; }
        unsigned long long mx = (unsigned long long) numeric_limits<X>::max();
        if (numeric_limits<X>::is_signed) { if (neg ? ovf || v > mx + 1 : ovf || v > mx) { x = neg ? numeric_limits<X>::min() : numeric_limits<X>::max(); F = true; } else x = (X) (neg ? -(long long) v : (long long) v); }
        else { if (ovf || v > mx) { x = numeric_limits<X>::max(); F = true; } else x = (X) (neg ? 0 - v : v); }
        return *this;
    }
    sx_istream &fl(double &x) {
        if (!sentry(true)) return *this;
        char b[64]; int k = 0; size_t p = pos; while (p < n && k < 63 && (sx_dg(d[p]) || d[p] == '+' || d[p] == '-' || d[p] == '.' || d[p] == 'e' || d[p] == 'E')) b[k++] = d[p++]; b[k] = 0; pos = p; if (p >= n) E = true;
        char *q; double v = strtod(b, &q); if (q == b || *q) { x = 0; F = true; } else x = v; return *this;
    }
    sx_istream &operator>>(int &x) { return num(x); } sx_istream &operator>>(unsigned &x) { return num(x); } sx_istream &operator>>(long &x) { return num(x); } sx_istream &operator>>(unsigned long &x) { return num(x); }
    sx_istream &operator>>(long long &x) { return num(x); } sx_istream &operator>>(unsigned long long &x) { return num(x); } sx_istream &operator>>(short &x) { return num(x); } sx_istream &operator>>(unsigned short &x) { return num(x); }
    sx_istream &operator>>(double &x) { return fl(x); } sx_istream &operator>>(float &x) { double v = x; fl(v); x = (float) v; return *this; }
    sx_istream &operator>>(char &c) { if (sentry(true)) c = d[pos++]; return *this; }
    sx_istream &operator>>(string &s) { if (sentry(true)) { s.clear(); while (pos < n && !sx_sp(d[pos])) s.push_back(d[pos++]); if (pos >= n) E = true; } return *this; }
    sx_istream &seekg(long p) { E = false; if (!fail()) pos = p; return *this; } long tellg() { return fail() ? -1 : (long) pos; }
};
inline sx_istream &getline(sx_istream &is, string &s, char dl = '\n') {
    if (!is.sentry(false)) return is;
    s.clear(); bool any = false; for (;;) { if (is.pos >= is.n) { is.E = true; break; } char c = is.d[is.pos++]; any = true; if (c == dl) break; s.push_back(c); } if (!any) is.F = true; return is;
}
struct sx_ifstream : sx_istream {
    bool op = false; sx_ifstream() { d = sx_fd; n = 0; } sx_ifstream(const char *p, int = 0) { open(p); } sx_ifstream(const string &p, int = 0) { open(p.c_str()); }
    void open(const char *) { d = sx_fd; if (sx_fx) { op = true; n = sx_fl; } else { n = 0; F = true; } } void open(const string &p) { open(p.c_str()); } bool is_open() const { return op; } void close() { op = false; }
};
struct sx_stringstream : sx_istream {
    string own; sx_stringstream() { d = own.data(); n = 0; } sx_stringstream(const string &s) : own(s) { d = own.data(); n = own.size(); } sx_stringstream(const char *s) : own(s) { d = own.data(); n = own.size(); }
    sx_stringstream(const sx_stringstream &) = delete; void str(const string &s) { own = s; d = own.data(); n = own.size(); pos = 0; } string str() const { return own; }
    template<class X> sx_stringstream &operator<<(const X &) { return *this; }
};
}
#define ifstream sx_ifstream
#define stringstream sx_stringstream
#define istringstream sx_stringstream
#endif
