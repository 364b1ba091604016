// C library models (see rt.cpp)
typedef __SIZE_TYPE__ size_t;
void *malloc(size_t);
void *memcpy(void *, const void *, size_t);
int isalnum(int); int isspace(int); int tolower(int); int toupper(int);
// ------------------------------------------------------------------ C strings
#define NB __attribute__((no_builtin))
NB size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
NB size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
NB int strcmp(const char *a, const char *b) {
    while (*a && *a == *b) a++, b++;
    return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
NB int strncmp(const char *a, const char *b, size_t n) {
    while (n && *a && *a == *b) a++, b++, n--;
    return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0;
}
static inline int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
NB int strcasecmp(const char *a, const char *b) {
    while (*a && lc((unsigned char)*a) == lc((unsigned char)*b)) a++, b++;
    return lc((unsigned char)*a) - lc((unsigned char)*b);
}
NB int strncasecmp(const char *a, const char *b, size_t n) {
    while (n && *a && lc((unsigned char)*a) == lc((unsigned char)*b)) a++, b++, n--;
    return n ? lc((unsigned char)*a) - lc((unsigned char)*b) : 0;
}
NB int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    int r = 0;
    for (size_t i = n; i-- > 0;) {
        int d = (int)x[i] - (int)y[i];
        int m = -(int)(d != 0);
        r = (d & m) | (r & ~m);
    }
    return r;
}
NB int bcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    int r = 0;
    for (size_t i = 0; i < n; i++) r |= x[i] ^ y[i];
    return r;
}
NB void *memchr(const void *s, int c, size_t n) {
    const unsigned char *x = (const unsigned char *)s;
    for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i);
    return ((void*)0);
}
NB char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
NB char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
NB char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
NB char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
NB char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return ((void*)0); } }
NB char *strrchr(const char *s, int c) { const char *r = ((void*)0); for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
NB char *strstr(const char *h, const char *n) {
    size_t l = strlen(n);
    for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return ((void*)0); }
}
NB char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); if (p) memcpy(p, s, n); return p; }
NB int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
NB int isdigit(int c) { return (c >= '0') & (c <= '9'); }
NB int isalpha(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
NB int isblank(int c) { return (c == ' ') | (c == '\t'); }
NB int isalnum(int c) { return isalpha(c) | isdigit(c); }
NB int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
NB int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
NB long strtol(const char *s, char **e, int base) {
    while (isspace(*s)) s++;
    int ng = 0;
    if (*s == '-') { ng = 1; s++; } else if (*s == '+') s++;
    unsigned long v = 0;
    while (*s >= '0' && *s <= '9') { v = v * 10 + (*s - '0'); s++; }
    if (e) *e = (char *)s;
    return ng ? -(long)v : (long)v;
}
NB int atoi(const char *s) { return (int)strtol(s, ((void*)0), 10); }
static int errno_v;
NB int *__errno_location() { return &errno_v; }
static unsigned short ctab_[384];
static const unsigned short *ctabp_ = ((void*)0);
NB const unsigned short **__ctype_b_loc() {
    if (!ctabp_) {
        for (int c = 0; c < 128; c++) {
            unsigned short f = 0;
            if (c >= 'A' && c <= 'Z') f |= 0x100 | 0x400;
            if (c >= 'a' && c <= 'z') f |= 0x200 | 0x400;
            if (c >= '0' && c <= '9') f |= 0x800 | 0x1000;
            if ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) f |= 0x1000;
            if (c == ' ' || (c >= 9 && c <= 13)) f |= 0x2000;
            if (c > 32 && c < 127) f |= 0x8000;
            if (c >= 32 && c < 127) f |= 0x4000;
            if (c == ' ' || c == '\t') f |= 1;
            if (c < 32 || c == 127) f |= 2;
            if (c > 32 && c < 127 && !isalnum(c)) f |= 4;
            if (isalnum(c)) f |= 8;
            ctab_[128 + c] = f;
        }
        ctabp_ = ctab_ + 128;
    }
    return &ctabp_;
}
static int tlo_[384], tup_[384];
static const int *tlop_ = ((void*)0), *tupp_ = ((void*)0);
NB const int **__ctype_tolower_loc() { if (!tlop_) { for (int c = -128; c < 256; c++) tlo_[c + 128] = tolower(c); tlop_ = tlo_ + 128; } return &tlop_; }
NB const int **__ctype_toupper_loc() { if (!tupp_) { for (int c = -128; c < 256; c++) tup_[c + 128] = toupper(c); tupp_ = tup_ + 128; } return &tupp_; }
NB void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    char *p = (char *)b;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--)
            for (size_t k = 0; k < sz; k++) { char t = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = p[j * sz + k]; p[j * sz + k] = t; }
}
