/* The few services the monitors need, on the bare Linux system call interface, for programs with 32-bit long, sizes and
   pointers (the sandbox has no 32-bit libc). */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
typedef struct _IO_FILE { int fd; size_t n; char buf[1 << 15]; } FILE;

static long sys(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    long args[7] = {a, b, c, d, e, f, n};
    __asm__ volatile("pushl %%ebx; pushl %%esi; pushl %%edi; pushl %%ebp;"
                     "movl %1, %%eax;"
                     "movl 0(%%eax), %%ebx; movl 4(%%eax), %%ecx; movl 8(%%eax), %%edx; movl 12(%%eax), %%esi; movl 16(%%eax), %%edi;"
                     "movl 20(%%eax), %%ebp; movl 24(%%eax), %%eax; int $0x80;"
                     "popl %%ebp; popl %%edi; popl %%esi; popl %%ebx"
                     : "=a"(r)
                     : "a"(args)
                     : "ecx", "edx", "memory");
    return r;
}
#define SYS(n, a, b, c) sys(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)

/* ---- memory and strings ---- */
void *memset(void *p, int c, size_t n) {
    void *d = p;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return p;
}
void *memcpy(void *restrict p, const void *restrict q, size_t n) {
    void *d = p;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(q), "+c"(n) : : "memory");
    return p;
}
void *memmove(void *p, const void *q, size_t n) {
    if ((uintptr_t)p - (uintptr_t)q >= n)
        return memcpy(p, q, n);
    uint8_t       *d = (uint8_t *)p + n;
    const uint8_t *s = (const uint8_t *)q + n;
    while (n--) {
        *--d = *--s;
        __asm__ volatile("" ::: "memory");
    }
    return p;
}
int memcmp(const void *p, const void *q, size_t n) {
    const uint8_t *a = p, *b = q;
    for (; n >= 4 && *(const uint32_t __attribute__((aligned(1), may_alias)) *)a == *(const uint32_t __attribute__((aligned(1), may_alias)) *)b; n -= 4)
        a += 4, b += 4;
    for (; n; n--, a++, b++)
        if (*a != *b)
            return *a - *b;
    return 0;
}
int    bcmp(const void *p, const void *q, size_t n) { return memcmp(p, q, n); }
size_t strlen(const char *s) {
    size_t n = 0;
    while (s[n]) {
        n++;
        __asm__ volatile("");
    }
    return n;
}
int strncmp(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++)
        if (*a != *b || !*a)
            return (uint8_t)*a - (uint8_t)*b;
    return 0;
}
int   strcmp(const char *a, const char *b) { return strncmp(a, b, (size_t)-1); }
char *strchr(const char *s, int c) {
    for (;; s++) {
        if (*s == (char)c)
            return (char *)s;
        if (!*s)
            return NULL;
    }
}
char *strcpy(char *d, const char *s) { return memcpy(d, s, strlen(s) + 1); }
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; i++)
        d[i] = s[i];
    for (; i < n; i++)
        d[i] = 0;
    return d;
}
char *strcat(char *d, const char *s) {
    strcpy(d + strlen(d), s);
    return d;
}
char *strstr(const char *h, const char *n) {
    for (size_t l = strlen(n);; h++) {
        if (!strncmp(h, n, l))
            return (char *)h;
        if (!*h)
            return NULL;
    }
}
void *memchr(const void *p, int c, size_t n) {
    for (const uint8_t *s = p; n; n--, s++)
        if (*s == (uint8_t)c)
            return (void *)s;
    return NULL;
}
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }

/* ---- numbers ---- */
unsigned long long strtoull(const char *s, char **end, int base) {
    unsigned long long v = 0;
    int                neg = 0;
    while (*s == ' ' || *s == '\t')
        s++;
    if (*s == '-' || *s == '+')
        neg = *s++ == '-';
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] | 32) == 'x')
        s += 2, base = 16;
    else if (base == 0)
        base = *s == '0' ? 8 : 10;
    for (;; s++) {
        int d = *s >= '0' && *s <= '9' ? *s - '0' : (*s | 32) >= 'a' && (*s | 32) <= 'z' ? (*s | 32) - 'a' + 10 : 99;
        if (d >= base)
            break;
        v = v * (unsigned)base + (unsigned)d;
    }
    if (end)
        *end = (char *)s;
    return neg ? -v : v;
}
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
unsigned long      strtoul(const char *s, char **e, int b) { return (unsigned long)strtoull(s, e, b); }
unsigned long      __isoc23_strtoul(const char *s, char **e, int b) { return (unsigned long)strtoull(s, e, b); }
long               strtol(const char *s, char **e, int b) { return (long)strtoull(s, e, b); }
long               __isoc23_strtol(const char *s, char **e, int b) { return (long)strtoull(s, e, b); }
long long          strtoll(const char *s, char **e, int b) { return (long long)strtoull(s, e, b); }
long long          __isoc23_strtoll(const char *s, char **e, int b) { return (long long)strtoull(s, e, b); }
int                atoi(const char *s) { return (int)strtoull(s, NULL, 10); }
long               atol(const char *s) { return (long)strtoull(s, NULL, 10); }
double fabs(double x) { return __builtin_fabs(x); }
float  fabsf(float x) { return __builtin_fabsf(x); }
long double fabsl(long double x) { return __builtin_fabsl(x); }
double floor(double x) {
    if (!(fabs(x) < 4503599627370496.0))
        return x;
    double t = (double)(long long)x;
    return t > x ? t - 1 : t;
}
double ceil(double x) { return -floor(-x); }
double trunc(double x) { return x < 0 ? ceil(x) : floor(x); }
double round(double x) { return x < 0 ? -floor(-x + 0.5) : floor(x + 0.5); }
long   lround(double x) { return (long)round(x); }
float  floorf(float x) { return (float)floor(x); }
float  roundf(float x) { return (float)round(x); }
double nextafter(double x, double y) {
    union { double d; int64_t i; } u = {x};
    if (x != x || y != y)
        return x + y;
    if (x == y)
        return y;
    if (x == 0) {
        u.i = 1;
        return y > 0 ? u.d : -u.d;
    }
    u.i += (x < y) == (x > 0) ? 1 : -1;
    return u.d;
}
float nextafterf(float x, float y) {
    union { float d; int32_t i; } u = {x};
    if (x != x || y != y)
        return x + y;
    if (x == y)
        return y;
    if (x == 0) {
        u.i = 1;
        return y > 0 ? u.d : -u.d;
    }
    u.i += (x < y) == (x > 0) ? 1 : -1;
    return u.d;
}
double fmod(double x, double y) {
    long double r;
    __asm__("1: fprem; fnstsw %%ax; testb $4, %%ah; jnz 1b" : "=t"(r) : "0"((long double)x), "u"((long double)y) : "ax");
    return (double)r;
}
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    uint8_t *b = base, tmp[64];
    for (size_t gap = n / 2; gap; gap /= 2)
        for (size_t i = gap; i < n; i++)
            for (size_t j = i; j >= gap && cmp(b + (j - gap) * sz, b + j * sz) > 0; j -= gap) {
                memcpy(tmp, b + j * sz, sz);
                memcpy(b + j * sz, b + (j - gap) * sz, sz);
                memcpy(b + (j - gap) * sz, tmp, sz);
            }
}

/* ---- system calls ---- */
void _exit(int c) {
    for (;;)
        SYS(252, c, 0, 0);
}
long write(int fd, const void *p, size_t n) { return SYS(4, fd, p, n); }
int  open(const char *p, int fl, ...) {
    va_list a;
    va_start(a, fl);
    int mode = va_arg(a, int);
    va_end(a);
    return (int)SYS(5, p, fl, mode);
}
int   close(int fd) { return (int)SYS(6, fd, 0, 0); }
int   ftruncate(int fd, long n) { return (int)SYS(93, fd, n, 0); }
void *mmap(void *p, size_t n, int prot, int fl, int fd, long off) { return (void *)sys(192, (long)p, (long)n, prot, fl, fd, off >> 12); }
int   munmap(void *p, size_t n) { return (int)SYS(91, p, n, 0); }
long  time(long *t) {
    long r = SYS(13, 0, 0, 0);
    if (t)
        *t = r;
    return r;
}
int setitimer(int w, const void *n, void *o) { return (int)SYS(104, w, n, o); }
__asm__(".text\nmon32_restore:\n movl $173, %eax\n int $0x80\n");
extern char mon32_restore[];
struct ksig { void *handler; unsigned long flags; void *restorer; uint32_t mask[2]; };
/* the layout of glibc's struct sigaction */
struct usig { void *handler; uint32_t mask[32]; int flags; void *restorer; };
int sigaction(int s, const struct usig *n, struct usig *o) {
    struct ksig k = {n ? n->handler : 0, (n ? (unsigned long)n->flags : 0) | 0x04000004ul, mon32_restore, {0, 0}};
    (void)o;
    return (int)sys(174, s, n ? (long)&k : 0, 0, 8, 0, 0);
}
void abort(void) {
    SYS(37, SYS(20, 0, 0, 0), 6, 0);
    _exit(134);
}
char *getenv(const char *n) { return (void)n, (char *)NULL; }
__asm__(".text\n.globl _setjmp\n.globl setjmp\n.globl __sigsetjmp\n_setjmp:\nsetjmp:\n__sigsetjmp:\n"
        " movl 4(%esp), %eax\n movl %ebx, 0(%eax)\n movl %esi, 4(%eax)\n movl %edi, 8(%eax)\n movl %ebp, 12(%eax)\n"
        " leal 4(%esp), %ecx\n movl %ecx, 16(%eax)\n movl (%esp), %ecx\n movl %ecx, 20(%eax)\n xorl %eax, %eax\n ret\n"
        ".globl longjmp\n.globl _longjmp\nlongjmp:\n_longjmp:\n"
        " movl 4(%esp), %edx\n movl 8(%esp), %eax\n testl %eax, %eax\n jnz 1f\n incl %eax\n1:\n"
        " movl 0(%edx), %ebx\n movl 4(%edx), %esi\n movl 8(%edx), %edi\n movl 12(%edx), %ebp\n movl 16(%edx), %esp\n jmp *20(%edx)\n");

/* ---- allocation: power-of-two classes over a growing arena, large blocks mapped on their own ---- */
typedef struct blk { size_t cls, n; struct blk *next; uint32_t pad; } blk; /* 16 bytes */
static blk   *freel[32];
static char  *arena, *arena_end;
void *malloc(size_t n) {
    if (n > 0x70000000u)
        return NULL;
    size_t tot = n + sizeof(blk), c = 5;
    while (((size_t)1 << c) < tot)
        c++;
    blk *b;
    if (c >= 19) {
        tot = (tot + 4095) & ~(size_t)4095;
        b   = mmap(NULL, tot, 3, 0x22, -1, 0);
        if ((uintptr_t)b > (uintptr_t)-4096)
            return NULL;
        b->cls = 99, b->n = tot;
        return b + 1;
    }
    if (freel[c]) {
        b        = freel[c];
        freel[c] = b->next;
    } else {
        size_t sz = (size_t)1 << c;
        if ((size_t)(arena_end - arena) < sz) {
            char *m = mmap(NULL, 1 << 22, 3, 0x22, -1, 0);
            if ((uintptr_t)m > (uintptr_t)-4096)
                return NULL;
            arena = m, arena_end = m + (1 << 22);
        }
        b = (blk *)arena;
        arena += sz;
        b->cls = c;
    }
    b->n = n;
    return b + 1;
}
void free(void *p) {
    if (!p)
        return;
    blk *b = (blk *)p - 1;
    if (b->cls == 99) {
        munmap(b, b->n);
        return;
    }
    b->next       = freel[b->cls];
    freel[b->cls] = b;
}
void *calloc(size_t a, size_t b) {
    if (b && a > 0x70000000u / b)
        return NULL;
    void *p = malloc(a * b);
    if (p)
        memset(p, 0, a * b);
    return p;
}
void *realloc(void *p, size_t n) {
    void *q = malloc(n);
    if (p && q) {
        blk   *b = (blk *)p - 1;
        size_t o = b->cls == 99 ? b->n - sizeof(blk) : b->n;
        memcpy(q, p, o < n ? o : n);
        free(p);
    }
    return q;
}

/* ---- formatted output ---- */
typedef struct { char *p; size_t n, cap; FILE *f; } out_t;
static void put_file(FILE *f, char c);
static void put(out_t *o, char c) {
    if (o->f)
        put_file(o->f, c);
    else if (o->n + 1 < o->cap)
        o->p[o->n] = c;
    o->n++;
}
/* the decimal digits of |v| with prec digits after the point, rounded half to even on the exact value */
static size_t fixed(char *d, double v, int prec) {
    union { double d; uint64_t i; } u = {v};
    int      e = (int)(u.i >> 52 & 2047);
    uint64_t m = u.i & ((1ull << 52) - 1);
    static uint32_t x[160]; /* fixed point: 36 words before the point (from word 40 up), the others after it */
    enum { P = 40, N = 80 };
    memset(x, 0, sizeof x);
    if (e)
        m |= 1ull << 52;
    else
        e = 1;
    int at = e - 1075 + 32 * P; /* bit position of m's lowest bit */
    for (int b = 0; b < 64; b++)
        if (m >> b & 1) {
            int q = at + b;
            if (q >= 0)
                x[q / 32] |= 1u << (q % 32);
        }
    char   ip[340];
    size_t ni = 0;
    for (;;) {
        uint64_t r = 0;
        int      any = 0;
        for (int i = N - 1; i >= P; i--) {
            r    = r << 32 | x[i];
            x[i] = (uint32_t)(r / 10);
            r %= 10;
            any |= x[i] != 0;
        }
        ip[ni++] = (char)('0' + r);
        if (!any)
            break;
    }
    size_t n = 0;
    d[n++]   = '0'; /* room for a carry */
    while (ni)
        d[n++] = ip[--ni];
    for (int k = 0; k < prec; k++) {
        uint64_t c = 0;
        for (int i = 0; i < P; i++) {
            c += (uint64_t)x[i] * 10;
            x[i] = (uint32_t)c;
            c >>= 32;
        }
        d[n++] = (char)('0' + c);
    }
    uint32_t top = x[P - 1];
    int      rest = (top & 0x7FFFFFFFu) != 0;
    for (int i = 0; i < P - 1; i++)
        rest |= x[i] != 0;
    if (top >> 31 && (rest || (d[n - 1] - '0') % 2))
        for (size_t i = n; i-- > 0;) {
            if (d[i]++ != '9')
                break;
            d[i] = '0';
        }
    return n; /* d[0] is the carry digit; the point stands prec digits before the end */
}
static int vfmt(out_t *o, const char *f, va_list a) {
    for (; *f; f++) {
        if (*f != '%') {
            put(o, *f);
            continue;
        }
        int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, l = 0;
        for (f++;; f++) {
            if (*f == '-') left = 1;
            else if (*f == '0') zero = 1;
            else if (*f == '+') plus = 1;
            else if (*f == ' ') space = 1;
            else if (*f == '#') alt = 1;
            else break;
        }
        if (*f == '*') {
            width = va_arg(a, int), f++;
            if (width < 0)
                left = 1, width = -width;
        } else
            while (*f >= '0' && *f <= '9')
                width = width * 10 + *f++ - '0';
        if (*f == '.') {
            prec = 0;
            f++;
            if (*f == '*')
                prec = va_arg(a, int), f++;
            else
                while (*f >= '0' && *f <= '9')
                    prec = prec * 10 + *f++ - '0';
        }
        for (;; f++) {
            if (*f == 'l') l++;
            else if (*f == 'h') l--;
            else if (*f == 'z' || *f == 't') l = 0;
            else if (*f == 'j' || *f == 'q') l = 2;
            else if (*f == 'L') l = 3;
            else break;
        }
        static char buf[3000];
        char        sign = 0;
        const char *s    = buf;
        size_t      n    = 0;
        char        c    = *f;
        if (c == '%') {
            put(o, '%');
            continue;
        }
        if (c == 'c') {
            buf[0] = (char)va_arg(a, int), n = 1, zero = 0;
        } else if (c == 's') {
            s = va_arg(a, const char *);
            if (!s)
                s = "(null)";
            while ((prec < 0 || n < (size_t)prec) && s[n])
                n++;
            zero = 0;
        } else if (strchr("diuxXop", c)) {
            uint64_t v;
            int      base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : 10;
            if (c == 'd' || c == 'i') {
                int64_t w = l >= 2 ? va_arg(a, long long) : va_arg(a, int);
                w    = l == -1 ? (short)w : l <= -2 ? (signed char)w : w;
                sign = w < 0 ? '-' : plus ? '+' : space ? ' ' : 0;
                v    = w < 0 ? 0 - (uint64_t)w : (uint64_t)w;
            } else {
                v = l >= 2 ? va_arg(a, unsigned long long) : va_arg(a, unsigned);
                v = l == -1 ? (uint16_t)v : l <= -2 ? (uint8_t)v : v;
            }
            char   t[70];
            size_t k = 0;
            uint64_t w = v;
            while (w)
                t[k++] = (c == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[w % (unsigned)base], w /= (unsigned)base;
            while ((int)k < (prec < 0 ? 1 : prec) && k < 69)
                t[k++] = '0';
            if (alt && base == 8 && (!k || t[k - 1] != '0'))
                t[k++] = '0';
            if (c == 'p' || (alt && base == 16 && v))
                buf[n++] = '0', buf[n++] = c == 'X' ? 'X' : 'x';
            while (k)
                buf[n++] = t[--k];
            if (prec >= 0)
                zero = 0;
        } else if (strchr("fFeEgG", c)) {
            double v = l == 3 ? (double)va_arg(a, long double) : va_arg(a, double);
            union { double d; uint64_t i; } u = {v};
            sign = u.i >> 63 ? '-' : plus ? '+' : space ? ' ' : 0;
            if (prec < 0)
                prec = 6;
            if (prec > 1200)
                prec = 1200;
            static char d[2000];
            if (v != v || fabs(v) > 1.7976931348623157e308) {
                s = v != v ? (c < 'a' ? "NAN" : "nan") : c < 'a' ? "INF" : "inf", n = 3, zero = 0;
            } else if ((c | 32) == 'f') {
                size_t m = fixed(d, v, prec), i = d[0] == '0';
                for (; i < m; i++) {
                    if (i == m - (size_t)prec)
                        buf[n++] = '.';
                    buf[n++] = d[i];
                }
                if (!prec && alt)
                    buf[n++] = '.';
            } else { /* %e, %g: from the exact decimal expansion */
                int    sig = (c | 32) == 'e' ? prec + 1 : prec ? prec : 1, ex = 0;
                size_t m = fixed(d, v, 1100), pt = m - 1100, first = 0;
                while (first < m && d[first] == '0')
                    first++;
                char r[1300];
                if (first == m) {
                    memset(r, '0', (size_t)sig);
                } else {
                    ex = (int)pt - 1 - (int)first;
                    int up = 0;
                    size_t last = first + (size_t)sig;
                    if (last < m && d[last] >= '5') {
                        up = d[last] > '5';
                        for (size_t i = last + 1; i < m; i++)
                            up |= d[i] != '0';
                        up |= (d[last - 1] - '0') % 2;
                    }
                    for (int i = 0; i < sig; i++)
                        r[i] = first + (size_t)i < m ? d[first + (size_t)i] : '0';
                    for (int i = sig; up && i-- > 0;) {
                        if (r[i]++ != '9')
                            up = 0;
                        else
                            r[i] = '0';
                    }
                    if (up) {
                        memmove(r + 1, r, (size_t)sig - 1);
                        r[0] = '1', ex++;
                    }
                }
                int efmt = (c | 32) == 'e' || ex < -4 || ex >= sig, nd = sig;
                if ((c | 32) == 'g' && !alt)
                    while (nd > 1 && r[nd - 1] == '0')
                        nd--;
                if (efmt) {
                    buf[n++] = r[0];
                    if (nd > 1)
                        buf[n++] = '.';
                    for (int i = 1; i < nd; i++)
                        buf[n++] = r[i];
                    buf[n++] = c < 'a' ? 'E' : 'e';
                    buf[n++] = ex < 0 ? '-' : '+';
                    int x = ex < 0 ? -ex : ex;
                    if (x >= 100)
                        buf[n++] = (char)('0' + x / 100);
                    buf[n++] = (char)('0' + x / 10 % 10);
                    buf[n++] = (char)('0' + x % 10);
                } else if (ex < 0) {
                    buf[n++] = '0', buf[n++] = '.';
                    for (int i = -1; i > ex; i--)
                        buf[n++] = '0';
                    for (int i = 0; i < nd; i++)
                        buf[n++] = r[i];
                } else
                    for (int i = 0; i < nd || i <= ex; i++) {
                        if (i == ex + 1)
                            buf[n++] = '.';
                        buf[n++] = i < sig ? r[i] : '0';
                    }
            }
        } else {
            put(o, '?');
            continue;
        }
        int pad = width - (int)n - (sign != 0);
        for (; !left && !zero && pad > 0; pad--)
            put(o, ' ');
        if (sign)
            put(o, sign);
        size_t i = 0;
        if (zero && !left && n > 1 && buf == s && s[0] == '0' && (s[1] | 32) == 'x')
            put(o, s[0]), put(o, s[1]), i = 2;
        for (; !left && zero && pad > 0; pad--)
            put(o, '0');
        for (; i < n; i++)
            put(o, s[i]);
        for (; pad > 0; pad--)
            put(o, ' ');
    }
    if (!o->f && o->cap)
        o->p[o->n < o->cap ? o->n : o->cap - 1] = 0;
    return (int)o->n;
}
int vsnprintf(char *p, size_t n, const char *f, va_list a) {
    out_t o = {p, 0, n, NULL};
    return vfmt(&o, f, a);
}
int snprintf(char *p, size_t n, const char *f, ...) {
    va_list a;
    va_start(a, f);
    int r = vsnprintf(p, n, f, a);
    va_end(a);
    return r;
}
int sprintf(char *p, const char *f, ...) {
    va_list a;
    va_start(a, f);
    int r = vsnprintf(p, 0x7FFFFFFF, f, a);
    va_end(a);
    return r;
}
int vsprintf(char *p, const char *f, va_list a) { return vsnprintf(p, 0x7FFFFFFF, f, a); }

/* ---- streams ---- */
static FILE f_out = {1, 0, ""}, f_err = {2, 0, ""};
FILE       *stdout = &f_out, *stderr = &f_err, *stdin = NULL;
int         fflush(FILE *f) {
    if (!f)
        return fflush(stdout) | fflush(stderr);
    for (size_t i = 0; i < f->n;) {
        long w = write(f->fd, f->buf + i, f->n - i);
        if (w <= 0)
            break;
        i += (size_t)w;
    }
    f->n = 0;
    return 0;
}
static void put_file(FILE *f, char c) {
    f->buf[f->n++] = c;
    if (f->n == sizeof f->buf || (f->fd == 2 && c == '\n'))
        fflush(f);
}
int setvbuf(FILE *f, char *b, int m, size_t n) { return (void)f, (void)b, (void)m, (void)n, 0; }
int printf(const char *f, ...) {
    va_list a;
    va_start(a, f);
    out_t o = {NULL, 0, 0, stdout};
    int   r = vfmt(&o, f, a);
    va_end(a);
    return r;
}
int vfprintf(FILE *s, const char *f, va_list a) {
    out_t o = {NULL, 0, 0, s};
    return vfmt(&o, f, a);
}
int fprintf(FILE *s, const char *f, ...) {
    va_list a;
    va_start(a, f);
    int r = vfprintf(s, f, a);
    va_end(a);
    return r;
}
int fputs(const char *s, FILE *f) {
    while (*s)
        put_file(f, *s++);
    return 0;
}
int fputc(int c, FILE *f) { return put_file(f, (char)c), c; }
int putchar(int c) { return put_file(stdout, (char)c), c; }
int puts(const char *s) {
    fputs(s, stdout);
    put_file(stdout, '\n');
    return 0;
}
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
    for (size_t i = 0; i < s * n; i++)
        put_file(f, ((const char *)p)[i]);
    return n;
}
FILE *fopen(const char *p, const char *m) {
    (void)m;
    int fd = open(p, 01 | 0100 | 01000, 0644);
    if (fd < 0)
        return NULL;
    FILE *f = malloc(sizeof *f);
    f->fd = fd, f->n = 0;
    return f;
}
int fclose(FILE *f) {
    fflush(f);
    close(f->fd);
    free(f);
    return 0;
}
void __assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
    fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, fn, e);
    abort();
}
void __stack_chk_fail(void) {
    fputs("stack smashing detected\n", stderr);
    abort();
}

/* ---- not available here: threads and coroutines ---- */
#define NONE(F)                                                                                                        \
    int F(void) {                                                                                                      \
        fputs(#F " is not available in 32-bit programs\n", stderr);                                                    \
        abort();                                                                                                       \
        return -1;                                                                                                     \
    }
NONE(pthread_create) NONE(pthread_join) NONE(pthread_barrier_init) NONE(pthread_barrier_wait) NONE(pthread_barrier_destroy)
NONE(swapcontext) NONE(setcontext) NONE(getcontext) NONE(makecontext)

/* ---- crashes: say where, then die of the signal ---- */
static void crash(int s, void *info, void *ctx) {
    uint32_t *g = (uint32_t *)ctx + 5; /* gregs: eip is number 14 */
    (void)info;
    fflush(stdout);
    fprintf(stderr, "@@CRASH signal %d at %lx\n", s, (unsigned long)g[14]);
    struct ksig k = {0, 0x04000000ul, mon32_restore, {0, 0}};
    sys(174, s, (long)&k, 0, 8, 0, 0);
    SYS(37, SYS(20, 0, 0, 0), s, 0);
    _exit(139);
}

/* ---- undefined behaviour found by clang's or gcc's checks (-fsanitize-minimal-runtime) ---- */
#define UB(K)                                                                                                          \
    void __ubsan_handle_##K##_minimal(void) { ub(#K, __builtin_return_address(0)); }                                   \
    void __ubsan_handle_##K##_minimal_abort(void) { ub(#K, __builtin_return_address(0)); }
static void ub(const char *k, void *pc) {
    fflush(stdout);
    fprintf(stderr, "runtime error: %s at %lx\n", k, (unsigned long)pc);
    _exit(78);
}
UB(type_mismatch) UB(alignment_assumption) UB(add_overflow) UB(sub_overflow) UB(mul_overflow) UB(negate_overflow) UB(divrem_overflow)
UB(shift_out_of_bounds) UB(out_of_bounds) UB(builtin_unreachable) UB(missing_return) UB(vla_bound_not_positive) UB(float_cast_overflow)
UB(load_invalid_value) UB(invalid_builtin) UB(invalid_objc_cast) UB(function_type_mismatch) UB(implicit_conversion) UB(nonnull_arg)
UB(nonnull_return) UB(nullability_arg) UB(nullability_return) UB(pointer_overflow) UB(cfi_check_fail)

int  main(int, char **, char **);
extern void (*__init_array_start[])(void), (*__init_array_end[])(void);
void mon32_start(uint32_t *sp) {
    struct ksig k = {(void *)crash, 0x84000004ul, mon32_restore, {0, 0}}; /* SA_SIGINFO, restorer, reset after the first */
    sys(174, 11, (long)&k, 0, 8, 0, 0);
    sys(174, 8, (long)&k, 0, 8, 0, 0);
    sys(174, 4, (long)&k, 0, 8, 0, 0);
    sys(174, 7, (long)&k, 0, 8, 0, 0);
    int    argc = (int)sp[0];
    char **argv = (char **)(sp + 1);
    for (void (**c)(void) = __init_array_start; c < __init_array_end; c++)
        (*c)();
    int    r    = main(argc, argv, argv + argc + 1);
    fflush(NULL);
    _exit(r);
}
__asm__(".text\n.globl _start\n_start:\n xorl %ebp, %ebp\n movl %esp, %eax\n andl $-16, %esp\n subl $12, %esp\n pushl %eax\n call mon32_start\n hlt\n");
