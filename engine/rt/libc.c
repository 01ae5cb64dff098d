// Minimal C library for symbolic execution of the repository's bitcode.
// Every function implements the ISO C contract the code under test relies on;
// the engine supplies malloc/free/mem*/str* on concrete data, setjmp/longjmp,
// mmap, abort and exit.  Differences from glibc are listed in DESIGN.md.
typedef unsigned long size_t;
typedef __builtin_va_list va_list;
#define NULL ((void *)0)
#define va_start __builtin_va_start
#define va_end __builtin_va_end
#define va_arg __builtin_va_arg

void *malloc(size_t);
void *realloc(void *, size_t);
void free(void *);
void *memcpy(void *, const void *, size_t);
void *memset(void *, int, size_t);
size_t strlen(const char *);
int strcmp(const char *, const char *);
long sx_fmt_double(char *, long, const char *, double);
double sx_host_strtod(const char *, char **);
long sx_is_symbolic(long);
long sx_any_sym_bytes(const void *, size_t);
void sx_assume_(long);
void sx_sym_(void *, size_t, const char *);
void sx_kill(const char *);

// ---------------------------------------------------------------- slow paths for symbolic bytes
int sx_slow_memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  // one symbolic branch per byte would make 2^n paths only when the caller
  // distinguishes them; equality is decided byte by byte (n+1 paths)
  for (size_t i = 0; i < n; i++)
    if (x[i] != y[i]) return (int)x[i] - (int)y[i];
  return 0;
}
size_t sx_slow_strlen(const char *s) {
  size_t n = 0;
  while (s[n]) n++;
  return n;
}
int sx_slow_strncmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return (int)x - (int)y;
    if (!x) return 0;
  }
  return 0;
}
int sx_slow_strcmp(const char *a, const char *b) { return sx_slow_strncmp(a, b, ~0ul); }
char *sx_slow_strchr(const char *s, int c) {
  for (;; s++) {
    if (*s == (char)c) return (char *)s;
    if (!*s) return NULL;
  }
}
char *strrchr(const char *s, int c) {
  const char *r = NULL;
  for (;; s++) {
    if (*s == (char)c) r = s;
    if (!*s) return (char *)r;
  }
}
void *memchr(const void *p, int c, size_t n) {
  const unsigned char *s = p;
  for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i);
  return NULL;
}
size_t strnlen(const char *s, size_t m) { size_t i = 0; while (i < m && s[i]) i++; return i; }
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
  size_t l = strlen(d), i = 0;
  for (; i < n && s[i]; i++) d[l + i] = s[i];
  d[l + i] = 0;
  return d;
}
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
char *strstr(const char *h, const char *n) {
  size_t l = strlen(n);
  if (!l) return (char *)h;
  for (; *h; h++) {
    size_t i = 0;
    while (i < l && h[i] == n[i]) i++;
    if (i == l) return (char *)h;
  }
  return NULL;
}
size_t strspn(const char *s, const char *a) {
  size_t n = 0;
  for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (!*q) break; }
  return n;
}
size_t strcspn(const char *s, const char *a) {
  size_t n = 0;
  for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (*q) break; }
  return n;
}

// ---------------------------------------------------------------- ctype (C locale), branch free
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int islower(int c) { return (unsigned)c - 'a' < 26u; }
int isupper(int c) { return (unsigned)c - 'A' < 26u; }
int isalpha(int c) { return ((unsigned)c | 32u) - 'a' < 26u; }
int isalnum(int c) { return isdigit(c) | isalpha(c); }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9u < 5u); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int isprint(int c) { return (unsigned)c - 32u < 95u; }
int isgraph(int c) { return (unsigned)c - 33u < 94u; }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
int isxdigit(int c) { return isdigit(c) | (((unsigned)c | 32u) - 'a' < 6u); }
int isascii(int c) { return (unsigned)c < 128u; }
int toupper(int c) { return c - (islower(c) << 5); }
int tolower(int c) { return c + (isupper(c) << 5); }
static int lc(const char *p) { return tolower((unsigned char)*p); }
int strncasecmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    int x = lc(a + i), y = lc(b + i);
    if (x != y) return x - y;
    if (!x) return 0;
  }
  return 0;
}
int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, ~0ul); }

// ---------------------------------------------------------------- numbers
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? (long)(0ul - (unsigned long)x) : x; }
long long llabs(long long x) { return labs(x); }

static int digitOf(int c) {
  // 0..35, or 99
  int d = 99;
  d = isdigit(c) ? c - '0' : d;
  d = isalpha(c) ? (c | 32) - 'a' + 10 : d;
  return d;
}
int g_sx_errno;
int *__errno_location(void) { return &g_sx_errno; }
static unsigned long strtox(const char *s, char **end, int base, int sign) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  int neg = 0;
  if (*p == '-') { neg = 1; p++; }
  else if (*p == '+') p++;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if ((base == 0 || base == 2) && *p == '0' && (p[1] | 32) == 'b' && (p[2] == '0' || p[2] == '1')) { p += 2; base = 2; }  // __isoc23
  else if (base == 0 && *p == '0') base = 8;
  else if (base == 0) base = 10;
  unsigned long v = 0;
  int any = 0, ovf = 0;
  for (;; p++) {
    int d = digitOf((unsigned char)*p);
    if (d >= base) break;
    any = 1;
    if (!ovf) {
      unsigned long lim = (~0ul - (unsigned long)d) / (unsigned long)base;
      // sequential digits: only look at overflow when it is possible
      if (p - s >= 10 && v > lim) ovf = 1;
      else v = v * base + d;
    }
  }
  if (end) *end = (char *)(any ? p : s);
  if (!any) return 0;
  if (sign) {
    unsigned long m = neg ? 1ul << 63 : (1ul << 63) - 1;
    if (ovf || (p - s >= 10 && v > m)) { g_sx_errno = 34; return m; }
  } else if (ovf) { g_sx_errno = 34; return ~0ul; }
  return neg ? 0ul - v : v;
}
long strtol(const char *s, char **e, int b) { return (long)strtox(s, e, b, 1); }
long long strtoll(const char *s, char **e, int b) { return (long)strtox(s, e, b, 1); }
unsigned long strtoul(const char *s, char **e, int b) { return strtox(s, e, b, 0); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtox(s, e, b, 0); }
long __isoc23_strtol(const char *s, char **e, int b) { return (long)strtox(s, e, b, 1); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return (long)strtox(s, e, b, 1); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtox(s, e, b, 0); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtox(s, e, b, 0); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtol(s, 0, 10); }

static double p10(int e) {
  static const double t[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  return t[e];
}
// Correctly rounded for <=15 significant digits and |exponent|<=22 (both
// operands exact, one IEEE operation); otherwise the host's strtod decides
// (its argument bytes are then enumerated, never sampled silently).
double strtod(const char *s, char **end) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  int neg = 0;
  if (*p == '-') { neg = 1; p++; }
  else if (*p == '+') p++;
  int c = (unsigned char)*p | 32;
  if (c == 'i' || c == 'n') return sx_host_strtod(s, end);
  if (*p == '0' && (p[1] | 32) == 'x') return sx_host_strtod(s, end);
  unsigned long v = 0;
  int nd = 0, any = 0, scale = 0;
  for (; isdigit((unsigned char)*p); p++) { v = v * 10 + (*p - '0'); any = 1; nd++; if (nd > 15) return sx_host_strtod(s, end); }
  if (*p == '.') {
    const char *q = p + 1;
    for (; isdigit((unsigned char)*q); q++) { v = v * 10 + (*q - '0'); any = 1; nd++; scale--; if (nd > 15) return sx_host_strtod(s, end); }
    if (any) p = q;
  }
  if (!any) { if (end) *end = (char *)s; return 0; }
  if ((*p | 32) == 'e') {
    const char *q = p + 1;
    int en = 0, e = 0, ea = 0;
    if (*q == '-') { en = 1; q++; }
    else if (*q == '+') q++;
    for (; isdigit((unsigned char)*q); q++) { e = e * 10 + (*q - '0'); ea++; if (ea > 3) return sx_host_strtod(s, end); }
    if (ea) {
      p = q;
      if (sx_is_symbolic(e)) return sx_host_strtod(s, end);
      scale += en ? -e : e;
    }
  }
  if (scale > 22 || scale < -22) return sx_host_strtod(s, end);
  double d = (double)(long)v;
  if (scale > 0) d = d * p10(scale);
  else if (scale < 0) d = d / p10(-scale);
  if (end) *end = (char *)p;
  return neg ? -d : d;
}
double atof(const char *s) { return strtod(s, 0); }
double strtod_l(const char *s, char **e) { return strtod(s, e); }

// ---------------------------------------------------------------- FILE
typedef struct SXFILE {
  int kind;  // 0 discard, 1 memory
  char *buf;
  size_t len, cap, pos;
  int eof, err;
  int slot;  // virtual file or -1
  int wr, open;
} FILE;
typedef struct { char name[256]; char *data; size_t len; int used; } VFile;
static VFile g_vf[32];
static FILE f_in = {1, 0, 0, 0, 0, 0, 0, -1, 0, 1}, f_out = {0, 0, 0, 0, 0, 0, 0, -1, 1, 1}, f_err = {0, 0, 0, 0, 0, 0, 0, -1, 1, 1};
FILE *stdin = &f_in, *stdout = &f_out, *stderr = &f_err;

void sx_capture_stdout(int on) { f_out.kind = on; f_out.len = f_out.pos = 0; }
const char *sx_stdout_data(size_t *n) { *n = f_out.len; return f_out.buf; }
void sx_stdin_set(const char *d, size_t n) {
  f_in.buf = malloc(n + 1);
  memcpy(f_in.buf, d, n);
  f_in.len = n; f_in.pos = 0; f_in.eof = 0;
}
static void put(FILE *f, const char *p, size_t n) {
  if (!f->kind || !n) return;
  if (f->pos + n > f->cap) {
    size_t c = f->cap ? f->cap : 64;
    while (c < f->pos + n) c *= 2;
    f->buf = realloc(f->buf, c);
    f->cap = c;
  }
  memcpy(f->buf + f->pos, p, n);
  f->pos += n;
  if (f->pos > f->len) f->len = f->pos;
}
static VFile *vfind(const char *n) {
  for (int i = 0; i < 32; i++) if (g_vf[i].used && !strcmp(g_vf[i].name, n)) return &g_vf[i];
  return NULL;
}
void sx_vfile(const char *name, const char *data, size_t n) {
  VFile *v = vfind(name);
  if (!v) for (int i = 0; i < 32; i++) if (!g_vf[i].used) { v = &g_vf[i]; break; }
  v->used = 1;
  strcpy(v->name, name);
  v->data = malloc(n + 1);
  memcpy(v->data, data, n);
  v->len = n;
}
FILE *fopen(const char *name, const char *mode) {
  VFile *v = vfind(name);
  if (mode[0] == 'r' && !v) return NULL;
  if (strlen(name) > 250) return NULL;
  if (!v) {
    sx_vfile(name, "", 0);
    v = vfind(name);
  }
  FILE *f = malloc(sizeof(FILE));
  memset(f, 0, sizeof *f);
  f->kind = 1;
  f->open = 1;
  f->slot = v - g_vf;
  if (mode[0] != 'w' && v->len) {
    put(f, v->data, v->len);
    f->pos = mode[0] == 'a' ? f->len : 0;
  }
  f->wr = mode[0] != 'r' || mode[1] == '+';
  if (mode[0] == 'w') v->len = 0;
  return f;
}
FILE *tmpfile(void) {
  FILE *f = malloc(sizeof(FILE));
  memset(f, 0, sizeof *f);
  f->kind = 1;
  f->slot = -1;
  f->wr = 1;
  f->open = 1;
  return f;
}
static void sync_(FILE *f) {
  if (f->wr && f->slot >= 0) {
    VFile *v = &g_vf[f->slot];
    v->data = realloc(v->data, f->len + 1);
    memcpy(v->data, f->buf, f->len);
    v->len = f->len;
  }
}
int fflush(FILE *f) { if (f) sync_(f); return 0; }
int fclose(FILE *f) {
  sync_(f);
  if (f == &f_in || f == &f_out || f == &f_err) { f->open = 0; return 0; }
  free(f->buf);
  free(f);
  return 0;
}
int feof(FILE *f) { return f->eof; }
int ferror(FILE *f) { return f->err; }
void clearerr(FILE *f) { f->eof = f->err = 0; }
int fileno(FILE *f) { return f == &f_in ? 0 : f == &f_out ? 1 : f == &f_err ? 2 : 3; }
int isatty(int fd) { return 0; }
int fgetc(FILE *f) {
  if (f->pos >= f->len) { f->eof = 1; return -1; }
  return (unsigned char)f->buf[f->pos++];
}
int getc(FILE *f) { return fgetc(f); }
int getchar(void) { return fgetc(stdin); }
int ungetc(int c, FILE *f) {
  if (c == -1) return -1;
  f->eof = 0;
  if (f->pos > 0) { f->pos--; f->buf[f->pos] = (char)c; return c; }
  sx_kill("ungetc at start");
  return -1;
}
char *fgets(char *s, int n, FILE *f) {
  int i = 0;
  while (i < n - 1) {
    int c = fgetc(f);
    if (c == -1) break;
    s[i++] = (char)c;
    if (c == '\n') break;
  }
  if (!i) return NULL;
  s[i] = 0;
  return s;
}
size_t fread(void *p, size_t sz, size_t n, FILE *f) {
  size_t want = sz * n, have = f->len - f->pos;
  if (!want) return 0;
  if (f->pos > f->len) have = 0;
  if (want > have) { want = have; f->eof = 1; }
  memcpy(p, f->buf + f->pos, want);
  f->pos += want;
  return want / sz;
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) { put(f, p, sz * n); return n; }
int fputc(int c, FILE *f) { char b = (char)c; put(f, &b, 1); return (unsigned char)c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *f) { put(f, s, strlen(s)); return 1; }
int puts(const char *s) { fputs(s, stdout); return fputc('\n', stdout); }
int fseek(FILE *f, long o, int wh) {
  long b = wh == 0 ? 0 : wh == 1 ? (long)f->pos : (long)f->len;
  if (b + o < 0) return -1;
  f->pos = b + o;
  f->eof = 0;
  return 0;
}
long ftell(FILE *f) { return (long)f->pos; }
void rewind(FILE *f) { f->pos = 0; f->eof = f->err = 0; }
void perror(const char *s) {}
int pclose(FILE *f) { return 0; }
int remove(const char *n) { VFile *v = vfind(n); if (!v) return -1; v->used = 0; return 0; }
int unlink(const char *n) { return remove(n); }
int access(const char *n, int m) { return vfind(n) ? 0 : -1; }
char *getcwd(char *b, size_t n) { strcpy(b, "/sx"); return b; }
char *realpath(const char *p, char *r) { return NULL; }

// ---------------------------------------------------------------- printf
typedef struct { char *s; size_t cap, n; FILE *f; } Out;
static void o_c(Out *o, char c) {
  if (o->f) put(o->f, &c, 1);
  else if (o->n + 1 < o->cap) o->s[o->n] = c;
  o->n++;
}
static void o_s(Out *o, const char *p, size_t n) {
  if (o->f) { put(o->f, p, n); o->n += n; return; }
  size_t room = o->n + 1 < o->cap ? o->cap - 1 - o->n : 0;
  size_t k = n < room ? n : room;
  if (k) memcpy(o->s + o->n, p, k);
  o->n += n;
}
static const unsigned long P10[] = {1ul, 10ul, 100ul, 1000ul, 10000ul, 100000ul, 1000000ul, 10000000ul, 100000000ul, 1000000000ul, 10000000000ul, 100000000000ul,
  1000000000000ul, 10000000000000ul, 100000000000000ul, 1000000000000000ul, 10000000000000000ul, 100000000000000000ul, 1000000000000000000ul, 10000000000000000000ul};
static int g_exact;
void sx_exact_print(int on) { g_exact = on; }
// decimal digits of u into b (no NUL), returns the count
static int udec(unsigned long u, char *b) {
  int n = 1;
  while (n < 20 && u >= P10[n]) n++;
  if (!sx_is_symbolic(u)) {
    for (int i = n; i-- > 0; u /= 10) b[i] = '0' + u % 10;
    return n;
  }
  if (!g_exact) { b[0] = '#'; return 1; }  // diagnostics: text of a symbolic number is opaque
  // definitional: fresh digits with sum d_k*10^k == u (exists and is unique)
  unsigned long s = 0;
  char d[20];
  for (int i = 0; i < n; i++) {
    unsigned char x;
    sx_sym_(&x, 1, "~digit");
    d[i] = x;
    s += (unsigned long)x * P10[n - 1 - i];
  }
  long ok = 1;
  for (int i = 0; i < n; i++) ok &= (unsigned char)d[i] <= 9;
  sx_assume_(ok & (s == u));
  for (int i = 0; i < n; i++) b[i] = '0' + d[i];
  return n;
}
static int vfmt(Out *o, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') {
      const char *q = f;
      while (*q && *q != '%') q++;
      o_s(o, f, q - f);
      f = q - 1;
      continue;
    }
    const char *start = f;
    f++;
    int left = 0, zero = 0, plus = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) {
      if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') plus = 2; else break;
    }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; }
    else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') {
      f++; prec = 0;
      if (*f == '*') { prec = va_arg(ap, int); f++; }
      else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0');
    }
    int hh = 0;
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 1; else if (*f == 'h') hh++; else break; }
    char b[72], sg = 0;
    const char *p = b;
    size_t n = 0;
    int num = 0;
    switch (*f) {
    case 'd': case 'i': {
      long v = lng ? va_arg(ap, long) : (long)va_arg(ap, int);
      if (hh == 1) v = (short)v; else if (hh == 2) v = (signed char)v;
      unsigned long u = v;
      if (v < 0) { sg = '-'; u = 0ul - u; } else if (plus) sg = plus == 1 ? '+' : ' ';
      n = udec(u, b);
      num = 1;
      break;
    }
    case 'u': {
      unsigned long u = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
      n = udec(u, b);
      num = 1;
      break;
    }
    case 'x': case 'X': case 'o': case 'p': {
      unsigned long u = (lng || *f == 'p') ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
      if (hh == 1) u = (unsigned short)u; else if (hh == 2) u = (unsigned char)u;
      int sh = *f == 'o' ? 3 : 4;
      char t[24];
      int k = 0;
      do {
        unsigned d = u & ((1u << sh) - 1);
        char al = (*f == 'X' ? 'A' : 'a') - 10;
        t[k++] = (char)(d + '0' + (d > 9) * (al - '0'));
        u >>= sh;
      } while (u);
      if (*f == 'p' || (alt && *f == 'x')) { b[n++] = '0'; b[n++] = 'x'; }
      while (k) b[n++] = t[--k];
      num = 1;
      break;
    }
    case 'c': b[0] = (char)va_arg(ap, int); n = 1; break;
    case 's':
      p = va_arg(ap, const char *);
      if (!p) p = "(null)";
      n = prec >= 0 ? strnlen(p, prec) : strlen(p);
      break;
    case 'f': case 'g': case 'e': case 'G': case 'E': case 'F': {
      char spec[32], tmp[400];
      int k = 0;
      *spec = '%'; k = 1;
      if (alt) spec[k++] = '#';
      if (plus == 1) spec[k++] = '+';
      if (prec >= 0) { spec[k++] = '.'; if (prec >= 100) prec = 99; if (prec >= 10) spec[k++] = '0' + prec / 10; spec[k++] = '0' + prec % 10; }
      spec[k++] = *f; spec[k] = 0;
      double d = va_arg(ap, double);
      long m = sx_fmt_double(tmp, 400, spec, d);
      for (long i = 0; i < width - m && !left; i++) o_c(o, ' ');
      o_s(o, tmp, m);
      for (long i = 0; i < width - m && left; i++) o_c(o, ' ');
      continue;
    }
    case '%': b[0] = '%'; n = 1; break;
    case 0: o_s(o, start, f - start); f--; continue;
    default: sx_kill("printf conversion"); return -1;
    }
    size_t tot = n + (sg != 0), z = 0;
    if (num && prec >= 0) { if ((size_t)prec > n) { z = prec - n; tot += z; } zero = 0; }
    size_t pad = (size_t)width > tot ? width - tot : 0;
    if (!left && !(zero && num)) for (; pad; pad--) o_c(o, ' ');
    if (sg) o_c(o, sg);
    if (!left && zero && num) for (; pad; pad--) o_c(o, '0');
    for (; z; z--) o_c(o, '0');
    o_s(o, p, n);
    for (; pad; pad--) o_c(o, ' ');
  }
  return (int)o->n;
}
int vsnprintf(char *s, size_t cap, const char *f, va_list ap) {
  if (cap > 0x7fffffff) {
    // glibc: EOVERFLOW only for the result; the buffer is used as if unbounded
  }
  Out o = {s, cap, 0, NULL};
  int r = vfmt(&o, f, ap);
  if (cap) s[o.n < cap ? o.n : cap - 1] = 0;
  return r;
}
int snprintf(char *s, size_t cap, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(s, cap, f, ap);
  va_end(ap);
  return r;
}
int vsprintf(char *s, const char *f, va_list ap) { return vsnprintf(s, 0x7fffffff, f, ap); }
int sprintf(char *s, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(s, 0x7fffffff, f, ap);
  va_end(ap);
  return r;
}
int vfprintf(FILE *fp, const char *f, va_list ap) {
  if (!fp->kind) return 0;  // diagnostics to the terminal are not modelled
  Out o = {NULL, 0, 0, fp};
  return vfmt(&o, f, ap);
}
int fprintf(FILE *fp, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vfprintf(fp, f, ap);
  va_end(ap);
  return r;
}
int printf(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vfprintf(stdout, f, ap);
  va_end(ap);
  return r;
}
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = base, t[256];
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) {
      memcpy(t, b + j * sz, sz);
      memcpy(b + j * sz, b + (j - 1) * sz, sz);
      memcpy(b + (j - 1) * sz, t, sz);
    }
}
// the bounds of the simulated stack (engine: STACK_LIMIT, STACK_TOP)
unsigned long pthread_self(void) { return 1; }
int pthread_getattr_np(unsigned long t, void *a) { return 0; }
int pthread_attr_getstack(const void *a, void **base, size_t *size) {
  *base = (void *)0xF0000000ul; *size = 0x8000000ul;
  return 0;
}
int pthread_attr_destroy(void *a) { return 0; }
