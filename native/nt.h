/* Common harness of the native oracles.
 * usage: exe <oracle> <seed> <from> <to> <step>
 * Every case is a pure function of (oracle, seed, case index). */
#ifndef NT_H
#define NT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>

static FILE *nt_out; static int nt_fd = 1; /* the library prints to stdout; results go to a copy of it */
static long nt_case = -1;
static const char *nt_oracle = "?";
static uint64_t nt_s[2];
static uint64_t nt_nontrivial = 0;
static char nt_desc[4096];
static int nt_samples = 0;

static uint64_t nt_mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t nt_u64(void) {
  uint64_t a = nt_s[0], b = nt_s[1];
  nt_s[0] = b; a ^= a << 23; nt_s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return nt_s[1] + b;
}
static void nt_seed(uint64_t seed, uint64_t i) { nt_s[0] = nt_mix(seed * 1000003ull + i) | 1; nt_s[1] = nt_mix(nt_s[0] ^ (i * 77)); for (int k = 0; k < 4; k++) nt_u64(); }
/* integer in [a, b] */
static int64_t ri(int64_t a, int64_t b) { return a + (int64_t)(nt_u64() % (uint64_t)(b - a + 1)); }
static double rd(void) { return (double)(nt_u64() >> 11) / 9007199254740992.0; }
static double rr(double a, double b) { return a + (b - a) * rd(); }
static int chance(int pct) { return ri(0, 99) < pct; }

__attribute__((noreturn)) static void nt_die(const char *kind, const char *msg) {
  fprintf(nt_out, "FAIL oracle=%s case=%ld %s: %s%s%s\n", nt_oracle, nt_case, kind, msg, nt_desc[0] ? " | input: " : "", nt_desc);
  fflush(nt_out);
  _exit(3);
}
__attribute__((noreturn, format(printf, 1, 2))) static void FAIL(const char *fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  nt_die("wrong result", b);
}
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
static void DESC(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(nt_desc, sizeof nt_desc, fmt, ap); va_end(ap); for (char *c = nt_desc; *c; c++) if (*c < 32 || *c > 126) *c = '?'; }
static void ADD(const char *fmt, ...) { size_t n = strlen(nt_desc); va_list ap; va_start(ap, fmt); if (n + 1 < sizeof nt_desc) vsnprintf(nt_desc + n, sizeof nt_desc - n, fmt, ap); va_end(ap); }
/* a case that exercised what the oracle is about; the first ones are printed as samples */
static void NONTRIVIAL(void) {
  nt_nontrivial++;
  if (nt_samples < 2 && nt_desc[0]) { nt_samples++; fprintf(nt_out, "SAMPLE case=%ld %s\n", nt_case, nt_desc); }
}

static void nt_crash(void) {
  static int once; if (once) return; once = 1;
  fflush(nt_out);
  char b[4400]; int n = snprintf(b, sizeof b, "FAIL oracle=%s case=%ld crash: sanitizer report, abort or fatal signal%s%s\n", nt_oracle, nt_case, nt_desc[0] ? " | input: " : "", nt_desc);
  if (n > (int)sizeof b) n = sizeof b;
  if (write(nt_fd, b, n)) {}
}
static void nt_sig(int s) { nt_crash(); _exit(4); }
static void nt_alarm(int s) {
  char b[4400]; int n = snprintf(b, sizeof b, "FAIL oracle=%s case=%ld hang: no answer within %d s%s%s\n", nt_oracle, nt_case, 100, nt_desc[0] ? " | input: " : "", nt_desc);
  if (n > (int)sizeof b) n = sizeof b;
  if (write(nt_fd, b, n)) {}
  _exit(5);
}
#if defined(__SANITIZE_ADDRESS__)
void __sanitizer_set_death_callback(void (*)(void));
#endif

/* memory handed out by malloc to the library has arbitrary contents */
static unsigned nt_fill_byte = 0xa5;
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p && n < (1 << 20)) memset(p, nt_fill_byte, n); return p; }

typedef struct { const char *name; void (*fn)(void); } NtOracle;

static int nt_main(int argc, char **argv, const NtOracle *tab) {
  if (argc < 6) { fprintf(stderr, "usage: %s oracle seed from to step\n", argv[0]); return 2; }
  nt_fd = dup(1); nt_out = fdopen(nt_fd, "w"); if (!freopen("/dev/null", "w", stdout)) return 2;
  signal(SIGABRT, nt_sig); signal(SIGFPE, nt_sig); signal(SIGALRM, nt_alarm);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(nt_crash);
#else
  signal(SIGSEGV, nt_sig); signal(SIGBUS, nt_sig); signal(SIGILL, nt_sig);
#endif
  for (const NtOracle *o = tab; o->name; o++) {
    if (strcmp(o->name, argv[1])) continue;
    nt_oracle = o->name;
    uint64_t seed = strtoull(argv[2], 0, 10);
    long n = 0;
    for (long i = atol(argv[3]); i < atol(argv[4]); i += atol(argv[5])) {
      nt_case = i; nt_desc[0] = 0;
      nt_seed(seed ^ nt_mix((uint64_t)strlen(argv[1]) * 131 + argv[1][0]), i);
      alarm(100);
      o->fn();
      n++;
    }
    alarm(0);
    fprintf(nt_out, "OK oracle=%s cases=%ld nontrivial=%llu\n", nt_oracle, n, (unsigned long long)nt_nontrivial);
    fflush(nt_out);
    return 0;
  }
  fprintf(stderr, "no oracle %s\n", argv[1]);
  return 2;
}
#endif
