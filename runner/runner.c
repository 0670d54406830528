// Native replay of one harness run: the solver's values are fed to the compiled crate and the
// harness interface (harness/src/vf.rs) is implemented with real memory: every buffer and heap
// allocation sits against a guard page, read-only inputs are write-protected.
//
// HARNESS+w: the functions have been called before. HARNESS+tI,J: two threads run the harness, each on
// its own part of the trace, one at a time; every access to the library's writable data is counted,
// and before the I-th and the J-th the other thread goes on.
//
// runner SO HARNESS PARAMS TRACE FILL e|f<offset> CACHEWORDS CACHEOFFSET [step]
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#define PG 4096ull
typedef struct { uint8_t *map, *base; uint64_t maplen, n, align; int heap, live, owner; } Obj;
static Obj objs[1 << 16];
static int nobj;
static uint64_t params[64];
static int nparams;
static int fill, front, step, off;
typedef struct { char kind; uint8_t *b; uint64_t n; } Ev;
static Ev *evs[2];
static int nevs[2], ievs[2];
static __thread int me;
#define ev evs[me]
#define nev nevs[me]
#define iev ievs[me]
static __thread int panic_ok = -1;
// two threads
static int two, other, ended[2];
static volatile int turn;
static uint64_t events, since, when[2] = {-1, -1};
static uintptr_t data_lo, data_hi;
static __thread int held;
static void (*body)(void);
static uintptr_t text_lo, text_hi;
static unsigned seen;

static void pause_(void) { usleep(0); }
static void out(const char *s) { if (write(1, s, strlen(s)) < 0) _exit(9); }
static void outf(const char *f, uint64_t x) { char b[128]; snprintf(b, sizeof b, f, (unsigned long long)x); out(b); }

static void *place(uint64_t n, uint64_t align, int heap) {
  static unsigned buffers;
  uint64_t at = 1;
  if (!heap) { at = buffers % 2 && off >> 16 ? (off >> 16) - 1 : off & 0xffff; buffers++; }
  at = front ? align * at % PG : align;
  uint64_t body = (n + at + PG - 1) / PG * PG;
  if (!body) body = PG;
  uint64_t len = body + 2 * PG;
  uint8_t *m = mmap(0, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED || mprotect(m + PG, body, PROT_READ | PROT_WRITE)) { out("ERROR mmap\n"); _exit(8); }
  if (body <= (64 << 20)) memset(m + PG, fill, body);
  uint8_t *b = front ? m + PG + at : (uint8_t *)(((uintptr_t)(m + PG + body) - n) & ~(uintptr_t)(align - 1));
  if (nobj == 1 << 16) { out("ERROR objects\n"); _exit(8); }
  objs[nobj++] = (Obj){m, b, len, n, align, heap, 1, me};
  return b;
}
static Obj *find(void *p) {
  for (int i = nobj - 1; i >= 0; i--) if (objs[i].base == p && objs[i].live) return &objs[i];
  return 0;
}
uint64_t vf_param(uint64_t i) { if ((int)i >= nparams) { out("ERROR param\n"); _exit(8); } return params[i] ^ (other && me && !i); }
uint64_t vf_nparams(void) { return nparams; }
static Ev *next(char k) {
  if (iev < nev && ev[iev].kind == k) return &ev[iev++];
  return 0;
}
void vf_sym(uint8_t *p, uint64_t n) {
  Ev *e = next('S');
  for (uint64_t i = 0; i < n; i++) p[i] = e && i < e->n ? e->b[i] : 0;
}
uint64_t vf_sym_u64(void) { uint64_t x = 0; vf_sym((uint8_t *)&x, 8); return x; }
uint64_t vf_choose(uint64_t n) { Ev *e = next('C'); return e ? e->n % n : 0; }
void vf_assume(bool c) { if (!c) { out("FAIL assume\n"); _exit(7); } }
void vf_assert(bool c, uint64_t id) { if (!c) outf("FAIL assert %llu\n", id); }
void vf_assert_eq(const uint8_t *p, const uint8_t *q, uint64_t n, uint64_t id) {
  for (uint64_t i = 0; i < n; i++) if (p[i] != q[i]) { outf("FAIL assert %llu\n", id); return; }
}
uint64_t vf_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void vf_cover(uint64_t id) { (void)id; }
uint8_t *vf_alloc(uint64_t n, uint64_t align) { return place(n, align ? align : 1, 0); }
void vf_protect(uint8_t *p) {
  Obj *o = find(p);
  if (o && mprotect(o->map + PG, o->maplen - 2 * PG, PROT_READ)) _exit(8);
}
uint8_t *vf_galloc(uint64_t n, uint64_t align) { return place(n, align, 1); }
void vf_gdealloc(uint8_t *p, uint64_t n, uint64_t align) {
  Obj *o = find(p);
  if (!o || !o->heap) { out("FAIL dealloc unknown\n"); return; }
  if (o->n != n || o->align != align) out("FAIL dealloc layout\n");
  o->live = 0;
  mprotect(o->map, o->maplen, PROT_NONE);
}
uint8_t *vf_grealloc(uint8_t *p, uint64_t n, uint64_t align, uint64_t nn) {
  uint8_t *q = place(nn, align, 1);
  Obj *o = find(p);
  uint64_t k = n < nn ? n : nn;
  if (o && k > o->n) k = o->n;
  memcpy(q, p, k);
  vf_gdealloc(p, n, align);
  return q;
}
uint64_t vf_live(void) { uint64_t k = 0; for (int i = 0; i < nobj; i++) k += objs[i].heap && objs[i].live && objs[i].owner == me; return k; }
void vf_panic_ok(bool c) { panic_ok = c; }
void vf_panic_end(void) { if (panic_ok == 1) out("FAIL nopanic\n"); panic_ok = -1; }
void vf_result(const uint8_t *p, uint64_t n) {
  out("RESULT ");
  for (uint64_t i = 0; i < n; i++) { char b[3]; snprintf(b, 3, "%02x", p[i]); out(b); }
  out("\n");
}
void vf_result_u64(uint64_t x) { outf("RESULT =%llu\n", x); }
uint64_t vf_mode(void) { return 1; }
// the panic handler of the builds without std
void vf_panicked(void) { out(panic_ok == 1 ? "PANICOK\n" : "FAIL panic\n"); _exit(0); }

static void guard(int on) { if (data_hi > data_lo) mprotect((void *)data_lo, data_hi - data_lo, on ? PROT_NONE : PROT_READ | PROT_WRITE); }
static void hand_over(void) {
  if (ended[1 - me]) return;
  since = 0;
  turn = 1 - me;
  while (turn != me) pause_();
}
// what the library does to wait for the other thread
int sched_yield(void) { if (two) hand_over(); return 0; }
long syscall(long n, ...) {
  long a[6];
  va_list l;
  va_start(l, n);
  for (int i = 0; i < 6; i++) a[i] = va_arg(l, long);
  va_end(l);
  if (two && n == SYS_futex) {
    if ((a[1] & 15) == 1 || (a[1] & 15) == 10) return 1;
    hand_over();
    errno = EAGAIN;
    return -1;
  }
  register long r10 __asm__("r10") = a[3], r8 __asm__("r8") = a[4], r9 __asm__("r9") = a[5];
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "0"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static void on_fault(int s, siginfo_t *si, void *u) {
  uintptr_t at = (uintptr_t)si->si_addr;
  if (two && s == SIGSEGV && at >= data_lo && at < data_hi && !held) {
    events++;
    { char b[96]; snprintf(b, sizeof b, "EV %d %lx %d\n", me, (unsigned long)(at - data_lo), (int)(((ucontext_t *)u)->uc_mcontext.gregs[REG_ERR] >> 1 & 1)); out(b); }
    if (events == when[0] || events == when[1] || ++since > 20000) hand_over();
    guard(0);
    held = 1;
    ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] |= 0x100;
    return;
  }
  if (two) guard(0);
  if (s == SIGABRT) { out(panic_ok == 1 ? "PANICOK\n" : "FAIL panic\n"); if (step) outf("INSN %llu\n", seen); _exit(0); }
  if (step) outf("INSN %llu\n", seen);
  outf("FAIL signal %llu", s);
  for (int i = 0; i < nobj; i++) {
    uint8_t *a = si->si_addr;
    if (a >= objs[i].map && a < objs[i].map + objs[i].maplen) {
      char b[160];
      snprintf(b, sizeof b, " at offset %lld of a %s of %llu bytes%s", (long long)(a - objs[i].base), objs[i].heap ? "heap block" : "buffer", (unsigned long long)objs[i].n, objs[i].live ? "" : " (freed)");
      out(b);
    }
  }
  out("\n");
  _exit(0);
}
enum { SSSE3 = 1, SSE41 = 2, SSE42 = 4, POPCNT = 8, AVX = 16, AVX2 = 32, SSE3 = 64, AVX512 = 128 };
static unsigned classify(const uint8_t *p) {
  int p66 = 0, f2 = 0, f3 = 0;
  for (;; p++) {
    if (*p == 0x66) p66 = 1; else if (*p == 0xF2) f2 = 1; else if (*p == 0xF3) f3 = 1;
    else if (*p == 0x2E || *p == 0x36 || *p == 0x3E || *p == 0x26 || *p == 0x64 || *p == 0x65 || *p == 0x67 || *p == 0xF0) ;
    else break;
  }
  if (*p == 0x62) return AVX512;
  if (*p == 0xC5 || *p == 0xC4) {
    int map = 1, L, pp; uint8_t op;
    if (*p == 0xC5) { L = p[1] >> 2 & 1; pp = p[1] & 3; op = p[2]; }
    else { map = p[1] & 31; L = p[2] >> 2 & 1; pp = p[2] & 3; op = p[3]; }
    unsigned r = AVX;
    if (map == 1 && L && ((pp == 1 && ((op >= 0x60 && op <= 0x6D) || (op >= 0x71 && op <= 0x76) || (op >= 0xD1 && op <= 0xD5) || op == 0xD7 || (op >= 0xD8 && op <= 0xE5) || (op >= 0xE8 && op <= 0xEF) || (op >= 0xF1 && op <= 0xFE))) || op == 0x70)) r |= AVX2;
    if (map == 2 && ((L && (op <= 0x0B || (op >= 0x1C && op <= 0x1E) || (op >= 0x20 && op <= 0x2B) || (op >= 0x30 && op <= 0x41))) || op == 0x36 || (op >= 0x45 && op <= 0x47) || op == 0x58 || op == 0x59 || op == 0x5A || op == 0x78 || op == 0x79 || op == 0x8C || op == 0x8E || (op >= 0x90 && op <= 0x93))) r |= AVX2;
    if (map == 3 && (op == 0x00 || op == 0x01 || op == 0x02 || op == 0x38 || op == 0x39 || op == 0x46 || (L && (op == 0x0E || op == 0x0F || op == 0x42 || op == 0x4C)))) r |= AVX2;
    return r;
  }
  if ((*p & 0xF0) == 0x40) p++;
  if (*p != 0x0F) return 0;
  if (p[1] == 0x38) {
    if (p[2] <= 0x0B || (p[2] >= 0x1C && p[2] <= 0x1E)) return SSSE3;
    if (p[2] == 0x37) return SSE42;
    if (p[2] >= 0x10 && p[2] <= 0x41 && p66) return SSE41;
    if (f2 && (p[2] == 0xF0 || p[2] == 0xF1)) return SSE42;
    return 0;
  }
  if (p[1] == 0x3A) {
    if (p[2] == 0x0F) return SSSE3;
    if (p[2] >= 0x60 && p[2] <= 0x63) return SSE42;
    if (p66 && p[2] >= 0x08 && p[2] <= 0x42) return SSE41;
    return 0;
  }
  if (f3 && p[1] == 0xB8) return POPCNT;
  if (f2 && (p[1] == 0xF0 || p[1] == 0x12 || p[1] == 0x7C || p[1] == 0x7D || p[1] == 0xD0)) return SSE3;
  return 0;
}
static void on_trap(int s, siginfo_t *si, void *u) {
  (void)s; (void)si;
  if (held) {
    held = 0;
    guard(1);
    if (!step) ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    return;
  }
  uintptr_t ip = ((ucontext_t *)u)->uc_mcontext.gregs[REG_RIP];
  if (ip >= text_lo && ip < text_hi) seen |= classify((uint8_t *)ip);
}
static int on_phdr(struct dl_phdr_info *i, size_t z, void *d) {
  (void)z;
  if (i->dlpi_addr == *(uintptr_t *)d)
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
        text_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
        text_hi = text_lo + i->dlpi_phdr[k].p_memsz;
      }
  if (i->dlpi_addr == *(uintptr_t *)d)
    for (int pass = 0; pass < 2; pass++)
      for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *h = &i->dlpi_phdr[k];
        uintptr_t lo = i->dlpi_addr + h->p_vaddr, hi = lo + h->p_memsz;
        if (!pass && h->p_type == PT_LOAD && (h->p_flags & PF_W) && hi > data_hi) data_lo = lo & ~(PG - 1), data_hi = (hi + PG - 1) & ~(PG - 1);
        hi = (hi + PG - 1) & ~(PG - 1);
        if (pass && h->p_type == PT_GNU_RELRO && hi > data_lo && hi <= data_hi && lo <= data_lo + PG) data_lo = hi;
      }
  return 0;
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

static void handlers(void) {
  stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
  sigaltstack(&ss, 0);
}
static void *thread(void *p) {
  me = (int)(uintptr_t)p;
  handlers();
  while (turn != me) pause_();
  body();
  ended[me] = 1;
  turn = 1 - me;
  return 0;
}

int main(int c, char **v) {
  if (c < 9) return 2;
  for (char *t = strtok(v[3], ","); t && *t != '-'; t = strtok(0, ",")) params[nparams++] = strtoull(t, 0, 10);
  FILE *f = fopen(v[4], "r");
  char *line = 0; size_t cap = 0; ssize_t k;
  evs[0] = calloc(1 << 16, sizeof *ev);
  evs[1] = calloc(1 << 16, sizeof *ev);
  while (f && (k = getline(&line, &cap, f)) > 0) {
    while (k && (line[k - 1] == '\n' || line[k - 1] == ' ')) k--;
    if (k < 1) continue;
    if (line[0] == 'T') { me = line[2] == '1'; continue; }
    Ev *e = &ev[nev++];
    e->kind = line[0];
    if (line[0] == 'S') {
      e->n = k > 2 ? (k - 2) / 2 : 0;
      e->b = malloc(e->n + 1);
      for (uint64_t i = 0; i < e->n; i++) e->b[i] = hexv(line[2 + 2 * i]) << 4 | hexv(line[3 + 2 * i]);
    } else e->n = strtoull(line + 2, 0, 10);
  }
  me = 0;
  fill = strtol(v[5], 0, 16);
  front = v[6][0] == 'f';
  off = atoi(v[6] + 1);
  step = c > 9;
  void *h = dlopen(v[1], RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  char *pt = strstr(v[2], "+t");
  if (pt) { *pt = 0; two = 1; other = pt[2] == 'x'; sscanf(pt + 2 + other, "%lu,%lu", &when[0], &when[1]); }
  char *plus = strstr(v[2], "+w");
  int warmups = plus && plus[2] ? atoi(plus + 2) : 1;
  if (plus) *plus = 0;
  void (*warm)(void) = plus ? (void (*)(void))dlsym(h, "h_warm") : 0;
  if (plus && !warm) { fprintf(stderr, "no h_warm\n"); return 2; }
  void (*run)(void) = (void (*)(void))dlsym(h, v[2]);
  if (!run) { fprintf(stderr, "no %s\n", v[2]); return 2; }
  struct link_map *lm;
  dlinfo(h, RTLD_DI_LINKMAP, &lm);
  for (char *w = v[7], *o = v[8]; *w && *w != '-'; ) {
    *(uint64_t *)(lm->l_addr + strtoull(o, &o, 16)) = strtoull(w, &w, 10);
    if (*w == ',') w++;
    if (*o == ',') o++;
  }
  uintptr_t base = lm->l_addr;
  dl_iterate_phdr(on_phdr, &base);
  setenv("RUST_BACKTRACE", "0", 1);
  static uint8_t alt[1 << 16];
  stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
  sigaltstack(&ss, 0);
  struct sigaction sa = {.sa_sigaction = on_fault, .sa_flags = SA_SIGINFO | SA_ONSTACK};
  int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT};
  for (int i = 0; i < 5; i++) sigaction(sg[i], &sa, 0);
  if (step) {
    struct sigaction st = {.sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_ONSTACK};
    sigaction(SIGTRAP, &st, 0);
    __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
  }
  for (int i = 0; warm && i < warmups; i++) warm();
  if (two) {
    struct sigaction st = {.sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_ONSTACK};
    sigaction(SIGTRAP, &st, 0);
    body = run;
    pthread_t th[2];
    turn = -1;
    for (uintptr_t i = 0; i < 2; i++) if (pthread_create(&th[i], 0, thread, (void *)i)) return 2;
    guard(1);
    turn = 0;
    for (int i = 0; i < 2; i++) while (!ended[i]) pause_();
    guard(0);
    outf("EVENTS %llu\n", events);
    out("END\n");
    _exit(0);
  }
  run();
  if (step) {
    __asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
    outf("INSN %llu\n", seen);
  }
  out("END\n");
  _exit(0);
}
