// Deterministic simulation runtime.
//
// The code under test is compiled with -fsanitize=thread and
// -fsanitize-coverage=trace-pc, but linked against THIS runtime instead of
// the sanitizer's.  Every memory access, atomic, function entry and basic
// block of the code under test therefore calls into the functions below,
// which implement: a deterministic scheduler (one thread runs at a time), a
// vector-clock race detector, a step clock, a simulated heap with fault
// injection, and simulated locks, one-time initialisation, clock, random
// and environment sources.
//
// This file is compiled WITHOUT instrumentation and must not instantiate
// templates that the code under test may also instantiate.
#include "rt.h"

#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/sysinfo.h>
#include <sys/times.h>
#include <sys/utsname.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" char __data_start, _end;

// stack filling, see rt_block
extern "C" { uint64_t rt_pval; int rt_pon; } // the pattern; the basic blocks fill, too

namespace rt {

const char* const fault_name[F_N] = {"alloc-fail", "sink-eof", "sink-short", "sink-throw", "sink-sync-fail",
   "sink-bad-state", "sink-no-buffer", "sink-exceptions-on", "link-fail", "stall", "clock-jump"};
const char* const ev_name[EV_N] = {"read", "write", "atomic", "lock", "unlock", "wait", "once", "alloc", "free",
   "io", "func", "exit", "start", "link", "clock"};

namespace {

// ------------------------------------------------------------------ layout
constexpr uintptr_t INFRA_BASE = 0x10000000000ull, INFRA_SIZE = 8ull << 30;
constexpr uintptr_t SIM_BASE = 0x14000000000ull, SIM_SIZE = 2ull << 30;
constexpr uintptr_t STACK_BASE = 0x18000000000ull, STACK_STRIDE = 16ull << 20, STACK_SIZE = 8ull << 20;

typedef uint32_t VC[MAXT];

enum TState { T_NEW, T_RUNNABLE, T_BLOCKED, T_DONE };

struct Th {
   int id, state;
   pthread_t pt;
   volatile int go;
   void (*fn)(void*);
   void* arg;
   void* (*fn2)(void*);
   void* ret;
   bool foreign;        // created by the code under test
   int kids;            // threads it created that have not been joined
   int creator;         // who created it
   bool detached, joined;
   int creator_op, creator_tid;
   int rid;             // number among the threads of the plan; that of the creator for others
   Th* root;            // thread of the plan on whose behalf this one runs
   uint32_t ev;
   uint64_t steps, limit_at, forced_at;
   VC vc, relvc;        // clock; clock of last release fence
   const void* waiting; // what the thread is blocked on
   int wait_kind;
   uint64_t stalled_until;
   uint32_t stall_lock, stall_n; // suspend when this many locks have been taken, for how many events
   uint64_t prio;
   // op state
   int op, inlib, nosim;
   uint32_t nalloc, nwrite, nlink, nclock, injected;
   uint64_t op_steps0;
   int64_t op_live;
   uint32_t res_off, res_len;
   int locks;
   bool suppress_fault;
   uint32_t next_sw;    // S_LIST
   const volatile void* spin_on; // atomic used last, and how often in a row
   uint32_t spins;
   uint32_t timed;      // contended locks with a time limit
   uint64_t last_ev;    // kind and address of the last event
   uintptr_t stk_lo, stk_hi;
   int ndtor;
   void (*dtor[64])(void*);
   void* dtor_arg[64];
};

Th th[MAXT];
int nth, nplan;
int nphase;
__thread Th* cur __attribute__((tls_model("initial-exec")));
volatile int running = -1;
volatile int controller_go;
bool active;             // simulation in progress
Shared* S;
Config C;
uint64_t rng_s;
uint64_t gev;            // global event counter
uint64_t pct_point[64];
uint32_t pct_n, pct_i;
bool pct_based;
uint64_t pct_low;
uint32_t* sw_of[MAXT];   // S_LIST: indices of switches per thread
uint32_t nsw_of[MAXT];
uint64_t vclock;         // virtual nanoseconds added on top of steps
int64_t wallclock;       // adjustments of the time of day
uintptr_t exe_lo, exe_hi;
uintptr_t skip_lo[8], skip_hi[8];
int nskip;
volatile int log_fd = -1;

inline uint64_t mix(uint64_t x)
{
   x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
   return x;
}
inline uint64_t rnd()
{
   rng_s += 0x9e3779b97f4a7c15ull;
   return mix(rng_s);
}
inline void th_hash(uint64_t a) { S->trace_hash = (S->trace_hash ^ a) * 0x100000001b3ull + 0x9e37; }

// ------------------------------------------------------------------ allocator
struct Hdr { uint64_t size; uint32_t magic; int16_t tid; int16_t op; uint64_t base; uint64_t seq; };
static_assert(sizeof(Hdr) == 32, "");
enum : uint32_t { M_INFRA = 0x1f1f0001, M_SIM = 0x51a10001, M_FREED = 0xdeadf4ee };

volatile int infra_lock;
uintptr_t infra_top;
void* infra_free_list[64];
bool heap_ready;
uintptr_t sim_top;
uint64_t sim_seq;
int64_t sim_live;
uint32_t sim_live_blocks;
uintptr_t* blocks;       // user addresses, ascending
uint32_t blo, bhi;       // used part
uintptr_t sim_free_list[64];
constexpr uint32_t MAXBLOCKS = 1 << 24;

void heap_init()
{
   void* a = mmap((void*)INFRA_BASE, INFRA_SIZE, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
   void* b = mmap((void*)SIM_BASE, SIM_SIZE, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
   blocks = (uintptr_t*)mmap(nullptr, MAXBLOCKS * 8ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (a != (void*)INFRA_BASE || b != (void*)SIM_BASE) {
      static const char m[] = "sim: cannot map heap\n";
      if (write(2, m, sizeof m - 1)) {}
      _exit(97);
   }
   infra_top = INFRA_BASE;
   sim_top = 0; blo = bhi = MAXBLOCKS / 2;
   heap_ready = true;
}

inline int size_class(size_t n) // classes of powers of two and midpoints
{
   if (n <= 32) return 0;
   int l = 63 - __builtin_clzll(n - 1);
   int half = (n - 1) >> (l - 1) & 1;
   return (l - 4) * 2 + half - 1;
}
inline size_t class_size(int c)
{
   if (c == 0) return 32;
   const int l = (c + 1) / 2 + 4, half = (c + 1) & 1;
   return half ? (size_t)2 << l : (size_t)3 << (l - 1);
}

void* infra_alloc(size_t n, size_t al)
{
   while (__atomic_exchange_n(&infra_lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
   if (!heap_ready) heap_init();
   void* p = nullptr;
   if (al <= 16) {
      const int c = size_class(n);
      const size_t cs = class_size(c);
      if (c < 64 && infra_free_list[c]) {
         p = infra_free_list[c];
         infra_free_list[c] = *(void**)p;
      } else {
         p = (void*)(infra_top + sizeof(Hdr));
         infra_top += sizeof(Hdr) + ((cs + 15) & ~15ull);
      }
      Hdr* h = (Hdr*)p - 1;
      h->size = n; h->magic = M_INFRA; h->base = c; h->seq = 0; h->tid = -1; h->op = -1;
   } else {
      uintptr_t u = infra_top + sizeof(Hdr);
      u = (u + al - 1) & ~(al - 1);
      p = (void*)u;
      infra_top = (u + n + 15) & ~15ull;
      Hdr* h = (Hdr*)p - 1;
      h->size = n; h->magic = M_INFRA; h->base = 1000; h->seq = 0;
   }
   const bool full = infra_top > INFRA_BASE + INFRA_SIZE;
   __atomic_store_n(&infra_lock, 0, __ATOMIC_RELEASE);
   if (full) _exit(98);
   return p;
}

void infra_release(void* p)
{
   Hdr* h = (Hdr*)p - 1;
   if (h->base >= 64) return;
   while (__atomic_exchange_n(&infra_lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
   *(void**)p = infra_free_list[h->base];
   infra_free_list[h->base] = p;
   __atomic_store_n(&infra_lock, 0, __ATOMIC_RELEASE);
}

inline bool is_sim(const void* p) { return (uintptr_t)p >= SIM_BASE && (uintptr_t)p < SIM_BASE + SIM_SIZE; }

inline void fill(void* p, size_t n, uint64_t pat)
{
   unsigned char* c = (unsigned char*)p;
   while (n >= 8) { memcpy(c, &pat, 8); c += 8; n -= 8; }
   if (n) memcpy(c, &pat, n);
}

const Fault* find_fault(int kind, int tid, int op, uint32_t n)
{
   for (uint32_t i = 0; i < C.nfaults; i++) {
      const Fault& f = C.faults[i];
      if (f.kind == kind && f.thread == tid && f.op == op && n >= f.n && n - f.n < f.len) return &f;
   }
   return nullptr;
}

void count_fired(int kind) { S->fired[kind]++; if (cur) cur->root->injected++; }

void event(int kind, uintptr_t addr, uint32_t p);
void forget_accesses(uintptr_t a, size_t n);

// returns null when the allocation is made to fail
void* sim_alloc(size_t n, size_t al)
{
   event(EV_ALLOC, 0, C.p_shared);
   cur->root->nalloc++;
   if (!cur->suppress_fault) {
      if (find_fault(F_ALLOC, cur->rid, cur->op, cur->root->nalloc)) { count_fired(F_ALLOC); return nullptr; }
   }
   cur->suppress_fault = false;
   if (n > (256u << 20)) return nullptr; // absurd request: out of memory
   if (al < 16) al = 16;
   uintptr_t u = 0;
   size_t room = n;
   int cls = -1;
   if ((C.heap & 1) && al <= 16) { // memory may have been used before
      cls = size_class(n);
      room = class_size(cls);
      if (cls < 64 && sim_free_list[cls]) { u = sim_free_list[cls]; sim_free_list[cls] = ((Hdr*)u - 1)->base; forget_accesses(u, room); }
   }
   if (!u) {
      if (bhi >= MAXBLOCKS || blo == 0) fatal("internal", "too many heap blocks");
      if (C.heap & 2) { // towards lower addresses
         if (!sim_top) sim_top = SIM_BASE + SIM_SIZE - 4096;
         u = (sim_top - room - 16) & ~(al - 1);
         sim_top = (u - sizeof(Hdr)) & ~15ull;
         blocks[--blo] = u;
      } else {
         if (!sim_top) sim_top = SIM_BASE + 64;
         u = sim_top + sizeof(Hdr) + 16;
         u = (u + al - 1) & ~(al - 1);
         sim_top = (u + room + 31) & ~15ull;
         blocks[bhi++] = u;
      }
      if (u + n + 64 > SIM_BASE + SIM_SIZE || u < SIM_BASE + 64) fatal("internal", "simulated heap exhausted");
   }
   Hdr* h = (Hdr*)u - 1;
   h->size = n; h->magic = M_SIM; h->tid = cur->id; h->op = cur->op; h->base = cls; h->seq = ++sim_seq;
   fill((void*)u, n, C.poison);
   memset((void*)(u + n), 0xFB, 8);
   sim_live += n; sim_live_blocks++; cur->op_live += n;
   return (void*)u;
}

void sim_free(void* p)
{
   Hdr* h = (Hdr*)p - 1;
   if (h->magic == M_FREED) fatal("double-free", "block %llu of %llu bytes freed twice", (unsigned long long)h->seq, (unsigned long long)h->size);
   if (h->magic != M_SIM) fatal("bad-free", "free of a pointer that was not allocated");
   for (int i = 0; i < 8; i++)
      if (((unsigned char*)p)[h->size + i] != 0xFB) fatal("heap-overflow", "write past the end of block %llu of %llu bytes", (unsigned long long)h->seq, (unsigned long long)h->size);
   if (cur && active) event(EV_FREE, 0, C.p_shared / 4);
   h->magic = M_FREED;
   sim_live -= h->size; sim_live_blocks--;
   if (cur) cur->op_live -= h->size;
   fill(p, h->size, ~C.poison);
   if ((C.heap & 1) && h->base < 64) { const int c = (int)h->base; h->base = sim_free_list[c]; sim_free_list[c] = (uintptr_t)p; }
}

inline bool sim_ctx() { return cur && active && cur->inlib > 0 && cur->nosim == 0; }

void* do_alloc(size_t n, size_t al)
{
   if (sim_ctx()) return sim_alloc(n, al);
   return infra_alloc(n, al);
}
void do_free(void* p)
{
   if (!p) return;
   if (is_sim(p)) sim_free(p);
   else if ((uintptr_t)p >= INFRA_BASE && (uintptr_t)p < INFRA_BASE + INFRA_SIZE) infra_release(p);
   else if (S) fatal("bad-free", "free of an address outside the heap");
}

// ------------------------------------------------------------------ threads
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
   long r;
   register long r10 __asm__("r10") = d;
   register long r8 __asm__("r8") = e;
   register long r9 __asm__("r9") = f;
   __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
   if (r < 0 && r > -4096) { errno = -r; return -1; }
   return r;
}
void futex_wait(volatile int* a, int v) { raw_syscall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v); }
void futex_wake(volatile int* a) { raw_syscall(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1); }

void wait_go(volatile int* g)
{
   for (int spin = 0; spin < 200; spin++) {
      if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) goto out;
      __builtin_ia32_pause();
   }
   while (!__atomic_load_n(g, __ATOMIC_ACQUIRE)) futex_wait(g, 0);
out:
   __atomic_store_n(g, 0, __ATOMIC_RELAXED);
}
void give_go(volatile int* g)
{
   __atomic_store_n(g, 1, __ATOMIC_RELEASE);
   futex_wake(g);
}

bool can_run(const Th& t) { return t.state == T_RUNNABLE && t.stalled_until <= gev; }

// pick a thread to run; exclude: do not choose this one unless nothing else can run
int choose_random(int exclude)
{
   int c[MAXT], n = 0;
   for (int i = 0; i < nth; i++) if (i != exclude && can_run(th[i])) c[n++] = i;
   if (n) return c[rnd() % n];
   for (int i = 0; i < nth; i++) if (i != exclude && th[i].state == T_RUNNABLE) c[n++] = i;
   if (n) return c[rnd() % n];
   return -1;
}
int choose_low(int exclude)
{
   for (int i = 0; i < nth; i++) if (i != exclude && can_run(th[i])) return i;
   for (int i = 0; i < nth; i++) if (i != exclude && th[i].state == T_RUNNABLE) return i;
   return -1;
}
int choose_prio(int exclude)
{
   int b = -1;
   for (int i = 0; i < nth; i++) if (i != exclude && can_run(th[i]) && (b < 0 || th[i].prio > th[b].prio)) b = i;
   if (b < 0) return choose_low(exclude);
   return b;
}

void log_switch(int from, uint32_t ev, int to)
{
   if (S->nswitch < MAXSW) { Switch& w = S->sw[S->nswitch]; w.tid = from; w.ev = ev; w.to = to; S->nswitch++; }
   S->shape_hash = mix(S->shape_hash ^ mix((uint64_t)(from + 1) * 64 + to) ^ (from >= 0 ? th[from].last_ev : 0)) + 1;
   th_hash(0x5357ull << 32 | (uint64_t)(from + 1) << 20 | to);
   th_hash(ev);
}

// hand the processor over; the caller has set its own state
void transfer(int to)
{
   Th* me = cur;
   running = to;
   give_go(&th[to].go);
   wait_go(&me->go);
}

[[noreturn]] void finish_child(int rc)
{
   S->phase = 2;
   _exit(rc);
}

const Switch* list_entry(Th* t)
{
   while (t->next_sw < nsw_of[t->id]) {
      const Switch& w = C.list[sw_of[t->id][t->next_sw]];
      if (w.ev < t->ev) { t->next_sw++; continue; }
      if (w.ev == t->ev) { t->next_sw++; return &w; }
      return nullptr;
   }
   return nullptr;
}

// must switch away from cur (blocked or finished)
int choose_forced(Th* t)
{
   int to = -1;
   if (C.mode == S_LIST) {
      const Switch* w = list_entry(t);
      if (w && w->to >= 0 && w->to < nth && w->to != t->id && th[w->to].state == T_RUNNABLE) to = w->to;
      else to = choose_low(t->id);
   } else if (C.mode == S_RANDOM) to = choose_random(t->id);
   else if (C.mode == S_PCT) to = choose_prio(t->id);
   else to = choose_low(t->id);
   return to;
}

void deadlock()
{
   char b[360]; int n = 0;
   for (int i = 0; i < nth; i++)
      if (th[i].state == T_BLOCKED && n < 300)
         n += snprintf(b + n, sizeof b - n, "%sthread %d (op %d) waits for %s", n ? ", " : "", i, th[i].op,
                       th[i].wait_kind == 0 ? "a lock" : th[i].wait_kind == 1 ? "an initialisation" : th[i].wait_kind == 2 ? "a condition" : "a thread");
   fatal("deadlock", "no thread can run: %s", b);
}

void block(const void* on, int kind)
{
   Th* t = cur;
   t->ev++;
   t->state = T_BLOCKED; t->waiting = on; t->wait_kind = kind;
   const int to = choose_forced(t);
   if (to < 0) deadlock();
   log_switch(t->id, t->ev, to);
   transfer(to);
}
void wake_all(const void* on)
{
   for (int i = 0; i < nth; i++)
      if (th[i].state == T_BLOCKED && th[i].waiting == on) { th[i].state = T_RUNNABLE; th[i].waiting = nullptr; }
}
int wake_one(const void* on)
{
   for (int i = 0; i < nth; i++)
      if (th[i].state == T_BLOCKED && th[i].waiting == on) { th[i].state = T_RUNNABLE; th[i].waiting = nullptr; return 1; }
   return 0;
}

void preempt_to(int to, bool forced)
{
   Th* t = cur;
   if (to < 0 || to == t->id || th[to].state != T_RUNNABLE) return;
   log_switch(t->id, forced ? t->ev | 0x80000000u : t->ev, to);
   S->preempt++;
   transfer(to);
}

// one schedulable event of the current thread
void event(int kind, uintptr_t addr, uint32_t p)
{
   Th* t = cur;
   if (!t || !active) return;
   t->ev++; gev++;
   S->events[kind]++;
   t->last_ev = (uint64_t)kind << 56 ^ addr;
   if (kind != EV_FUNC) {
      S->shared_events++;
      th_hash((uint64_t)kind << 56 ^ (uint64_t)t->id << 48 ^ addr);
   }
   if (nth < 2 || C.mode == S_SEQ) return;
   int to = -1;
   // between the decision to wait and the wait itself much may happen
   if (kind == EV_WAIT && C.mode != S_LIST && rnd() % 6 == 0 && t->stalled_until < gev) t->stalled_until = gev + (16ull << rnd() % 14);
   if (C.mode == S_LIST) {
      const Switch* w = list_entry(t);
      if (!w) return;
      to = w->to;
      if (to < 0 || to >= nth) return;
   } else if (t->stalled_until > gev) {
      to = choose_random(t->id);
      if (to >= 0 && !can_run(th[to])) return;
   } else if (C.mode == S_RANDOM) {
      if (p == 0 || S->preempt >= C.max_switches) return;
      if ((rnd() & 0xffff) >= p) return;
      to = choose_random(t->id);
      if (to >= 0 && !can_run(th[to])) return;
   } else { // PCT
      if (pct_i < pct_n && gev >= pct_point[pct_i]) { t->prio = --pct_low; pct_i++; }
      to = choose_prio(-1);
   }
   preempt_to(to, false);
}

// voluntary yield: let somebody else run if anybody can
void give_way()
{
   Th* t = cur;
   t->ev++; gev++;
   int to = -1;
   if (C.mode == S_LIST) {
      const Switch* w = list_entry(t);
      if (w && w->to >= 0 && w->to < nth && th[w->to].state == T_RUNNABLE) to = w->to;
      else to = choose_low(t->id);
   } else if (C.mode == S_SEQ) to = choose_low(t->id);
   else to = choose_random(t->id);
   // those who could run are suspended: only a lasting wait gets them to run
   if (to >= 0 && !can_run(th[to]) && C.mode != S_SEQ) return;
   preempt_to(to, false);
}

// ------------------------------------------------------------------ vector clocks
inline void vc_join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }

struct SyncObj {
   uintptr_t key;
   VC vc;
   int owner, count, readers;
   int once_state; // 0 new 1 running 2 done
   uint32_t signals;
   uint8_t rd[MAXT];
};
constexpr uint32_t NSYNC = 4096;
SyncObj* sync_tab;
uint32_t heap_sync[NSYNC]; // those inside the simulated heap
uint32_t n_heap_sync;
SyncObj* sync_of(const void* p)
{
   uint32_t h = mix((uintptr_t)p) & (NSYNC - 1);
   for (uint32_t i = 0; i < NSYNC; i++) {
      SyncObj* o = &sync_tab[(h + i) & (NSYNC - 1)];
      if (o->key == (uintptr_t)p) return o;
      if (!o->key) {
         memset(o, 0, sizeof *o); o->key = (uintptr_t)p; o->owner = -1;
         if (o->key - SIM_BASE < SIM_SIZE && n_heap_sync < NSYNC) heap_sync[n_heap_sync++] = (uint32_t)(o - sync_tab);
         return o;
      }
   }
   fatal("internal", "too many synchronisation objects");
}

// ------------------------------------------------------------------ race detector
struct Cell {
   uint64_t key;       // address >> 3
   uint8_t wtid, wmask;
   uint32_t wclk;
   uint32_t wpc;
   uint32_t rclk[MAXT];
   uint8_t rmask[MAXT];
};
constexpr uint32_t NCELL = 1 << 15;
Cell* cells;
uint32_t ncells;

Cell* cell_of(uint64_t k)
{
   uint32_t h = mix(k) & (NCELL - 1);
   for (uint32_t i = 0; i < 64; i++) {
      Cell* c = &cells[(h + i) & (NCELL - 1)];
      if (c->key == k) return c;
      if (!c->key) {
         if (ncells > NCELL * 3 / 4) return nullptr;
         ncells++;
         memset(c, 0, sizeof *c); c->key = k; c->wtid = 0xff;
         return c;
      }
   }
   return nullptr;
}

// the memory gets a new owner
void forget_accesses(uintptr_t a, size_t n)
{
   for (uint64_t k = a >> 3; k <= (a + n - 1) >> 3; k++) {
      const uint32_t h = mix(k) & (NCELL - 1);
      for (uint32_t i = 0; i < 64; i++) {
         Cell* c = &cells[(h + i) & (NCELL - 1)];
         if (!c->key) break;
         if (c->key == k) { memset(c, 0, sizeof *c); c->key = k; c->wtid = 0xff; break; }
      }
   }
   for (uint32_t i = 0; i < n_heap_sync; i++) {
      SyncObj* o = &sync_tab[heap_sync[i]];
      if (o->key - a < n) { const uintptr_t key = o->key; memset(o, 0, sizeof *o); o->key = key; o->owner = -1; }
   }
}

[[gnu::noinline]] void report_race(uintptr_t a, bool wr, uintptr_t pc, int other, bool owr, uintptr_t opc)
{
   for (int i = 0; i < S->nviol; i++) if (!strcmp(S->viol[i].kind, "race") && S->viol[i].addr == a) return;
   violation("race", "%s by thread %d conflicts with earlier unsynchronised %s by thread %d at the same address", wr ? "write" : "read", cur->id, owr ? "write" : "read", other);
   if (S->nviol > 0) { Viol& v = S->viol[S->nviol - 1]; v.pc = pc; v.addr = a; v.pc2 = opc; }
}

void race_check(uintptr_t a, size_t n, bool wr, uintptr_t pc)
{
   Th* t = cur;
   while (n) {
      const uint64_t k = a >> 3;
      const unsigned o = a & 7, l = n < 8 - o ? n : 8 - o;
      const uint8_t m = ((1u << l) - 1) << o;
      Cell* c = cell_of(k);
      if (!c) return;
      if (c->wtid != 0xff && c->wtid != t->id && (c->wmask & m) && c->wclk > t->vc[c->wtid]) report_race(a, wr, pc, c->wtid, true, c->wpc);
      if (wr) {
         for (int i = 0; i < nth; i++)
            if (i != t->id && (c->rmask[i] & m) && c->rclk[i] > t->vc[i]) { report_race(a, wr, pc, i, false, 0); break; }
         if (c->wtid == t->id && c->wclk == t->vc[t->id]) c->wmask |= m;
         else { c->wtid = t->id; c->wclk = t->vc[t->id]; c->wmask = m; }
         c->wpc = pc;
      } else {
         if (c->rclk[t->id] == t->vc[t->id]) c->rmask[t->id] |= m;
         else { c->rclk[t->id] = t->vc[t->id]; c->rmask[t->id] = m; }
      }
      a += l; n -= l;
   }
}

void heap_check(uintptr_t a, size_t n, bool wr, uintptr_t pc)
{
   uint32_t lo = blo, hi = bhi;
   while (lo < hi) { const uint32_t m = (lo + hi) / 2; if (blocks[m] <= a) lo = m + 1; else hi = m; }
   const char* what = nullptr;
   const Hdr* h = nullptr;
   if (lo == blo) what = "heap-overflow";
   else {
      h = (const Hdr*)blocks[lo - 1] - 1;
      if (a + n > blocks[lo - 1] + h->size) what = "heap-overflow";
      else if (h->magic == M_FREED) what = "use-after-free";
   }
   if (!what) return;
   violation(what, "%s of %zu bytes at offset %lld of a heap block of %llu bytes", wr ? "write" : "read", n,
             h ? (long long)(a - (uintptr_t)(h + 1)) : 0ll, h ? (unsigned long long)h->size : 0ull);
   if (S->nviol > 0) { Viol& v = S->viol[S->nviol - 1]; v.pc = pc; v.addr = a; }
   S->total_events = gev;
   finish_child(42);
}

inline void access(uintptr_t a, size_t n, bool wr, uintptr_t pc)
{
   Th* t = cur;
   if (!t || !active) return;
   if (a >= t->stk_lo && a < t->stk_hi && !t->kids) return; // own stack (and TLS), unless shared with a thread made for the operation
   if (a >= exe_lo && a < exe_hi) {
      for (int i = 0; i < nskip; i++) if (a >= skip_lo[i] && a < skip_hi[i]) return;
   } else if (a >= SIM_BASE && a < SIM_BASE + SIM_SIZE) {
      ;
   } else if (a >= STACK_BASE && a < STACK_BASE + MAXT * STACK_STRIDE) {
      ;
   } else {
      if (a < 4096) fatal("null-access", "%s of %zu bytes at address %#zx", wr ? "write" : "read", n, (size_t)a);
      return;
   }
   event(wr ? EV_WRITE : EV_READ, a, C.p_shared);
   if (is_sim((void*)a)) heap_check(a, n, wr, pc);
   if (C.race_check) race_check(a, n, wr, pc);
}

void step_overflow()
{
   Th* t = cur;
   fatal("no-progress", "operation still running after %llu steps", (unsigned long long)(t->steps - t->op_steps0));
}

void* trampoline(void* p)
{
   Th* t = (Th*)p;
   // own stack range
   t->stk_lo = STACK_BASE + t->id * STACK_STRIDE;
   t->stk_hi = t->stk_lo + STACK_SIZE;
   wait_go(&t->go);
   cur = t;
   if (!t->foreign) S->cur_op[t->rid] = -1;
   if (t->fn) t->fn(t->arg);
   else { t->inlib = 1; t->ret = t->fn2(t->arg); }
   // finished: thread-local objects of the code under test go first
   t->inlib = 1;
   while (t->ndtor > 0) { t->ndtor--; t->dtor[t->ndtor](t->dtor_arg[t->ndtor]); }
   t->inlib = 0;
   t->ev++; gev++; S->events[EV_EXIT]++;
   if (t->locks > 0) violation("lock-held", "thread finished while holding %d lock(s)", t->locks);
   t->state = T_DONE;
   { SyncObj* o = sync_of(t); vc_join(o->vc, t->vc); }
   wake_all(t);
   S->total_steps += t->steps;
   int to = choose_forced(t);
   if (to < 0) {
      for (int i = 0; i < nth; i++) if (th[i].state == T_BLOCKED) deadlock();
      cur = nullptr;
      give_go(&controller_go);
      return nullptr;
   }
   log_switch(t->id, t->ev, to);
   cur = nullptr;
   running = to;
   give_go(&th[to].go);
   return nullptr;
}

int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

int make_thread(Th*& out)
{
   if (nth >= MAXT) fatal("internal", "too many threads");
   Th* t = &th[nth];
   memset(t, 0, sizeof *t);
   t->id = nth++;
   t->root = t;
   t->state = T_RUNNABLE;
   t->op = -1;
   for (int i = 0; i < t->id; i++) if (th[i].state == T_DONE) vc_join(t->vc, th[i].vc);
   t->vc[t->id] = 1;
   t->limit_at = ~0ull;
   t->forced_at = 20000000;
   t->prio = 1000 + (C.mode == S_PCT ? rnd() % 1000000 : 0);
   out = t;
   return t->id;
}

void start_thread(Th* t)
{
   void* base = (void*)(STACK_BASE + t->id * STACK_STRIDE);
   // in another environment the stack, and with it the identity of the thread, is elsewhere
   const size_t size = STACK_SIZE - (C.env_seed ? mix(C.env_seed * 131 + t->id) % 256 * 4096 : 0);
   if (mmap(base, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != base)
      fatal("internal", "cannot map a stack");
   if (C.stack_poison) fill((char*)base + size - (96 << 10), 92 << 10, C.stack_poison);
   if (!real_pthread_create) real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
   pthread_attr_t at;
   pthread_attr_init(&at);
   pthread_attr_setstack(&at, base, size);
   const bool a = active;
   Th* c = cur;
   if (c) c->nosim++;
   if (real_pthread_create(&t->pt, &at, trampoline, t)) fatal("internal", "cannot create a thread");
   if (c) c->nosim--;
   active = a;
   pthread_attr_destroy(&at);
}

} // anonymous namespace

// ------------------------------------------------------------------ public
void init_process()
{
   exe_lo = (uintptr_t)&__data_start;
   exe_hi = (uintptr_t)&_end;
}
void skip_range(const void* p, size_t n) { if (nskip < 8) { skip_lo[nskip] = (uintptr_t)p; skip_hi[nskip] = (uintptr_t)p + n; nskip++; } }

void reset(Shared* s, const Config& c)
{
   S = s; C = c; rt_pon = c.stack_poison != 0;
   S->phase = 0; S->nviol = 0; S->noted = 0;
   S->trace_hash = 0xcbf29ce484222325ull; S->shape_hash = 0;
   memset(S->events, 0, sizeof S->events);
   S->total_steps = S->total_events = S->shared_events = 0;
   S->nswitch = S->preempt = 0;
   memset(S->fired, 0, sizeof S->fired);
   S->env_calls = 0; S->live_end = 0; S->live_blocks_end = 0;
   S->cap_len = S->out_len = S->cap_overflow = S->nonsim_out = 0;
   for (int i = 0; i < MAXT; i++) { S->cur_op[i] = -1; for (int k = 0; k < MAXOPT && S->rec[i][k].done; k++) memset(&S->rec[i][k], 0, sizeof(OpRec)); }
   nth = nplan = 0; nphase = 0; gev = 0; active = false; running = -1; controller_go = 0; vclock = 0; wallclock = 0;
   rng_s = mix(c.seed + 0x1234567);
   if (!sync_tab) {
      sync_tab = (SyncObj*)mmap(nullptr, sizeof(SyncObj) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      cells = (Cell*)mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   }
   if (c.mode == S_PCT) {
      pct_based = false;
      pct_n = c.pct_depth < 64 ? c.pct_depth : 64; pct_i = 0; pct_low = 1000;
      for (uint32_t i = 0; i < pct_n; i++) pct_point[i] = 1 + rnd() % (c.pct_horizon ? c.pct_horizon : 1);
      for (uint32_t i = 1; i < pct_n; i++)
         for (uint32_t k = i; k > 0 && pct_point[k] < pct_point[k - 1]; k--) { uint64_t x = pct_point[k]; pct_point[k] = pct_point[k - 1]; pct_point[k - 1] = x; }
   }
   if (c.mode == S_LIST) {
      uint32_t cnt[MAXT] = {0};
      for (uint32_t i = 0; i < c.nlist; i++) if (c.list[i].tid >= 0 && c.list[i].tid < MAXT) cnt[c.list[i].tid]++;
      for (int t = 0; t < MAXT; t++) {
         sw_of[t] = (uint32_t*)infra_alloc((cnt[t] + 1) * sizeof(uint32_t), 16);
         nsw_of[t] = 0;
      }
      for (uint32_t i = 0; i < c.nlist; i++) { const int t = c.list[i].tid; if (t >= 0 && t < MAXT) sw_of[t][nsw_of[t]++] = i; }
   }
}

int spawn(void (*fn)(void*), void* arg)
{
   Th* t;
   make_thread(t);
   t->fn = fn; t->arg = arg;
   t->rid = nplan++;
   start_thread(t);
   return t->rid;
}

void run_all()
{
   const int ph = nphase++;
   if (C.mode == S_PCT)
   {
      // the priority changes belong to the first phase with several threads (or the first one)
      int n = 0;
      for (int i = 0; i < nth; i++) n += th[i].state == T_RUNNABLE;
      if (!pct_based && n > 1) { pct_based = true; for (uint32_t i = pct_i; i < pct_n; i++) pct_point[i] += gev; }
   }
   int first = -1;
   if (C.mode == S_RANDOM) first = choose_random(-1);
   else if (C.mode == S_PCT) first = choose_prio(-1);
   else if (C.mode == S_LIST)
      for (uint32_t i = 0; i < C.nlist; i++)
         if (C.list[i].tid < 0 && (int)C.list[i].ev == ph) {
            if (C.list[i].to >= 0 && C.list[i].to < nth && th[C.list[i].to].state == T_RUNNABLE) first = C.list[i].to;
            break;
         }
   if (first < 0) first = choose_low(-1);
   if (first < 0) return;
   S->phase = 1;
   log_switch(-1, ph, first);
   active = true;
   running = first;
   give_go(&th[first].go);
   wait_go(&controller_go);
   active = false;
   S->total_events = gev;
   S->live_end = sim_live; S->live_blocks_end = sim_live_blocks;
   if (ph < 8 && !S->noted) { S->round_live[ph] = sim_live; S->round_blocks[ph] = sim_live_blocks; }
}

void note_live(int k) { if (k > 0 && k < 8) { S->noted = 1; S->round_live[k] = sim_live; S->round_blocks[k] = sim_live_blocks; } }

// forward: the time of day or, with the process, all clocks; backward: the time of day
static void clock_jump(const Fault& f)
{
   const int64_t d = (int64_t)(int32_t)f.arg * 1000000000ll;
   if (d < 0 || f.len > 1) wallclock += d; else vclock += d;
   count_fired(F_CLOCK);
}
void op_begin(int op, uint64_t limit)
{
   Th* t = cur;
   if (!t) return;
   t->op = op; S->cur_op[t->rid] = op;
   t->nalloc = t->nwrite = t->nlink = t->nclock = t->injected = 0;
   t->op_steps0 = t->steps; t->op_live = 0;
   t->limit_at = t->steps + (limit ? limit : C.step_limit);
   t->forced_at = t->steps + 20000000;
   t->res_off = t->res_len = 0;
   t->suppress_fault = false;
   t->stall_lock = 0;
   th_hash(0x0b00ull << 32 | (uint64_t)t->id << 20 | op);
   for (uint32_t i = 0; i < C.nfaults; i++) {
      const Fault& f = C.faults[i];
      if (f.thread != t->rid || f.op != op) continue;
      if (f.kind == F_CLOCK && f.n == 0) clock_jump(f);
      if (f.kind == F_STALL && nth > 1) {
         if (f.arg) { t->stall_lock = f.arg; t->stall_n = f.n; } // later, inside a critical section
         else { t->stalled_until = gev + f.n; count_fired(F_STALL); }
      }
   }
   event(EV_FUNC, 0, C.p_shared);
}

void op_end()
{
   Th* t = cur;
   if (!t) return;
   if (t->op >= 0 && t->op < MAXOPT) {
      OpRec& r = S->rec[t->rid][t->op];
      r.off = t->res_off; r.len = t->res_len;
      r.nalloc = t->nalloc; r.nwrite = t->nwrite; r.nlink = t->nlink; r.injected = t->injected;
      r.steps = t->steps - t->op_steps0; r.live = t->op_live; r.done = 1;
   }
   if (t->locks > 0) violation("lock-held", "operation returned while %d lock(s) are still held", t->locks);
   for (int i = 0; i < nth; i++)
      if (th[i].foreign && th[i].creator_tid == t->rid && th[i].creator_op == t->op && th[i].state != T_DONE) violation("thread-left", "a thread started by the operation is still running when it returns");
   t->limit_at = ~0ull;
   t->op = -1; S->cur_op[t->rid] = -1;
}

void op_result(const void* p, size_t n)
{
   Th* t = cur;
   if (!t || S->out_len + n > OUTBUF) { fatal("internal", "result buffer full"); }
   t->res_off = S->out_len; t->res_len = n;
   memcpy(S->out + S->out_len, p, n);
   S->out_len += n;
   uint64_t h = 0;
   for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 0x100000001b3ull;
   th_hash(h);
}

Lib::Lib() { if (cur) cur->inlib++; }
Lib::~Lib() { if (cur) cur->inlib--; }
NoLib::NoLib() : s(0) { if (cur) cur->nosim++; }
NoLib::~NoLib() { if (cur) cur->nosim--; }

void violation(const char* kind, const char* fmt, ...)
{
   if (!S || S->nviol >= MAXVIOL) return;
   Viol& v = S->viol[S->nviol];
   memset(&v, 0, sizeof v);
   snprintf(v.kind, sizeof v.kind, "%s", kind);
   v.tid = cur ? cur->rid : -1; v.op = cur ? cur->op : -1;
   va_list ap; va_start(ap, fmt);
   vsnprintf(v.text, sizeof v.text, fmt, ap);
   va_end(ap);
   S->nviol++;
}

void fatal(const char* kind, const char* fmt, ...)
{
   if (!S) { fprintf(stderr, "sim: %s\n", fmt); _exit(96); }
   if (S->nviol >= MAXVIOL) S->nviol = MAXVIOL - 1;
   Viol& v = S->viol[S->nviol];
   memset(&v, 0, sizeof v);
   snprintf(v.kind, sizeof v.kind, "%s", kind);
   v.tid = cur ? cur->rid : -1; v.op = cur ? cur->op : -1;
   v.pc = (uintptr_t)__builtin_return_address(0);
   va_list ap; va_start(ap, fmt);
   vsnprintf(v.text, sizeof v.text, fmt, ap);
   va_end(ap);
   S->nviol++;
   S->total_events = gev;
   for (int i = 0; i < nth; i++) if (th[i].state != T_DONE) S->total_steps += th[i].steps;
   finish_child(42);
}

void crash(int sig, uint64_t pc, uint64_t addr)
{
   if (!S) _exit(96);
   violation("crash", "signal %d (%s) at address %#llx", sig, sig == 6 ? "abort or terminate" : sig == 11 ? "segmentation fault" : sig == 8 ? "arithmetic exception" : "fatal", (unsigned long long)addr);
   if (S->nviol > 0) S->viol[S->nviol - 1].pc = pc;
   S->total_events = gev;
   for (int i = 0; i < nth; i++) if (th[i].state != T_DONE) S->total_steps += th[i].steps;
   finish_child(42);
}

bool link_fault()
{
   Th* t = cur;
   if (!t) return false;
   event(EV_LINK, 0, C.p_shared);
   t->root->nlink++;
   if (find_fault(F_LINK, t->rid, t->op, t->root->nlink)) { count_fired(F_LINK); return true; }
   return false;
}
bool have_fault(int kind, uint32_t* arg)
{
   Th* t = cur;
   if (!t) return false;
   const Fault* f = find_fault(kind, t->rid, t->op, 1);
   if (f && arg) *arg = f->arg;
   return f != nullptr;
}
void fired(int kind) { count_fired(kind); }
int sink_fault(uint32_t* arg)
{
   Th* t = cur;
   if (!t || !active) return -1;
   event(EV_IO, 0, C.p_shared);
   t->root->nwrite++;
   for (int k = F_SINK_EOF; k <= F_SINK_SYNC; k++) {
      const Fault* f = find_fault(k, t->rid, t->op, t->root->nwrite);
      if (f) { if (arg) *arg = f->arg; return k; }
   }
   return -1;
}
int self() { return cur ? cur->rid : -1; }
int cur_op() { return cur ? cur->op : -1; }
int held_locks() { return cur ? cur->locks : 0; }
uint64_t steps() { return cur ? cur->steps : 0; }
int64_t live_bytes() { return sim_live; }
uint32_t live_blocks() { return sim_live_blocks; }
uint64_t hash_state() { return S->trace_hash; }
bool in_sim_heap(const void* p) { return is_sim(p); }

__attribute__((noinline)) void scribble_stack()
{
   if (!C.stack_poison) return;
   uint64_t b[6144];
   for (int i = 0; i < 6144; i++) b[i] = C.stack_poison;
   __asm__ volatile("" : : "r"(b) : "memory");
}

void capture(int stream, const char* s, size_t n)
{
   const int hdr[4] = {self(), cur_op(), stream, (int)n};
   if (S->cap_len + sizeof hdr + n > CAPBUF) { S->cap_overflow++; return; }
   memcpy(S->cap + S->cap_len, hdr, sizeof hdr);
   memcpy(S->cap + S->cap_len + sizeof hdr, s, n);
   S->cap_len += sizeof hdr + n;
   uint64_t h = 0;
   for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 0x100000001b3ull;
   th_hash(h);
}

} // namespace rt

using namespace rt;

// ===================================================================== hooks
template <class F> static F real(F& f, const char* name)
{
   if (!f) f = (F)dlsym(RTLD_NEXT, name);
   return f;
}
extern "C" {

__attribute__((noinline)) void rt_trace_pc()
{
   Th* t = cur;
   if (!t) return;
   const uint64_t s = ++t->steps;
   if (__builtin_expect(s >= t->limit_at, 0)) step_overflow();
   if (__builtin_expect(s >= t->forced_at, 0)) { // fairness: nobody keeps the processor forever
      t->forced_at = s + 20000000;
      if (nth > 1 && active) { const int n = t->id + 1; int to = -1; for (int i = 0; i < nth && to < 0; i++) if (th[(n + i) % nth].state == T_RUNNABLE && (n + i) % nth != t->id) to = (n + i) % nth; preempt_to(to, true); }
   }
}

#define PC ((uintptr_t)__builtin_return_address(0))
void __tsan_init() {}
// array indices and missing return values (see BOUNDS in check.py)
struct SrcLoc { const char* file; uint32_t line, col; };
static void rt_bad_code(const char* kind, const SrcLoc* l, long long index, uintptr_t pc)
{
   if (!cur || !active) return;
   const char* f = l->file ? strrchr(l->file, '/') : nullptr;
   violation(kind, "%s:%u, index %lld", f ? f + 1 : l->file ? l->file : "?", l->line, index);
   if (S->nviol > 0) S->viol[S->nviol - 1].pc = pc;
   S->total_events = gev;
   finish_child(42);
}
void __ubsan_handle_out_of_bounds(SrcLoc* l, uintptr_t index) { rt_bad_code("out-of-bounds", l, (long long)index, (uintptr_t)__builtin_return_address(0)); }
void __ubsan_handle_missing_return(SrcLoc* l) { rt_bad_code("missing-return", l, 0, (uintptr_t)__builtin_return_address(0)); }
void _gfortran_runtime_error_at(const char* where, const char* what, ...)
{
   const SrcLoc l = {where, 0, 0};
   if (cur) rt_bad_code("out-of-bounds", &l, 0, (uintptr_t)__builtin_return_address(0));
   dprintf(2, "%s: %s\n", where, what);
   _exit(2);
}

// The memory below the stack pointer is filled with the pattern of the run when
// a function begins, before it ends and in every basic block: a
// local variable that was never set has another value in every environment. The
// entry points are thunks, so that only a return address remains in between.
static inline size_t poison_bytes(const Th* t, uintptr_t sp)
{
   const uintptr_t lo = sp - C.stack_poison_bytes;
   if (lo <= t->stk_lo + 65536 || sp >= t->stk_hi) return 0;
   rt_pval = C.stack_poison;
   return C.stack_poison_bytes & ~7u;
}
size_t rt_func_entry(uintptr_t sp)
{
   Th* t = cur;
   if (!t || !active) return 0;
   event(EV_FUNC, 0, C.p_func);
   return C.stack_poison ? poison_bytes(t, sp) : 0;
}
size_t rt_func_exit(uintptr_t sp)
{
   Th* t = cur;
   return t && active && C.stack_poison ? poison_bytes(t, sp) : 0;
}
size_t rt_block(uintptr_t sp)
{
   rt_trace_pc();
   Th* t = cur;
   return t && active && C.stack_poison ? poison_bytes(t, sp) : 0;
}
#define THUNK(name, impl, before) \
   __asm__(".text\n.globl " name "\n.type " name ",@function\n" name ":\n.cfi_startproc\n" before \
           "mov %rsp, %rdi\nsub $8, %rsp\n.cfi_adjust_cfa_offset 8\ncall " impl "\nadd $8, %rsp\n.cfi_adjust_cfa_offset -8\n" \
           "test %rax, %rax\nje 2f\nmov %rax, %rcx\nshr $3, %rcx\nmov %rsp, %rdi\nsub %rax, %rdi\nmov rt_pval(%rip), %rax\nrep stosq\n2: ret\n.cfi_endproc\n.size " name ",.-" name "\n")
THUNK("__tsan_func_entry", "rt_func_entry", "");
THUNK("__tsan_func_exit", "rt_func_exit", "");
THUNK("__sanitizer_cov_trace_pc", "rt_block", "cmpl $0, rt_pon(%rip)\njne 1f\njmp rt_trace_pc\n1:\n");

#define ACC(n) \
   void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
   void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
   void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
   void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
   void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
   void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
   void __tsan_unaligned_volatile_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
   void __tsan_unaligned_volatile_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
   void __tsan_read##n##_pc(void* p, void*) { access((uintptr_t)p, n, false, PC); } \
   void __tsan_write##n##_pc(void* p, void*) { access((uintptr_t)p, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { if (n) access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }
void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true, PC); }

// ---- atomics: executed one at a time; clocks follow the stated memory order
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ };
static void at_pre(const volatile void* a, size_t n, bool)
{
   (void)n;
   event(EV_ATOMIC, (uintptr_t)a, C.p_shared);
   // a thread that asks the same atomic again and again is spinning: somebody
   // else gets the processor, as under any fair scheduler
   Th* t = cur;
   if (!t || !active || nth < 2) return;
   if (t->spin_on != a) { t->spin_on = a; t->spins = 0; }
   else if (++t->spins >= 64) { t->spins = 0; give_way(); }
}
static void at_acq(const volatile void* a, int mo)
{
   if (!cur || !active) return;
   if (mo == MO_RELAXED || mo == MO_RELEASE) { vc_join(cur->relvc, sync_of((void*)a)->vc); return; }
   vc_join(cur->vc, sync_of((void*)a)->vc);
}
static VC fence_rel[MAXT];
static void at_rel(const volatile void* a, int mo, bool rmw)
{
   if (!cur || !active) return;
   SyncObj* o = sync_of((void*)a);
   if (mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ) {
      if (!rmw) memset(o->vc, 0, sizeof o->vc);
      vc_join(o->vc, cur->vc);
      cur->vc[cur->id]++;
   } else {
      if (!rmw) memset(o->vc, 0, sizeof o->vc);
      vc_join(o->vc, fence_rel[cur->id]);
   }
}
#define ATOMIC(bits, T) \
   T __tsan_atomic##bits##_load(const volatile T* a, int mo) { at_pre(a, sizeof(T), false); T v = *a; at_acq(a, mo); return v; } \
   void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_rel(a, mo, false); *a = v; wake_all((void*)a); } \
   T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = v; return o; } \
   T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = o + v; return o; } \
   T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = o - v; return o; } \
   T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = o & v; return o; } \
   T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = o | v; return o; } \
   T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = o ^ v; return o; } \
   T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = ~(o & v); return o; } \
   int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) \
   { at_pre(a, sizeof(T), true); if (*a == *c) { at_acq(a, mo); at_rel(a, mo, true); *a = v; return 1; } at_acq(a, fmo); *c = *a; return 0; } \
   int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) \
   { at_pre(a, sizeof(T), true); if (*a == *c) { at_acq(a, mo); at_rel(a, mo, true); *a = v; return 1; } at_acq(a, fmo); *c = *a; return 0; } \
   T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) \
   { at_pre(a, sizeof(T), true); T o = *a; if (o == c) { at_acq(a, mo); at_rel(a, mo, true); *a = v; } else at_acq(a, fmo); return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, __uint128_t)
void __tsan_atomic_thread_fence(int mo)
{
   if (!cur || !active) return;
   if (mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ) vc_join(cur->vc, cur->relvc);
   if (mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ) { memcpy(fence_rel[cur->id], cur->vc, sizeof(VC)); cur->vc[cur->id]++; }
}
void __tsan_atomic_signal_fence(int) {}

// ===================================================================== locks
static bool simt() { return cur && active; }

static void acquire(SyncObj* o) { vc_join(cur->vc, o->vc); }
static void release(SyncObj* o) { memset(o->vc, 0, sizeof o->vc); vc_join(o->vc, cur->vc); cur->vc[cur->id]++; }
static void release_join(SyncObj* o) { vc_join(o->vc, cur->vc); cur->vc[cur->id]++; }

static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

static void stall_in_lock()
{
   if (!cur->stall_lock || --cur->stall_lock || nth < 2) return;
   cur->stalled_until = gev + cur->stall_n;
   count_fired(F_STALL);
   event(EV_FUNC, 0, 0);
}
static int sim_lock(pthread_mutex_t* m, bool try_, bool timed)
{
   event(EV_LOCK, (uintptr_t)m, C.p_shared * 2 > 60000 ? 60000 : C.p_shared * 2);
   SyncObj* o = sync_of(m);
   if (o->owner == cur->id && o->count > 0) {
      if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
      if (try_) return EBUSY;
      if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
      if (timed) return ETIMEDOUT;
      fatal("deadlock", "thread %d locks a mutex that it already holds", cur->id);
   }
   while (o->count > 0) {
      if (try_) return EBUSY;
      // the holder may have been suspended for longer than anyone waits
      if (timed && (choose_low(cur->id) < 0 || mix(C.seed * 977 + cur->id * 31 + ++cur->timed) % 4 == 0)) { vclock += 1000000000; return ETIMEDOUT; }
      block(m, 0);
   }
   o->owner = cur->id; o->count = 1;
   cur->locks++;
   acquire(o);
   stall_in_lock();
   return 0;
}
static int sim_unlock(pthread_mutex_t* m)
{
   SyncObj* o = sync_of(m);
   if (o->count == 0 || o->owner != cur->id) {
      if (mkind(m) != PTHREAD_MUTEX_NORMAL) return EPERM;
      fatal("bad-unlock", "thread %d unlocks a mutex it does not hold", cur->id);
   }
   if (--o->count > 0) return 0;
   o->owner = -1;
   cur->locks--;
   release(o);
   wake_all(m);
   event(EV_UNLOCK, (uintptr_t)m, C.p_shared);
   return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
   static int (*r)(pthread_mutex_t*);
   return simt() ? sim_lock(m, false, false) : real(r, "pthread_mutex_lock")(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
   static int (*r)(pthread_mutex_t*);
   return simt() ? sim_lock(m, true, false) : real(r, "pthread_mutex_trylock")(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t)
{
   static int (*r)(pthread_mutex_t*, const struct timespec*);
   return simt() ? sim_lock(m, false, true) : real(r, "pthread_mutex_timedlock")(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t)
{
   static int (*r)(pthread_mutex_t*, clockid_t, const struct timespec*);
   return simt() ? sim_lock(m, false, true) : real(r, "pthread_mutex_clocklock")(m, c, t);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
   static int (*r)(pthread_mutex_t*);
   return simt() ? sim_unlock(m) : real(r, "pthread_mutex_unlock")(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
   static int (*r)(pthread_mutex_t*);
   if (!simt()) return real(r, "pthread_mutex_destroy")(m);
   SyncObj* o = sync_of(m);
   if (o->count) violation("lock-held", "a locked mutex is destroyed");
   memset(o->vc, 0, sizeof o->vc); o->count = 0; o->owner = -1;
   return 0;
}

// reader/writer locks
static int sim_rw(pthread_rwlock_t* m, bool wr, bool try_)
{
   event(EV_LOCK, (uintptr_t)m, C.p_shared * 2 > 60000 ? 60000 : C.p_shared * 2);
   SyncObj* o = sync_of(m);
   while (wr ? (o->count > 0 || o->readers > 0) : o->count > 0) {
      if (try_) return EBUSY;
      if (o->count && o->owner == cur->id) fatal("deadlock", "thread %d locks a shared lock that it already holds", cur->id);
      if (wr && o->rd[cur->id]) fatal("deadlock", "thread %d upgrades a shared lock that it already holds", cur->id);
      block(m, 0);
   }
   if (wr) { o->count = 1; o->owner = cur->id; } else { o->readers++; o->rd[cur->id]++; }
   cur->locks++;
   acquire(o);
   stall_in_lock();
   return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { static int (*r)(pthread_rwlock_t*); return simt() ? sim_rw(m, false, false) : real(r, "pthread_rwlock_rdlock")(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { static int (*r)(pthread_rwlock_t*); return simt() ? sim_rw(m, true, false) : real(r, "pthread_rwlock_wrlock")(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { static int (*r)(pthread_rwlock_t*); return simt() ? sim_rw(m, false, true) : real(r, "pthread_rwlock_tryrdlock")(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { static int (*r)(pthread_rwlock_t*); return simt() ? sim_rw(m, true, true) : real(r, "pthread_rwlock_trywrlock")(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
   static int (*r)(pthread_rwlock_t*);
   if (!simt()) return real(r, "pthread_rwlock_unlock")(m);
   SyncObj* o = sync_of(m);
   if (o->count && o->owner == cur->id) { o->count = 0; o->owner = -1; }
   else if (o->rd[cur->id]) { o->rd[cur->id]--; o->readers--; }
   else fatal("bad-unlock", "thread %d unlocks a shared lock it does not hold", cur->id);
   cur->locks--;
   release_join(o);
   wake_all(m);
   event(EV_UNLOCK, (uintptr_t)m, C.p_shared);
   return 0;
}

// condition variables
static int sim_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
   event(EV_WAIT, (uintptr_t)c, C.p_shared);
   SyncObj* o = sync_of(m);
   SyncObj* oc = sync_of(c);
   const int cnt = o->count;
   if (!cnt || o->owner != cur->id) fatal("bad-wait", "condition wait without holding the mutex");
   o->count = 0; o->owner = -1; cur->locks--;
   release(o); wake_all(m);
   int rc = 0;
   if (timed) { // a timed wait may always time out: let others run, then time out
      give_way();
      vclock += 1000000; rc = ETIMEDOUT;
   } else block(c, 2);
   acquire(oc);
   while (o->count > 0) block(m, 0);
   o->owner = cur->id; o->count = cnt; cur->locks++;
   acquire(o);
   return rc;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { static int (*r)(pthread_cond_t*, pthread_mutex_t*); return simt() ? sim_cond_wait(c, m, false) : real(r, "pthread_cond_wait")(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { static int (*r)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); return simt() ? sim_cond_wait(c, m, true) : real(r, "pthread_cond_timedwait")(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { static int (*r)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); return simt() ? sim_cond_wait(c, m, true) : real(r, "pthread_cond_clockwait")(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t* c)
{
   static int (*r)(pthread_cond_t*);
   if (!simt()) return real(r, "pthread_cond_signal")(c);
   release_join(sync_of(c)); wake_one(c); event(EV_UNLOCK, (uintptr_t)c, C.p_shared);
   return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
   static int (*r)(pthread_cond_t*);
   if (!simt()) return real(r, "pthread_cond_broadcast")(c);
   release_join(sync_of(c)); wake_all(c); event(EV_UNLOCK, (uintptr_t)c, C.p_shared);
   return 0;
}

// futexes: what is left of them are the waits inside std::future and friends
long syscall(long n, ...) noexcept
{
   va_list ap;
   va_start(ap, n);
   const long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
   va_end(ap);
   if (n == SYS_futex && cur && active && cur->inlib > 0 && cur->nosim == 0) {
      const int op = b & 0x7f;
      volatile int* w = (volatile int*)a;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
         event(EV_WAIT, (uintptr_t)w, C.p_shared);
         if (*w != (int)c) { acquire(sync_of((void*)w)); errno = EAGAIN; return -1; }
         if (d) { give_way(); vclock += 1000000; errno = ETIMEDOUT; return -1; }
         block((void*)w, 2);
         acquire(sync_of((void*)w));
         return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
         release_join(sync_of((void*)w));
         wake_all((void*)w);
         event(EV_UNLOCK, (uintptr_t)w, C.p_shared);
         return 1;
      }
   }
   return raw_syscall(n, a, b, c, d, e, f);
}

// one-time initialisation
} // extern "C"
namespace { struct OnceGuard { SyncObj* o; const void* p; bool ok = false; ~OnceGuard() { if (!ok) { o->once_state = 0; o->owner = -1; release(o); wake_all(p); } } }; }
extern "C" {
int pthread_once(pthread_once_t* c, void (*f)(void))
{
   static int (*r)(pthread_once_t*, void (*)(void));
   if (!simt()) return real(r, "pthread_once")(c, f);
   event(EV_ONCE, (uintptr_t)c, C.p_shared * 2 > 60000 ? 60000 : C.p_shared * 2);
   SyncObj* o = sync_of(c);
   if (*(volatile int*)c == 2) { acquire(o); return 0; } // done before or during the simulation
   if (o->once_state == 2 && *(volatile int*)c == 0) o->once_state = 0; // a new flag at the same address
   while (o->once_state == 1) {
      if (o->owner == cur->id) fatal("deadlock", "recursive one-time initialisation");
      block(c, 1);
   }
   if (o->once_state == 2) { acquire(o); return 0; }
   o->once_state = 1; o->owner = cur->id;
   acquire(o); // an earlier attempt may have failed
   OnceGuard g{o, c};
   f();
   g.ok = true;
   o->once_state = 2; o->owner = -1;
   *(volatile int*)c = 2;
   release(o);
   wake_all(c);
   return 0;
}
int __cxa_guard_acquire(uint64_t* g)
{
   volatile unsigned char* b = (volatile unsigned char*)g;
   if (!simt()) { if (b[0]) return 0; b[1] = 1; return 1; }
   event(EV_ONCE, (uintptr_t)g, C.p_shared * 2 > 60000 ? 60000 : C.p_shared * 2);
   SyncObj* o = sync_of(g);
   while (!b[0] && b[1]) {
      if (o->owner == cur->id) fatal("deadlock", "recursive initialisation of a static variable");
      block(g, 1);
   }
   if (b[0]) { acquire(o); return 0; }
   b[1] = 1; o->owner = cur->id;
   acquire(o); // an earlier attempt may have failed
   return 1;
}
void __cxa_guard_release(uint64_t* g)
{
   volatile unsigned char* b = (volatile unsigned char*)g;
   b[0] = 1; b[1] = 0;
   if (!simt()) return;
   SyncObj* o = sync_of(g);
   o->owner = -1;
   release(o);
   wake_all(g);
   event(EV_UNLOCK, (uintptr_t)g, C.p_shared);
}
void __cxa_guard_abort(uint64_t* g)
{
   volatile unsigned char* b = (volatile unsigned char*)g;
   b[1] = 0;
   if (!simt()) return;
   SyncObj* o = sync_of(g);
   o->owner = -1;
   release(o);
   wake_all(g);
}

// threads made by the code under test
static int (*real_join)(pthread_t, void**);
int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*f)(void*), void* arg)
{
   if (!simt()) return real(real_pthread_create, "pthread_create")(pt, at, f, arg);
   cur->root->nalloc++; // memory for its stack
   if (!cur->suppress_fault && find_fault(F_ALLOC, cur->rid, cur->op, cur->root->nalloc)) { count_fired(F_ALLOC); return EAGAIN; }
   Th* t = nullptr;
   for (int i = 0; i < nth && !t; i++)
      if (th[i].foreign && th[i].state == T_DONE && th[i].joined) { // take the place of a thread that has ended
         t = &th[i];
         cur->nosim++;
         real(real_join, "pthread_join")(t->pt, nullptr);
         cur->nosim--;
         const uint32_t clk = t->vc[i] + 1;
         memset(t, 0, sizeof *t);
         t->id = i; t->op = -1; t->vc[i] = clk; t->limit_at = ~0ull; t->forced_at = 20000000; t->root = t;
         t->prio = 1000 + (C.mode == S_PCT ? rnd() % 1000000 : 0);
         t->state = T_RUNNABLE;
         memset(sync_of(t)->vc, 0, sizeof(VC));
      }
   if (!t) make_thread(t);
   t->fn2 = f; t->arg = arg; t->foreign = true; t->creator_op = cur->op; t->creator_tid = cur->rid; t->creator = cur->id; cur->kids++;
   t->op = cur->op; t->rid = cur->rid; t->root = cur->root;
   if (cur->limit_at != ~0ull) t->limit_at = t->steps + (cur->limit_at > cur->steps ? cur->limit_at - cur->steps : 1);
   { const uint32_t own = t->vc[t->id]; vc_join(t->vc, cur->vc); if (t->vc[t->id] < own) t->vc[t->id] = own; }
   cur->vc[cur->id]++;
   start_thread(t);
   *pt = t->pt;
   event(EV_START, t->id, C.p_shared);
   return 0;
}
int pthread_join(pthread_t pt, void** ret)
{
   if (!simt()) return real(real_join, "pthread_join")(pt, ret);
   for (int i = 0; i < nth; i++)
      if (th[i].foreign && pthread_equal(th[i].pt, pt)) {
         event(EV_WAIT, i, C.p_shared);
         while (th[i].state != T_DONE) block(&th[i], 3);
         acquire(sync_of(&th[i]));
         if (!th[i].joined && th[th[i].creator].kids > 0) th[th[i].creator].kids--;
         th[i].joined = true;
         if (ret) *ret = th[i].ret;
         return 0;
      }
   return ESRCH;
}
int pthread_detach(pthread_t pt)
{
   static int (*r)(pthread_t);
   if (!simt()) return real(r, "pthread_detach")(pt);
   for (int i = 0; i < nth; i++) if (th[i].foreign && pthread_equal(th[i].pt, pt)) { th[i].detached = true; return 0; }
   return ESRCH;
}

// destructors of thread-local objects run while the thread is still scheduled
int __cxa_thread_atexit(void (*f)(void*), void* o, void* d)
{
   static int (*r)(void (*)(void*), void*, void*);
   if (!simt()) return real(r, "__cxa_thread_atexit_impl")(f, o, d);
   if (cur->ndtor >= 64) fatal("internal", "too many thread-local objects");
   cur->dtor[cur->ndtor] = f; cur->dtor_arg[cur->ndtor] = o; cur->ndtor++;
   return 0;
}

// ===================================================================== heap
void* malloc(size_t n) { void* p = do_alloc(n, 16); if (!p) errno = ENOMEM; return p; }
void free(void* p) { do_free(p); }
void* calloc(size_t a, size_t b)
{
   size_t n;
   if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
   void* p = do_alloc(n, 16);
   if (!p) { errno = ENOMEM; return nullptr; }
   memset(p, 0, n);
   return p;
}
void* realloc(void* p, size_t n)
{
   if (!p) return malloc(n);
   if (!n) { free(p); return nullptr; }
   void* q = do_alloc(n, 16);
   if (!q) { errno = ENOMEM; return nullptr; }
   const size_t o = ((Hdr*)p - 1)->size;
   memcpy(q, p, o < n ? o : n);
   do_free(p);
   return q;
}
void* memalign(size_t al, size_t n) { return do_alloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al); }
void* valloc(size_t n) { return do_alloc(n, 4096); }
int posix_memalign(void** p, size_t al, size_t n) { void* q = do_alloc(n, al); if (!q) return ENOMEM; *p = q; return 0; }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }

// ===================================================================== time, randomness, environment
static uint64_t now_ns()
{
   uint64_t s = 0;
   for (int i = 0; i < nth; i++) s += th[i].steps;
   if (C.env_seed) s <<= mix(C.env_seed) % 22; // fast and slow machines
   return C.clock_base + vclock + s;
}
static bool env_ctx() { if (!sim_ctx()) return false; S->env_calls++; event(EV_CLOCK, 0, C.p_shared); return true; }
static void clock_query()
{
   if (C.env_seed) { // from time to time the process is suspended
      const uint64_t x = mix(C.env_seed * 31 + S->env_calls);
      if (x % 4 == 0) vclock += 1ull << (x >> 8) % 46;
   }
   cur->root->nclock++;
   for (uint32_t i = 0; i < C.nfaults; i++) {
      const Fault& f = C.faults[i];
      if (f.kind == F_CLOCK && f.thread == cur->rid && f.op == cur->op && f.n == cur->root->nclock) clock_jump(f);
   }
}
int clock_gettime(clockid_t c, struct timespec* t)
{
   if (!env_ctx()) return syscall(SYS_clock_gettime, c, t);
   clock_query();
   const bool wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
   const uint64_t n = now_ns() + (wall ? wallclock : 0);
   t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
   return 0;
}
int gettimeofday(struct timeval* t, void*)
{
   struct timespec ts;
   if (clock_gettime(CLOCK_REALTIME, &ts)) return -1;
   t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000;
   return 0;
}
time_t time(time_t* t)
{
   struct timespec ts;
   clock_gettime(CLOCK_REALTIME, &ts);
   if (t) *t = ts.tv_sec;
   return ts.tv_sec;
}
int timespec_get(struct timespec* t, int base) { return clock_gettime(CLOCK_REALTIME, t) ? 0 : base; }
int get_nprocs() { static int (*r)(); return env_ctx() && C.env_perturb ? 1 + (int)(mix(C.env_seed + 5) % 64) : real(r, "get_nprocs")(); }
int sched_getcpu() { static int (*r)(); return env_ctx() ? (int)(mix(C.env_seed + S->env_calls) % 4) : real(r, "sched_getcpu")(); }
clock_t clock()
{
   struct timespec ts;
   clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
   return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
static int yield_sim(uint64_t ns)
{
   vclock += ns;
   give_way();
   return 0;
}
int sched_yield() { return simt() ? yield_sim(1000) : (int)syscall(SYS_sched_yield); }
int nanosleep(const struct timespec* a, struct timespec* b) { return simt() ? yield_sim(a->tv_sec * 1000000000ull + a->tv_nsec) : (int)syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) { return simt() ? yield_sim(1000000) : (int)syscall(SYS_clock_nanosleep, c, fl, a, b); }
int usleep(useconds_t u) { if (simt()) return yield_sim(u * 1000ull); struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return syscall(SYS_nanosleep, &t, nullptr); }

static uint64_t env_rng;
static uint64_t env_rand() { env_rng += 0x9e3779b97f4a7c15ull; return mix(env_rng + C.env_seed * 77777); }
static unsigned n_srand;
unsigned rt_srand_calls() { return n_srand; }
void srand(unsigned) { n_srand++; }
// the library is a guest in the process: calls that change it for good
static const char* process_call;
const char* rt_process_call() { return process_call; }
#define PROCESS(ret, f, par, arg, ok) ret f par { static ret (*r) par; if (!simt() || cur->inlib == 0 || cur->nosim) return real(r, #f) arg; process_call = "process (" #f ")"; return ok; }
PROCESS(int, on_exit, (void (*f)(int, void*), void* a), (f, a), 0)
PROCESS(int, mallopt, (int k, int v), (k, v), 1)
PROCESS(int, system, (const char* c), (c), 0)
PROCESS(FILE*, popen, (const char* c, const char* m), (c, m), nullptr)
PROCESS(pid_t, fork, (), (), -1)
PROCESS(int, kill, (pid_t p, int s), (p, s), 0)
PROCESS(int, setpriority, (__priority_which_t w, id_t i, int v), (w, i, v), 0)
PROCESS(int, setpgid, (pid_t a, pid_t b), (a, b), 0)
PROCESS(pid_t, setsid, (), (), 0)
int atexit(void (*f)(void))
{
   static int (*r)(void (*)(void*), void*, void*);
   if (simt() && cur->inlib > 0 && !cur->nosim) { process_call = "process (atexit)"; return 0; }
   return real(r, "__cxa_atexit")((void (*)(void*))f, nullptr, nullptr);
}
void srandom(unsigned) { n_srand++; }
void srand48(long) { n_srand++; }
int rand() { static int (*r)(); return env_ctx() ? (int)(env_rand() & 0x7fffffff) : real(r, "rand")(); }
long random() { static long (*r)(); return env_ctx() ? (long)(env_rand() & 0x7fffffff) : real(r, "random")(); }
double drand48() { static double (*r)(); return env_ctx() ? (env_rand() >> 11) * 0x1p-53 : real(r, "drand48")(); }
ssize_t getrandom(void* p, size_t n, unsigned fl)
{
   if (!env_ctx()) return syscall(SYS_getrandom, p, n, fl);
   for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = env_rand();
   return n;
}
int getentropy(void* p, size_t n) { return getrandom(p, n, 0) == (ssize_t)n ? 0 : -1; }
pid_t getpid() { return env_ctx() ? (pid_t)(1000 + env_rand() % 30000) : (pid_t)syscall(SYS_getpid); }
pid_t getppid() { return env_ctx() ? (pid_t)(1 + env_rand() % 30000) : (pid_t)syscall(SYS_getppid); }
pid_t gettid() { return env_ctx() ? (pid_t)(1000 + mix(C.env_seed + 977 * cur->id) % 30000) : (pid_t)syscall(SYS_gettid); }
uid_t getuid() { return env_ctx() && C.env_perturb ? 1000 : (uid_t)syscall(SYS_getuid); }
uid_t geteuid() { return env_ctx() && C.env_perturb ? 1000 : (uid_t)syscall(SYS_geteuid); }
int isatty(int fd) { static int (*r)(int); return env_ctx() ? C.env_perturb != 0 : real(r, "isatty")(fd); }
int gethostname(char* p, size_t n) { static int (*r)(char*, size_t); if (!env_ctx()) return real(r, "gethostname")(p, n); snprintf(p, n, "host%d", (int)(mix(C.env_seed + 9) % 1000)); return 0; }
int getrlimit(__rlimit_resource_t w, struct rlimit* l) { static int (*r)(int, struct rlimit*); const int e = real(r, "getrlimit")((int)w, l); if (!e && env_ctx() && C.env_perturb) l->rlim_cur = 1ull << (12 + mix(C.env_seed + w) % 20); return e; }
int getrusage(__rusage_who_t w, struct rusage* u) { static int (*r)(int, struct rusage*); const int e = real(r, "getrusage")((int)w, u); if (!e && env_ctx()) { memset(u, 0, sizeof *u); const uint64_t n = now_ns(); u->ru_utime.tv_sec = n / 1000000000 % 100000; u->ru_utime.tv_usec = n / 1000 % 1000000; u->ru_maxrss = mix(C.env_seed + 3) % 1000000; } return e; }
long sysconf(int k) { static long (*r)(int); const long v = real(r, "sysconf")(k); if ((k != _SC_NPROCESSORS_ONLN && k != _SC_NPROCESSORS_CONF && k != _SC_PHYS_PAGES && k != _SC_AVPHYS_PAGES && k != _SC_LEVEL1_DCACHE_SIZE) || !env_ctx() || !C.env_perturb) return v; return 1 + (long)(mix(C.env_seed + k) % 64); }
long lrand48() { static long (*r)(); return env_ctx() ? (long)(env_rand() & 0x7fffffff) : real(r, "lrand48")(); }
long mrand48() { static long (*r)(); return env_ctx() ? (long)(int32_t)env_rand() : real(r, "mrand48")(); }
uint32_t arc4random() { static uint32_t (*r)(); return env_ctx() ? (uint32_t)env_rand() : real(r, "arc4random")(); }
uint32_t arc4random_uniform(uint32_t n) { static uint32_t (*r)(uint32_t); return env_ctx() ? (uint32_t)(n ? env_rand() % n : 0) : real(r, "arc4random_uniform")(n); }
void arc4random_buf(void* p, size_t n) { static void (*r)(void*, size_t); if (!env_ctx()) { real(r, "arc4random_buf")(p, n); return; } for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = env_rand(); }
// files that are read: in a perturbed environment every one of them is there
// (what the kernel has to tell always comes from the seed)
static bool env_dev(const char* path) { return path && (!strncmp(path, "/proc/", 6) || !strncmp(path, "/sys/", 5) || !strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")); }
static bool env_file(const char* path) { return path && env_ctx() && (env_dev(path) || (C.env_perturb && strncmp(path, "/dev/", 5))); }
static int env_fd(const char* path)
{
   if (env_dev(path)) {
      char b[4096];
      const int fd = (int)syscall(SYS_memfd_create, "file", 0);
      size_t n = 0;
      if (!strncmp(path, "/dev", 4)) while (n < sizeof b) b[n++] = (char)env_rand();
      else while (n < 2000) n += snprintf(b + n, sizeof b - n, "%.2f %u %u\n", std::ldexp((double)(env_rand() % 4096), -(int)(env_rand() % 20)), (unsigned)(env_rand() % 100000), (unsigned)(env_rand() % 10));
      if (fd >= 0 && write(fd, b, n) > 0) lseek(fd, 0, SEEK_SET);
      return fd;
   }
   static const char text[] = "1\n0\n2.5\n1 1 1 1\nverbose = 1\n";
   const int fd = (int)syscall(SYS_memfd_create, "file", 0);
   if (fd >= 0 && write(fd, text, sizeof text - 1) > 0) lseek(fd, 0, SEEK_SET);
   return fd;
}
static FILE* env_fopen(const char* p, const char* m, FILE* (*r)(const char*, const char*))
{
   if (p && m && (env_file(p) || (sim_ctx() && strpbrk(m, "wa+")))) { const int fd = env_fd(p); return fd >= 0 ? fdopen(fd, m) : nullptr; } // what is written goes nowhere
   return r(p, m);
}
FILE* fopen(const char* p, const char* m) { static FILE* (*r)(const char*, const char*); return env_fopen(p, m, real(r, "fopen")); }
FILE* fopen64(const char* p, const char* m) { static FILE* (*r)(const char*, const char*); return env_fopen(p, m, real(r, "fopen64")); }
int access(const char* p, int m) { return env_file(p) ? 0 : (int)syscall(SYS_access, p, m); }
static int env_stat(struct stat* b)
{
   memset(b, 0, sizeof *b);
   b->st_mode = S_IFREG | 0644; b->st_nlink = 1; b->st_size = 38; b->st_ino = 1 + env_rand() % 1000000; b->st_uid = 1000; b->st_blksize = 4096; b->st_blocks = 8;
   b->st_mtime = b->st_ctime = b->st_atime = (time_t)(env_rand() % 2000000000);
   return 0;
}
#define STATF(f, T) int f(const char* p, struct T* b) { static int (*r)(const char*, struct T*); return env_file(p) ? env_stat((struct stat*)b) : real(r, #f)(p, b); }
STATF(stat, stat) STATF(lstat, stat) STATF(stat64, stat64) STATF(lstat64, stat64)
int fstatat(int d, const char* p, struct stat* b, int fl) { static int (*r)(int, const char*, struct stat*, int); return env_file(p) ? env_stat(b) : real(r, "fstatat")(d, p, b, fl); }
static int env_open(const char* p, int fl, int mode)
{
   // what is written goes nowhere
   if (p && env_ctx() && ((fl & (O_WRONLY | O_RDWR)) || env_file(p)) && (env_dev(p) || strncmp(p, "/dev/", 5))) return env_fd(p);
   return (int)syscall(SYS_open, p, fl, mode);
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); const int m = va_arg(a, int); va_end(a); return env_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); const int m = va_arg(a, int); va_end(a); return env_open(p, fl, m); }
int uname(struct utsname* u)
{
   static int (*r)(struct utsname*);
   const int e = real(r, "uname")(u);
   if (!e && env_ctx() && C.env_perturb) { snprintf(u->nodename, sizeof u->nodename, "host%d", (int)(mix(C.env_seed + 9) % 1000)); snprintf(u->release, sizeof u->release, "%d.%d", (int)(mix(C.env_seed + 10) % 7), (int)(mix(C.env_seed + 11) % 20)); }
   return e;
}
int sysinfo(struct sysinfo* i)
{
   static int (*r)(struct sysinfo*);
   const int e = real(r, "sysinfo")(i);
   if (!e && env_ctx()) { memset(i, 0, sizeof *i); i->uptime = (long)(now_ns() / 1000000000 % 10000000); i->totalram = i->freeram = mix(C.env_seed + 12) % (1ull << 36); i->mem_unit = 1; i->procs = (unsigned short)(mix(C.env_seed + 13) % 1000); }
   return e;
}
clock_t times(struct tms* t)
{
   static clock_t (*r)(struct tms*);
   if (!env_ctx()) return real(r, "times")(t);
   const clock_t n = (clock_t)(now_ns() / 10000000);
   if (t) { memset(t, 0, sizeof *t); t->tms_utime = n; }
   return n;
}
int getloadavg(double* p, int n) { static int (*r)(double*, int); if (!env_ctx()) return real(r, "getloadavg")(p, n); for (int i = 0; i < n; i++) p[i] = (env_rand() % 10000) / 100.; return n; }
char* getcwd(char* p, size_t n)
{
   static char* (*r)(char*, size_t);
   if (!p || n < 40 || !env_ctx() || !C.env_perturb) return real(r, "getcwd")(p, n);
   snprintf(p, n, "/work/%d", (int)(mix(C.env_seed + 14) % 100000));
   return p;
}
int sched_getaffinity(pid_t id, size_t n, cpu_set_t* c)
{
   static int (*r)(pid_t, size_t, cpu_set_t*);
   const int e = real(r, "sched_getaffinity")(id, n, c);
   if (!e && env_ctx() && C.env_perturb) { memset(c, 0, n); for (unsigned i = 0; i <= mix(C.env_seed + 15) % 8; i++) CPU_SET_S(i, n, c); }
   return e;
}
// the time stamp counter (the instruction is trapped)
uint64_t rt_tsc()
{
   S->env_calls++;
   clock_query();
   return now_ns() * 3;
}
static char env_val[64];
char* getenv(const char* n)
{
   static char* (*r)(const char*);
   char* v = real(r, "getenv")(n);
   if (!env_ctx()) return v;
   if (!C.env_perturb) return v;
   switch (env_rand() % 4) {
   case 0: return nullptr;
   case 1: strcpy(env_val, "1"); return env_val;
   case 2: strcpy(env_val, "0"); return env_val;
   default: strcpy(env_val, "de_DE.UTF-8"); return env_val;
   }
}
char* secure_getenv(const char* n) { return getenv(n); }
unsigned _ZNSt13random_device9_M_getvalEv(void*) { if (env_ctx()) return env_rand(); uint32_t v = 0; syscall(SYS_getrandom, &v, 4, 0); return v; }

// mem functions called by the code under test would hide accesses; they are
// renamed to these in the instrumented objects (objcopy, see check.py)
void* rt_memcpy(void* d, const void* s, size_t n) { if (n && cur && active) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return memcpy(d, s, n); }
void* rt_memmove(void* d, const void* s, size_t n) { if (n && cur && active) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return memmove(d, s, n); }
void* rt_memset(void* d, int c, size_t n) { if (n && cur && active) access((uintptr_t)d, n, true, PC); return memset(d, c, n); }

} // extern "C"

// ===================================================================== operator new
static void* op_new(size_t n, size_t al, bool nothrow)
{
   if (n == 0) n = 1;
   for (int tries = 0;; tries++) {
      void* p = do_alloc(n, al);
      if (p) return p;
      std::new_handler h = std::get_new_handler();
      if (!h || tries > 100) {
         if (nothrow) return nullptr;
         if (cur) cur->nosim++;
         void* e = nullptr; (void)e;
         struct Un { ~Un() { if (cur) cur->nosim--; } } un; // the exception object itself is not made to fail
         throw std::bad_alloc();
      }
      if (!nothrow) h();
      else try { h(); } catch (const std::bad_alloc&) { return nullptr; }
   }
}
void* operator new(size_t n) { return op_new(n, 16, false); }
void* operator new[](size_t n) { return op_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void operator delete(void* p) noexcept { do_free(p); }
void operator delete[](void* p) noexcept { do_free(p); }
void operator delete(void* p, size_t) noexcept { do_free(p); }
void operator delete[](void* p, size_t) noexcept { do_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p); }
