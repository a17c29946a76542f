// Simulation runtime: interface between the runtime (rt.cpp) and the driver.
// The runtime never includes a header of the code under test.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {

enum { MAXT = 24, MAXSW = 1 << 16, MAXVIOL = 8, CAPBUF = 1 << 20, OUTBUF = 12 << 20, MAXOPT = 2048 };

// kinds of schedulable events
enum Ev : int {
   EV_READ, EV_WRITE, EV_ATOMIC, EV_LOCK, EV_UNLOCK, EV_WAIT, EV_ONCE, EV_ALLOC, EV_FREE,
   EV_IO, EV_FUNC, EV_EXIT, EV_START, EV_LINK, EV_CLOCK, EV_N
};

// fault kinds
enum Fk : int {
   F_ALLOC,        // allocation fails
   F_SINK_EOF,     // stream buffer accepts nothing
   F_SINK_SHORT,   // stream buffer accepts only part
   F_SINK_THROW,   // stream buffer throws
   F_SINK_SYNC,    // flush fails
   F_STATE_BAD,    // stream already in failed state before the call
   F_NULLBUF,      // stream has no buffer during the call
   F_EXCEPT,       // stream throws on failure (exceptions mask)
   F_LINK,         // n-th link operation fails
   F_STALL,        // thread is stalled (not scheduled) for a while
   F_CLOCK,        // clock jumps (n = 0: before the operation, k: at its k-th query)
   F_N
};
extern const char* const fault_name[F_N];
extern const char* const ev_name[EV_N];

struct Fault {
   int kind, thread, op;   // where: thread and op index
   uint32_t n;             // first failing occurrence (1-based) within the op
   uint32_t len;           // how many consecutive occurrences fail (0xffffffff: all)
   uint32_t arg;
};

struct Switch { int tid; uint32_t ev; int to; };

enum SchedMode : int { S_SEQ, S_RANDOM, S_PCT, S_LIST };

struct Config {
   int mode = S_SEQ;
   uint64_t seed = 1;
   uint32_t p_shared = 0;    // per 65536 probability at shared accesses / sync / IO
   uint32_t p_func = 0;      // ... at function entries
   uint32_t pct_depth = 3;
   uint64_t pct_horizon = 20000;
   uint32_t max_switches = 4000;
   const Switch* list = nullptr;
   uint32_t nlist = 0;
   uint64_t poison = 0xA5A5A5A5A5A5A5A5ull; // heap poison
   uint64_t stack_poison = 0;               // pattern; 0: none
   uint32_t stack_poison_bytes = 2048;
   uint64_t step_limit = 400000000ull;      // per op
   uint64_t clock_base = 1700000000ull * 1000000000ull;
   uint64_t env_seed = 0;                   // drives rand(), getrandom(), random_device, getpid
   bool env_perturb = false;                // answer getenv() with perturbed values
   int heap = 0;                            // 1: freed memory is used again at once, 2: addresses descend
   int race_check = 1;
   const Fault* faults = nullptr;
   uint32_t nfaults = 0;
};

struct Viol { char kind[32]; int tid, op; uint64_t pc, addr; uint64_t pc2; char text[400]; };

struct OpRec {
   uint32_t off, len;          // serialised outcome in out[]
   uint32_t nalloc, nwrite, nlink;
   uint32_t injected;          // faults fired inside this op
   uint64_t steps;
   int64_t live;               // live heap bytes (of this op's allocations) at its end
   uint8_t done;
};

// lives in memory shared between parent and child
struct Shared {
   volatile int phase;         // 0 init, 1 running, 2 finished
   volatile int nviol;
   Viol viol[MAXVIOL];
   volatile int cur_op[MAXT];
   uint64_t trace_hash, shape_hash;
   uint64_t events[EV_N];
   uint64_t total_steps, total_events, shared_events;
   uint32_t nswitch, preempt;
   uint32_t fired[F_N];
   uint32_t env_calls;         // time/random/environment queries made by the code under test
   int64_t live_end;           // live simulated-heap bytes at the end of the run
   uint32_t live_blocks_end;
   int noted;
   int64_t round_live[8];      // the same after each phase
   uint32_t round_blocks[8];
   uint32_t cap_len;           // capture log: records {int tid,int op,int stream,int len, bytes}
   uint32_t out_len;
   uint32_t cap_overflow;
   uint32_t nonsim_out;        // bytes written to the real stdout/stderr
   OpRec rec[MAXT][MAXOPT];
   Switch sw[MAXSW];
   unsigned char cap[CAPBUF];
   unsigned char out[OUTBUF];
};

void skip_range(const void*, size_t);   // no race checking there (objects the standard declares race free)
void init_process();                 // once per process, before anything else
void reset(Shared* s, const Config& c);
int spawn(void (*fn)(void*), void* arg);   // returns thread id (0..)
void run_all();                      // run to completion; exits the process on a fatal violation

// called by the driver inside simulated threads (or by the controller)
void note_live(int round); // memory in use after a repetition inside one thread
void op_begin(int op, uint64_t step_limit = 0);
void op_end();
void op_result(const void* p, size_t n);
struct Lib { Lib(); ~Lib(); };       // the code in this scope is code under test
struct NoLib { NoLib(); ~NoLib(); int s; };
void violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void fatal(const char* kind, const char* fmt, ...);
[[noreturn]] void crash(int sig, uint64_t pc, uint64_t addr);
int sink_fault(uint32_t* arg);        // counts one stream operation; kind of its fault or -1
int cur_op();
bool link_fault();                   // counts one link operation; true: it must fail
bool have_fault(int kind, uint32_t* arg = nullptr);  // is a whole-op fault of this kind planned here
void fired(int kind);
void stall_point();
int self();                          // current simulated thread or -1
int held_locks();                    // locks held by the current thread
uint64_t steps();
int64_t live_bytes();
uint32_t live_blocks();
uint64_t hash_state();
void scribble_stack();
void capture(int stream, const char* s, size_t n);
void set_env_clock_jump(int64_t ns);
bool in_sim_heap(const void*);

} // namespace rt
