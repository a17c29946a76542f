// Plans: the complete, explicit description of one simulated run.
#pragma once
#include "rt.h"
#include <cstdint>
#include <map>
#include <string>
#include <vector>

// ---------------------------------------------------------------- points
enum { P_SCALE, P_MU, P_G1, P_G2, P_G3, P_VD, P_VU,
       P_MQ2 = 7, P_MD2 = 16, P_MU2 = 25, P_ML2 = 34, P_ME2 = 43, P_AU = 52, P_AD = 61, P_AE = 70, P_YU = 79, P_YD = 88, P_YE = 97,
       P_M1 = 106, P_M2, P_MG, P_MW, P_MZ, P_MT, P_MB, P_MTAU, P_MA,
       P_MST = 115, P_MSB = 117, P_MSTAU = 119, P_S2T = 121, P_S2B, P_S2TAU, P_THT, P_THB, P_THTAU, P_LIM, NP };

struct Point { double v[NP]; };

// ---------------------------------------------------------------- operations
enum OpKind {
   K_FULL, K_CMP, K_HIER, K_M41, K_M42, K_MDRS, K_MST, K_UNC,          // hierarchy calculator
   K_FO, K_FOX, K_EFT, K_EFTL, K_THR, K_THRS, K_DSZ,                   // components
   K_VAL, K_PRT, K_PHO, K_PFO, K_PEFT, K_HON, K_BAD, K_GETHO,          // parameters, results
   K_LL, K_LLREF, K_LLTEXT,                                            // Mathematica link
   K_VALUE,                                                            // value-semantics history (C13)
   K_NEWDEL, K_RETRYVAL, K_UNC2,
   K_LOOP,                                                             // loop functions
   K_SET,                                                              // settings of an object
   K_SCAN,                                                             // a parameter set with a past
   K_N
};
extern const char* const op_name[K_N];

struct Op {
   int kind = 0, pt = 0, a = 0, b = 0, c = 0, d = 0;
   int slot = -1;  // object used (declared in Plan::obj), -1: a fresh one
   int ho = -1;    // result object used, -1: a fresh one from a comparison
};

enum ObjType { O_HC, O_HO, O_EFT, O_FO, O_THR, O_PAR, O_N };
struct Obj { int type = 0, pt = 0, a = 0, b = 0; bool shared = false; };

struct Plan {
   std::string prop;
   uint64_t seed = 0;
   std::string scen;              // scenario name inside the property
   uint64_t poison = 0xA5A5A5A5A5A5A5A5ull, stack_poison = 0;
   uint32_t stack_poison_bytes = 2048;
   uint64_t env_seed = 0;
   int env_perturb = 0;
   int fround = 0;                // caller's rounding mode (0: nearest)
   int streamfmt = 0;             // caller's stream format
   int sinkpos = 0;               // 0: sinks have no position, k: it starts at 2^k - 1
   uint32_t fpflags = 0;          // pending floating-point status flags
   int heap = 0;                  // see rt::Config
   int mode = rt::S_SEQ;
   uint32_t p_shared = 0, p_func = 0, pct_depth = 0, max_switches = 4000;
   uint64_t pct_horizon = 20000, sched_seed = 1;
   int repeat = 0;                // C15: how often the history is repeated
   int samethread = 0;            // repetitions happen in one thread
   int alt = 0;                   // C08: run again in a second environment
   std::vector<Point> pts;
   std::vector<Obj> obj;
   std::vector<std::vector<Op>> th;
   std::vector<int> stage;        // per thread: threads of a stage start when the earlier stages have ended
   std::vector<rt::Fault> faults;
   bool has_list = false;
   std::vector<rt::Switch> list;
};

std::string plan_text(const Plan&);
inline int stage_of(const Plan& p, size_t i) { return i < p.stage.size() ? p.stage[i] : 0; }
// no other thread runs at the same time
inline bool runs_alone(const Plan& p, size_t i) { for (size_t k = 0; k < p.th.size(); k++) if (k != i && stage_of(p, k) == stage_of(p, i)) return false; return true; }
bool plan_parse(const std::string&, Plan&, std::string& err);

// ---------------------------------------------------------------- random numbers
struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed) : s(seed) {}
   uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t x = s; x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ x >> 31; }
   uint32_t below(uint32_t n) { return n ? next() % n : 0; }
   int range(int a, int b) { return a + (int)below(b - a + 1); }
   double uni() { return (next() >> 11) * 0x1p-53; }
   double uni(double a, double b) { return a + (b - a) * uni(); }
   bool chance(double p) { return uni() < p; }
};

Point default_point();
Point gen_point(Rng&, int family);      // see plan.cpp
enum { FAM_ANY, FAM_VALID, FAM_NOISY, FAM_INVALID, FAM_NOHIER, FAM_TESTLIKE, FAM_HIER };
Point mutate_point(Rng&, const Point&);
Point corrupt_point(Rng&, const Point&);

// ---------------------------------------------------------------- world (world.cpp)
struct World {
   const Plan* plan = nullptr;
   std::vector<void*> obj;
   bool reference = false;   // resolve objects to fresh ones
};
// runs one operation of the current simulated thread; records its result
void exec_op(World&, const Op&, int index);
void make_shared_objects(World&);
void check_shared_objects(World&);
void destroy_objects(World&, bool shared);
void destroy_own(World&, int thread);       // objects that only this thread uses
void install_streams(const Plan&);
void check_streams_end(const Plan& p);
std::string describe_result(const unsigned char* p, size_t n);
std::string first_difference(const unsigned char* a, size_t na, const unsigned char* b, size_t nb);
// status byte of a serialised result
enum ResStatus : unsigned char { RS_OK = 1, RS_BADALLOC, RS_STDEXC, RS_IOFAIL, RS_OTHEREXC };
extern bool g_env_checks;
