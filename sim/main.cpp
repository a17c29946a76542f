// Driver: runs plans in fresh child processes, judges the recorded history
// against references, generates batches, minimises failing plans.
#include "plan.h"
#include "mlsim.h"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

using rt::Shared;
using std::string;
using std::vector;

Plan gen_plan(const string& prop, uint64_t seed, int tier);
extern "C" void _gfortran_flush_i4(int*) __attribute__((weak));

// ---------------------------------------------------------------- running one plan
struct OpOut { bool done = false; string out; rt::OpRec rec; string text[3]; };
struct VRec { string kind, text; int tid = -1, op = -1; uint64_t pc = 0, pc2 = 0, addr = 0; };
struct Run {
   int rc = 0, sig = 0;
   vector<VRec> viol;
   vector<vector<OpOut>> th;   // by thread id
   vector<rt::Switch> sw;
   uint64_t trace = 0, shape = 0, steps = 0, events = 0, shared_events = 0, ev[rt::EV_N] = {0};
   uint32_t nswitch = 0, preempt = 0, fired[rt::F_N] = {0}, env_calls = 0, nonsim_out = 0;
   int64_t round_live[8] = {0}, live_end = 0;
   uint32_t round_blocks[8] = {0};
   string stdout_bytes;
};

static Shared* S;
static int out_fd = -1, err_fd = -1;
static const Plan* g_plan;
static World g_world;

struct WorkerArg { int index; };
static WorkerArg wargs[rt::MAXT];
static void altstack()
{
   stack_t ss;
   memset(&ss, 0, sizeof ss);
   ss.ss_size = 64 << 10;
   ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
   sigaltstack(&ss, nullptr);
}
static void worker(void* a)
{
   altstack();
   const int i = ((WorkerArg*)a)->index;
   const auto& ops = g_plan->th[i];
   const int rounds = g_plan->samethread && g_plan->repeat > 1 ? g_plan->repeat : 1;
   for (int r = 0; r < rounds; r++) {
      for (size_t k = 0; k < ops.size(); k++) exec_op(g_world, ops[k], (int)(r * ops.size() + k));
      destroy_own(g_world, i);
      if (rounds > 1) rt::note_live(r + 1);
   }
}
static void setup(void*) { altstack(); make_shared_objects(g_world); }
static void teardown(void*) { altstack(); check_shared_objects(g_world); destroy_objects(g_world, true); }

extern "C" uint64_t rt_tsc();
static void on_signal(int sig, siginfo_t* si, void* uc)
{
   ucontext_t* u = (ucontext_t*)uc;
   const unsigned char* c = (const unsigned char*)u->uc_mcontext.gregs[REG_RIP];
   if (sig == SIGSEGV && si->si_code == SI_KERNEL && c[0] == 0x0f && (c[1] == 0x31 || (c[1] == 0x01 && c[2] == 0xf9))) { // rdtsc, rdtscp
      const uint64_t t = rt_tsc();
      u->uc_mcontext.gregs[REG_RAX] = (uint32_t)t; u->uc_mcontext.gregs[REG_RDX] = t >> 32;
      if (c[1] == 0x01) u->uc_mcontext.gregs[REG_RCX] = 0;
      u->uc_mcontext.gregs[REG_RIP] += c[1] == 0x31 ? 2 : 3;
      return;
   }
   rt::crash(sig, (uint64_t)u->uc_mcontext.gregs[REG_RIP], sig == SIGSEGV || sig == SIGBUS ? (uint64_t)si->si_addr : 0);
}

static int rounds_of(const Plan& p) { return p.repeat > 1 ? p.repeat : 1; }

[[noreturn]] static void app_new_handler() { rt::NoLib nl; throw std::bad_alloc(); }

static void child(const Plan& p, const vector<rt::Fault>& faults)
{
   dup2(out_fd, 1); dup2(err_fd, 2);
   struct sigaction sa;
   memset(&sa, 0, sizeof sa);
   sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
   for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
   alarm(120);
   prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
   rt::Config c;
   c.mode = p.has_list ? rt::S_LIST : p.mode;
   c.seed = p.sched_seed; c.p_shared = p.p_shared; c.p_func = p.p_func; c.pct_depth = p.pct_depth; c.pct_horizon = p.pct_horizon; c.max_switches = p.max_switches;
   c.list = p.list.data(); c.nlist = (uint32_t)p.list.size();
   c.poison = p.poison; c.stack_poison = p.stack_poison; c.stack_poison_bytes = p.stack_poison_bytes;
   c.env_seed = p.env_seed; c.env_perturb = p.env_perturb; c.heap = p.heap;
   c.clock_base += p.env_seed % 1000003 * 86400000000ull;
   c.step_limit = 100000000ull;
   c.faults = faults.data(); c.nfaults = (uint32_t)faults.size();
   c.race_check = p.th.size() > 1;
   rt::reset(S, c);
   g_plan = &p;
   g_world = World();
   g_world.plan = &p;
   install_streams(p);
   if (p.streamfmt & 256) std::set_new_handler(app_new_handler);
   ml_reset();
   rt::spawn(setup, nullptr);
   rt::run_all();
   for (int r = 0; r < (p.samethread ? 1 : rounds_of(p)); r++) {
      for (size_t i = 0; i < p.th.size();) {
         const int st = stage_of(p, i);
         for (; i < p.th.size() && stage_of(p, i) == st; i++) { wargs[i].index = (int)i; rt::spawn(worker, &wargs[i]); }
         rt::run_all();
      }
   }
   rt::spawn(teardown, nullptr);
   rt::run_all();
   check_streams_end(p);
   fflush(stdout);
   if (_gfortran_flush_i4) _gfortran_flush_i4(nullptr);
   S->phase = 2;
   _exit(0);
}

static uint64_t n_forks;
static Run run_plan(const Plan& p)
{
   // faults are repeated in every round
   vector<rt::Fault> faults;
   const int n = (int)p.th.size();
   for (int r = 0; r < rounds_of(p); r++)
      for (const rt::Fault& f : p.faults) { rt::Fault g = f; if (p.samethread) { g.thread = 1 + f.thread; g.op = r * (int)p.th[f.thread].size() + f.op; } else g.thread = 1 + r * n + f.thread; faults.push_back(g); }
   for (int fd : {out_fd, err_fd}) { if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); }
   fflush(stdout);
   S->phase = 0; S->nviol = 0;
   n_forks++;
   const pid_t pid = fork();
   if (pid == 0) { child(p, faults); _exit(0); }
   int st = 0;
   while (waitpid(pid, &st, 0) < 0) {}
   Run r;
   r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
   r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
   for (int i = 0; i < S->nviol && i < rt::MAXVIOL; i++) {
      const rt::Viol& v = S->viol[i];
      VRec q;
      q.kind = v.kind; q.text = v.text; q.tid = v.tid; q.op = v.op; q.pc = v.pc; q.pc2 = v.pc2; q.addr = v.addr;
      r.viol.push_back(q);
   }
   const bool clean = S->phase == 2 && (r.rc == 0 || r.rc == 42);
   if (!clean) {
      VRec q;
      char b[160];
      if (r.sig == SIGALRM) { q.kind = "hang"; snprintf(b, sizeof b, "the run did not end (no progress outside the simulated code)"); }
      else if (r.sig) { q.kind = "crash"; snprintf(b, sizeof b, "the process was ended by signal %d", r.sig); }
      else { q.kind = r.rc >= 96 && r.rc <= 98 ? "internal" : "exit"; snprintf(b, sizeof b, "the process ended itself with code %d", r.rc); }
      q.text = b;
      r.viol.push_back(q);
   }
   r.trace = S->trace_hash; r.shape = S->shape_hash; r.steps = S->total_steps; r.events = S->total_events; r.shared_events = S->shared_events;
   memcpy(r.ev, S->events, sizeof r.ev);
   r.nswitch = S->nswitch; r.preempt = S->preempt; r.env_calls = S->env_calls;
   memcpy(r.fired, S->fired, sizeof r.fired);
   memcpy(r.round_live, S->round_live, sizeof r.round_live); memcpy(r.round_blocks, S->round_blocks, sizeof r.round_blocks);
   r.live_end = S->live_end;
   r.sw.assign(S->sw, S->sw + std::min<uint32_t>(S->nswitch, rt::MAXSW));
   struct stat sb;
   if (!fstat(out_fd, &sb) && sb.st_size) { r.nonsim_out = sb.st_size; char b[200]; const ssize_t k = pread(out_fd, b, sizeof b, 0); if (k > 0) r.stdout_bytes.assign(b, k); }
   r.th.resize(rt::MAXT);
   for (int t = 0; t < rt::MAXT; t++) {
      const int idx = t >= 1 ? (t - 1) % std::max(n, 1) : 0;
      if (t < 1 || t > n * rounds_of(p)) continue;
      r.th[t].resize(p.th[idx].size());
      for (size_t k = 0; k < p.th[idx].size(); k++) {
         const rt::OpRec& rec = p.samethread ? S->rec[1][(t - 1) * p.th[0].size() + k] : S->rec[t][k];
         OpOut& o = r.th[t][k];
         o.done = rec.done; o.rec = rec;
         if (rec.done) o.out.assign((const char*)S->out + rec.off, rec.len);
      }
   }
   for (uint32_t o = 0; o + 16 <= S->cap_len;) {
      int h[4];
      memcpy(h, S->cap + o, 16);
      if (p.samethread && h[0] == 1 && h[1] >= 0) { const int m = (int)p.th[0].size(); h[0] = 1 + h[1] / m; h[1] %= m; }
      if (h[0] >= 0 && h[0] < rt::MAXT && h[1] >= 0 && h[1] < (int)r.th[h[0]].size() && h[2] >= 0 && h[2] < 3)
         r.th[h[0]][h[1]].text[h[2]].append((const char*)S->cap + o + 16, h[3]);
      o += 16 + h[3];
   }
   return r;
}

// ---------------------------------------------------------------- references
struct Ref { string out, text; uint32_t nalloc = 0, nwrite = 0, nlink = 0; string bad; uint64_t steps = 0; };
static std::map<string, Ref> refs;

static Plan single(const Plan& p, const Op& o)
{
   Plan q;
   q.prop = "REF"; q.scen = "alone";
   q.fround = p.fround; q.streamfmt = p.streamfmt;
   Op n = o;
   q.pts.push_back(p.pts[o.pt]); n.pt = 0;
   auto bring = [&](int i) { Obj b = p.obj[i]; b.shared = false; q.pts.push_back(p.pts[b.pt]); b.pt = (int)q.pts.size() - 1; q.obj.push_back(b); return (int)q.obj.size() - 1; };
   if (o.slot >= 0) n.slot = bring(o.slot);
   if (o.ho >= 0) n.ho = o.ho == o.slot ? n.slot : bring(o.ho);
   q.th.push_back({n});
   return q;
}
static const Ref& ref_of_plan(const Plan& q, size_t opi)
{
   const string key = plan_text(q) + "@" + std::to_string(opi);
   auto it = refs.find(key);
   if (it != refs.end()) return it->second;
   if (refs.size() > 60000) refs.clear();
   const Run r = run_plan(q);
   Ref f;
   const OpOut& o = r.th[1][opi];
   f.out = o.out; f.text = o.text[2];
   f.nalloc = o.rec.nalloc; f.nwrite = o.rec.nwrite; f.nlink = o.rec.nlink; f.steps = o.rec.steps;
   if (!r.viol.empty()) f.bad = r.viol[0].kind + ": " + r.viol[0].text;
   return refs[key] = f;
}
// the settings that an object has got from earlier operations of its thread
static vector<Op> settings(const Plan& p, int thread, int op)
{
   vector<Op> r;
   const Op& o = p.th[thread][op];
   for (int k = 0; k < op; k++) {
      const Op& e = p.th[thread][k];
      if (e.kind != K_SET || e.slot < 0 || (e.slot != o.slot && e.slot != o.ho)) continue;
      const int ty = p.obj[e.slot].type;
      const bool by_order = ty == O_EFT || (ty == O_FO && e.a == 0);
      const bool fails = (by_order && (e.b == 23)) || (ty == O_HO && ((e.a == 0 && e.c > 1) || (e.a == 1 && e.b % 5 > 3)));
      if (fails) continue; // has no effect
      for (size_t i = 0; i < r.size(); i++)
         if (r[i].slot == e.slot && (by_order ? (ty == O_EFT || r[i].a == 0) && r[i].b == e.b : r[i].a == e.a)) { r.erase(r.begin() + i); break; }
      r.push_back(e);
   }
   return r;
}
const Ref& ref_of(const Plan& p, const Op& o);
static const Ref& ref_of(const Plan& p, int thread, int op)
{
   const Op& o = p.th[thread][op];
   const vector<Op> set = settings(p, thread, op);
   if (set.empty()) return ref_of(p, o);
   Plan q = single(p, o);
   const Op n = q.th[0][0];
   q.th[0].clear();
   for (Op e : set) { e.pt = 0; e.slot = e.slot == o.slot ? n.slot : n.ho; e.ho = -1; q.th[0].push_back(e); }
   q.th[0].push_back(n);
   return ref_of_plan(q, q.th[0].size() - 1);
}
const Ref& ref_of(const Plan& p, const Op& o)
{
   Op n = o;
   if (o.kind == K_LL) { n.kind = K_LLREF; n.d = 0; }
   if (o.kind == K_SCAN) n.b = n.c = 0; // without a past
   if (o.kind == K_RETRYVAL) { n.kind = K_VAL; if (o.slot >= 0) n.pt = p.obj[o.slot].pt; n.slot = -1; }
   return ref_of_plan(single(p, n), 0);
}
uint32_t ref_count(const Plan& p, const Op& o, int what) // for the generators
{
   Plan q = single(p, o); // link requests count their own operations
   const Ref& f = ref_of_plan(q, 0);
   return what == 0 ? f.nalloc : what == 1 ? f.nwrite : f.nlink;
}
static Op verbose_new() { Op o; o.kind = K_NEWDEL; o.a = 1; return o; }
static const string& banner(int streamfmt)
{
   static std::map<int, string> cache;
   auto it = cache.find(streamfmt);
   if (it != cache.end()) return it->second;
   Plan q;
   q.prop = "REF"; q.scen = "banner"; q.streamfmt = streamfmt;
   q.pts.push_back(default_point());
   q.th.push_back({verbose_new(), verbose_new()});
   const string a = ref_of_plan(q, 0).text, b = ref_of_plan(q, 1).text;
   size_t i = 0, k = 0;
   while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
   while (k < a.size() - i && k < b.size() - i && a[a.size() - 1 - k] == b[b.size() - 1 - k]) k++;
   if (i + k != b.size()) return cache[streamfmt] = ""; // not an insertion
   return cache[streamfmt] = a.substr(i, a.size() - i - k);
}
static size_t count_of(const string& t, const string& b)
{
   if (b.empty()) return 0;
   size_t n = 0;
   for (size_t o = t.find(b); o != string::npos; o = t.find(b, o + b.size())) n++;
   return n;
}

// ---------------------------------------------------------------- reading serialised results
struct Item { string label; vector<string> s; vector<double> d; vector<long long> i; };
static vector<Item> items(const string& o)
{
   vector<Item> r;
   size_t k = 1;
   r.push_back(Item());
   while (k < o.size()) {
      const char t = o[k++];
      if (t == 'L') { const size_t n = (unsigned char)o[k++]; r.push_back(Item()); r.back().label = o.substr(k, n); k += n; }
      else if (t == 'd') { double d; memcpy(&d, &o[k], 8); r.back().d.push_back(d); k += 8; }
      else if (t == 'i') { long long x; memcpy(&x, &o[k], 8); r.back().i.push_back(x); k += 8; }
      else if (t == 's') { uint32_t m; memcpy(&m, &o[k], 4); k += 4; r.back().s.push_back(o.substr(k, m)); k += m; }
      else break;
   }
   return r;
}
struct LinkOut { long long rc = -1, nexpr = 0, incomplete = 0, malformed = 0, left = 0, err = 0, dead = 0; string value, chatter; vector<string> msg; };
static LinkOut link_out(const string& o)
{
   LinkOut l;
   for (const Item& i : items(o)) {
      auto n = [&] { return i.i.empty() ? 0 : i.i[0]; };
      auto s = [&] { return i.s.empty() ? string() : i.s[0]; };
      if (i.label == "rc") l.rc = n(); else if (i.label == "nexpr") l.nexpr = n(); else if (i.label == "incomplete") l.incomplete = n();
      else if (i.label == "malformed") l.malformed = n(); else if (i.label == "left") l.left = n(); else if (i.label == "err") l.err = n();
      else if (i.label == "dead") l.dead = n(); else if (i.label == "value") l.value = s(); else if (i.label == "chatter") l.chatter = s();
      else if (i.label == "msg") l.msg.push_back(s());
   }
   return l;
}

// ---------------------------------------------------------------- judging
struct Finding { string kind, text; uint64_t pc = 0, pc2 = 0, addr = 0; };

static bool faults_in(const Plan& p, int thread, int op, bool (*f)(int))
{
   for (const rt::Fault& x : p.faults) if (x.thread == thread && (op < 0 || x.op == op) && f(x.kind)) return true;
   return false;
}
static bool is_alloc(int k) { return k == rt::F_ALLOC; }
static bool is_sink(int k) { return k >= rt::F_SINK_EOF && k <= rt::F_EXCEPT; }
static bool is_except(int k) { return k == rt::F_EXCEPT; }
static bool is_link(int k) { return k == rt::F_LINK; }

static bool close_to(double a, double b)
{
   if (a == b || (std::isnan(a) && std::isnan(b))) return true;
   return std::fabs(a - b) <= 1e-6 * std::max({1.0, std::fabs(a), std::fabs(b)});
}
static bool numbers_equal(const string& a, const string& b, bool tol)
{
   const auto x = items(a), y = items(b);
   if (a.empty() || b.empty() || a[0] != b[0] || x.size() != y.size()) return false;
   for (size_t i = 0; i < x.size(); i++) {
      if (x[i].label != y[i].label || x[i].i != y[i].i || x[i].d.size() != y[i].d.size()) return false;
      for (size_t k = 0; k < x[i].d.size(); k++)
         if (tol ? !close_to(x[i].d[k], y[i].d[k]) : memcmp(&x[i].d[k], &y[i].d[k], 8) != 0) return false;
   }
   return true;
}

// printed while memory ran out: standard streams drop what does not fit and flag
// that on the stream, so parts of the text may be missing, but nothing is different
static bool printed_in_part(const string& a, const string& ref)
{
   static const string head = string(1, (char)RS_OK) + "L\x04text" + "s";
   if (a.size() < head.size() + 4 || ref.size() < head.size() + 4 || a.compare(0, head.size(), head) || ref.compare(0, head.size(), head)) return false;
   size_t k = head.size() + 4;
   for (size_t i = k; i < a.size(); i++, k++) {
      while (k < ref.size() && ref[k] != a[i]) k++;
      if (k >= ref.size()) return false;
   }
   return true;
}

static string lines_of(const string& t) // as getline splits
{
   string r;
   size_t o = 0;
   while (o < t.size()) {
      size_t e = t.find('\n', o);
      if (e == string::npos) e = t.size();
      r += "I:" + t.substr(o, e - o) + "\n";
      o = e + 1;
   }
   return r;
}
static string clip(const string& s, size_t n = 160) { return s.size() <= n ? s : s.substr(0, n) + "..."; }

static void judge_link(const Plan& p, const Run& r, int i, int k, vector<Finding>& out, const string& B, bool& banner_used)
{
   const Op& op = p.th[i][k];
   const OpOut& o = r.th[1 + i][k];
   char where[64];
   snprintf(where, sizeof where, "request %d: ", k);
   auto bad = [&](const char* kind, const string& t) { out.push_back(Finding{kind, where + t}); };
   if (o.out.empty() || o.out[0] != RS_OK) { bad("link-reply", "the library function did not return normally"); return; }
   const LinkOut l = link_out(o.out);
   const int kind = op.d & 0xff;
   const bool alloc = faults_in(p, i, k, is_alloc) && o.rec.injected, lnk = faults_in(p, i, k, is_link) && o.rec.injected;
   const bool healthy = kind == LB_NONE || kind == LB_INTEGERS;
   const bool outer_bad = kind == LB_OUTER_HEAD || kind == LB_OUTER_COUNT || kind == LB_OUTER_ATOM;
   const string own = (op.c & 1) && op.b > 2 ? B : "";
   // return code
   if (l.rc != 0 && l.rc != 1) bad("link-code", "return code " + std::to_string(l.rc));
   if (l.rc != 0 && !outer_bad && !lnk) bad("link-code", "a request that is a list in an argument list is refused with a type error");
   // with more than one fault in a request, or a fault in a malformed request,
   // also the recovery may have been hit
   if (l.dead || (lnk && (o.rec.injected > 1 || !healthy))) { if (count_of(o.text[2], B) || own.size()) banner_used = true; return; }
   // exactly one reply
   if (l.rc == 0) {
      if (l.nexpr != 1 || l.incomplete || l.malformed)
         bad("link-reply", std::to_string(l.nexpr) + " complete expressions" + (l.incomplete ? " and an unfinished one" : "") + (l.malformed ? " (malformed)" : "") + " as reply; link error " + std::to_string(l.err));
      else {
         const bool list = l.value.compare(0, 22, "List[Rule[hierarchyID,") == 0;
         if (l.value == "$Failed") {
            bool e = false;
            for (auto& m : l.msg) e |= m.compare(0, 2, "E:") == 0;
            if (!e) bad("link-reply", "failure without an error message");
            if (healthy && !alloc && !lnk) { const Ref& f = ref_of(p, op); if (!f.out.empty() && f.out[0] == RS_OK) bad("link-value", "a healthy request is answered by a failure: " + (l.msg.empty() ? string("no message") : l.msg.back())); }
         } else if (!list) bad("link-reply", "unexpected reply " + clip(l.value));
         else {
            if (!healthy) bad("link-reply", "a malformed request is answered by a result");
            else {
               const Ref& f = ref_of(p, op);
               string v;
               for (const Item& x : items(f.out)) if (x.label == "value" && !x.s.empty()) v = x.s[0];
               if (l.value != v) {
                  size_t q = 0;
                  while (q < v.size() && q < l.value.size() && v[q] == l.value[q]) q++;
                  const size_t b = q > 60 ? q - 60 : 0;
                  bad("link-value", "reply differs from the C++ interface: expected ..." + (v.empty() ? "(failure)" : v.substr(b, 100)) + ", got ..." + l.value.substr(b, 100));
               }
            }
         }
      }
      if (l.left) bad("link-left", std::to_string(l.left) + " arguments of the request are left on the link");
      if (l.err) bad("link-left", "the link is left in error state " + std::to_string(l.err));
   } else if (l.nexpr || l.incomplete) bad("link-reply", "a reply was written although a type error is returned");
   // diagnostics
   string got, printed;
   for (auto& m : l.msg) if (m.compare(0, 2, "I:") == 0) got += m + "\n";
   bool err_last = true;
   for (size_t q = 0; q + 1 < l.msg.size(); q++) if (l.msg[q].compare(0, 2, "E:") == 0) err_last = false;
   if (l.rc == 0 && !err_last) bad("link-messages", "the error message is not the last message");
   if (l.rc == 0 && (o.text[1].size() || o.text[2].size())) bad("link-messages", "diagnostics went to the standard streams instead of the front end: " + clip(o.text[1] + o.text[2]));
   if (l.rc == 0 && !alloc) {
      string want = lines_of(l.chatter), alt = want;
      const bool none = !healthy || lnk;
      if (!none) {
         const Ref& f = ref_of(p, op);
         string without = f.text;
         if (!B.empty()) { const size_t q = without.find(B); if (q != string::npos) without.erase(q, B.size()); }
         want = lines_of(l.chatter + (banner_used ? without : f.text)); alt = want;
         bool maybe = false; // an earlier request that was hit by a fault may have used it up
         for (int q = 0; q < k; q++) maybe |= r.th[1 + i][q].rec.injected > 0;
         if (maybe) alt = lines_of(l.chatter + (banner_used ? f.text : without));
         if (!B.empty() && lnk) alt = lines_of(l.chatter);
      }
      if (got != want && got != alt) {
         std::istringstream a(want), b(got);
         string x, y;
         int n = 0;
         for (;;) { const bool u = (bool)std::getline(a, x), v = (bool)std::getline(b, y); if (!u) x = "(nothing)"; if (!v) y = "(nothing)"; if ((!u && !v) || x != y) break; n++; }
         bad("link-messages", "message " + std::to_string(n) + ": expected " + clip(x) + ", got " + clip(y));
      }
   }
   string flat;
   for (auto& m : l.msg) if (m.compare(0, 2, "I:") == 0) flat += m.substr(2) + "\n";
   if (count_of(flat, B) || count_of(o.text[2], B)) banner_used = true;
}

static Plan alt_plan(const Plan& p)
{
   Rng g(p.alt * 7919ull + 13);
   Plan q = p;
   q.alt = 0;
   static const uint64_t pat[] = {0, ~0ull, 0x7ff8000000000000ull, 0x3ff0000000000000ull, 0x5555555555555555ull, 0x4024000000000000ull, 0x8000000000000000ull};
   q.poison = pat[g.below(7)]; if (q.poison == p.poison) q.poison ^= 0x11;
   q.stack_poison = pat[1 + g.below(6)]; if (q.stack_poison == p.stack_poison) q.stack_poison ^= 0x11;
   q.env_seed = g.next() >> 8; q.env_perturb = !p.env_perturb;
   q.fpflags = g.below(64);
   if (g.chance(0.7)) q.heap = p.heap ^ 2;
   if (g.chance(0.3)) q.streamfmt ^= 4;
   if (g.chance(0.25)) q.streamfmt ^= 16;
   if (g.chance(0.3)) q.sinkpos = g.below(45);
   return q;
}

static vector<Finding> judge(const Plan& p, const Run& r, Run* altrun)
{
   vector<Finding> f;
   auto addv = [&](const Run& x, const char* pre) {
      for (const VRec& v : x.viol) {
         Finding q;
         q.kind = v.kind; q.pc = v.pc; q.pc2 = v.pc2; q.addr = v.addr;
         q.text = string(pre) + v.text;
         const int n = (int)p.th.size();
         if (v.tid >= 1 && v.tid <= n * rounds_of(p) && v.op >= 0 && v.op < (int)p.th[(v.tid - 1) % n].size()) q.text += string(" [thread ") + std::to_string(v.tid) + ", operation " + std::to_string(v.op) + ": " + op_name[p.th[(v.tid - 1) % n][v.op].kind] + "]";
         f.push_back(q);
      }
      if (x.nonsim_out) f.push_back(Finding{"stdout", string(pre) + "bytes written to the standard output: " + clip(x.stdout_bytes)});
   };
   addv(r, "");
   if (!r.viol.empty()) {
      static const char* const fatal_kinds[] = {"crash", "hang", "exit", "internal", "deadlock", "no-progress", "double-free", "bad-free", "heap-overflow", "use-after-free", "null-access", "bad-unlock", "bad-wait", "out-of-bounds", "missing-return"};
      for (auto k : fatal_kinds) for (auto& v : r.viol) if (v.kind == k) return f;
   }
   const int n = (int)p.th.size();
   bool any_sink = false, any_alloc = false;
   for (auto& x : p.faults) { any_sink |= is_sink(x.kind); any_alloc |= is_alloc(x.kind); }
   bool has_link = false;
   for (auto& t : p.th) for (auto& o : t) has_link |= o.kind == K_LL;
   const string B = has_link || p.prop == "C03" || p.prop == "C08" ? banner(p.streamfmt) : "";
   for (int rd = 0; rd < rounds_of(p); rd++)
      for (int i = 0; i < n; i++) {
         const int t = 1 + rd * n + i;
         bool banner_used = false;
         for (int k = 0; k < (int)p.th[i].size(); k++) {
            const Op& op = p.th[i][k];
            const OpOut& o = r.th[t][k];
            char where[80];
            snprintf(where, sizeof where, "thread %d, operation %d (%s): ", t, k, op_name[op.kind]);
            if (!o.done) { f.push_back(Finding{"not-finished", string(where) + "never finished"}); continue; }
            if (op.kind == K_LL) { if (rd == 0) judge_link(p, r, i, k, f, B, banner_used); continue; }
            if (!B.empty() && count_of(o.text[2], B)) banner_used = true;
            const bool asked = op.d == 1 && (op.kind == K_PRT || op.kind == K_PHO || op.kind == K_PFO || op.kind == K_PEFT); // printed there by the caller
            if (!o.text[1].empty() && !asked) f.push_back(Finding{"stdout", string(where) + "output on the standard output stream: " + clip(o.text[1])});
            if (o.out.empty()) { f.push_back(Finding{"wrong-result", string(where) + "no result"}); continue; }
            const unsigned char st = o.out[0];
            const bool alloc = o.rec.injected && faults_in(p, i, k, is_alloc);
            if (st == RS_OTHEREXC) { f.push_back(Finding{"unknown-exception", string(where) + "an exception that is not a std::exception"}); continue; }
            if (op.kind == K_VALUE) {
               if (st == RS_BADALLOC && !alloc) f.push_back(Finding{"wrong-result", string(where) + "bad_alloc although memory was available"});
               continue;
            }
            const Ref& ref = ref_of(p, i, k);
            if (!ref.bad.empty()) { f.push_back(Finding{ref.bad.substr(0, ref.bad.find(':')), string(where) + "alone in a fresh process: " + ref.bad}); continue; }
            const bool same = op.kind == K_RETRYVAL ? numbers_equal(o.out, ref.out, true) || (!o.out.empty() && !ref.out.empty() && o.out[0] == RS_STDEXC && ref.out[0] == RS_STDEXC) : o.out == ref.out;
            if (!same) {
               if (alloc && (st == RS_BADALLOC || st == RS_STDEXC || st == RS_IOFAIL)) ;
               else if (alloc && printed_in_part(o.out, ref.out)) ;
               else if (o.rec.injected && faults_in(p, i, k, is_except) && st == RS_IOFAIL) ;
               else f.push_back(Finding{"wrong-result", string(where) + first_difference((const unsigned char*)ref.out.data(), ref.out.size(), (const unsigned char*)o.out.data(), o.out.size())});
            }
         }
      }
   if (p.prop == "C03") {
      if (B.empty()) f.push_back(Finding{"banner", "creating two verbose calculators prints the banner never or twice"});
      size_t total = 0;
      bool must = false;
      for (int i = 0; i < n; i++)
         for (int k = 0; k < (int)p.th[i].size(); k++) {
            const Op& op = p.th[i][k];
            const OpOut& o = r.th[1 + i][k];
            const size_t c = count_of(o.text[2], B);
            total += c;
            const bool verb = (op.kind == K_NEWDEL && (op.a & 1)) || (op.kind == K_FULL && (op.b & 1) && op.slot < 0);
            if (c && !verb && !(op.kind == K_BAD && (op.b & 1))) f.push_back(Finding{"banner", "a quiet operation prints the banner"});
            if (verb && o.done && !o.out.empty() && o.out[0] == RS_OK && !o.rec.injected) must = true;
            if (n == 1 && must && !any_sink && !any_alloc && total == 0) { f.push_back(Finding{"banner", "the first verbose calculator does not print the banner"}); must = false; total = 1; }
         }
      if (total > 1) f.push_back(Finding{"banner", "the banner is printed " + std::to_string(total) + " times"});
      if (must && !any_sink && !any_alloc && total == 0) f.push_back(Finding{"banner", "a verbose calculator was created but no complete banner was printed"});
   }
   if (rounds_of(p) > 1) {
      const int R = rounds_of(p);
      const int H = std::max(2, R / 2); // state that is set up on first use is there by then
      if (r.round_live[R] > r.round_live[H]) f.push_back(Finding{"leak", "memory in use grows with repetitions: " + std::to_string(r.round_live[H]) + " bytes after repetition " + std::to_string(H) + ", " + std::to_string(r.round_live[R]) + " after repetition " + std::to_string(R)});
   }
   if (p.alt && altrun) {
      const Plan q = alt_plan(p);
      addv(*altrun, "second environment: ");
      const bool loc = (q.streamfmt ^ p.streamfmt) & (4 | 16);
      for (int i = 0; i < n; i++)
         for (int k = 0; k < (int)p.th[i].size(); k++) {
            const OpOut &a = r.th[1 + i][k], &b = altrun->th[1 + i][k];
            char where[80];
            snprintf(where, sizeof where, "thread %d, operation %d (%s): ", 1 + i, k, op_name[p.th[i][k].kind]);
            if (!b.done) { if (altrun->viol.empty()) f.push_back(Finding{"not-finished", string(where) + "never finished in the second environment"}); continue; }
            const bool same = loc ? numbers_equal(a.out, b.out, false) : a.out == b.out;
            if (!same) f.push_back(Finding{"not-reproducible", string(where) + "in another environment: " + first_difference((const unsigned char*)a.out.data(), a.out.size(), (const unsigned char*)b.out.data(), b.out.size())});
            else if (!loc && a.text[2] != b.text[2]) f.push_back(Finding{"not-reproducible", string(where) + "diagnostic output differs in another environment"});
         }
   }
   return f;
}

static bool exec_and_judge(const Plan& p, Run& r, vector<Finding>& f)
{
   r = run_plan(p);
   if (p.alt) { Run a = run_plan(alt_plan(p)); f = judge(p, r, &a); r.trace ^= a.trace * 3; r.steps += a.steps; r.events += a.events; r.env_calls += a.env_calls; }
   else f = judge(p, r, nullptr);
   return f.empty();
}

// ---------------------------------------------------------------- minimising
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static bool still(const Plan& p, const string& kind)
{
   Run r; vector<Finding> f;
   exec_and_judge(p, r, f);
   for (auto& x : f) if (x.kind == kind) return true;
   return false;
}
static void drop_unused(Plan& p)
{
   vector<int> pt(p.pts.size(), -1), ob(p.obj.size(), -1);
   Plan q = p;
   q.pts.clear(); q.obj.clear();
   auto use_pt = [&](int i) { if (pt[i] < 0) { pt[i] = (int)q.pts.size(); q.pts.push_back(p.pts[i]); } return pt[i]; };
   auto use_ob = [&](int i) { if (i < 0) return -1; if (ob[i] < 0) { Obj o = p.obj[i]; o.pt = use_pt(o.pt); ob[i] = (int)q.obj.size(); q.obj.push_back(o); } return ob[i]; };
   for (auto& t : q.th) for (auto& o : t) { o.pt = use_pt(o.pt); o.slot = use_ob(o.slot); o.ho = use_ob(o.ho); }
   p = q;
}
static Plan minimise(Plan p, const string& kind, double limit)
{
   const double end = now() + limit;
   int tries = 0;
   auto attempt = [&](Plan q) {
      if (now() > end) return false;
      tries++;
      if (still(q, kind)) { p = q; return true; }
      if (q.th.size() > 1 && !q.has_list)
         for (int s = 1; s <= 3 && now() < end; s++) { q.sched_seed = p.sched_seed * 31 + s; if (still(q, kind)) { p = q; return true; } }
      return false;
   };
   bool again = true;
   while (again && now() < end) {
      again = false;
      for (int i = (int)p.th.size() - 1; i >= 0 && p.th.size() > 1; i--) {
         Plan q = p;
         q.th.erase(q.th.begin() + i);
         if (i < (int)q.stage.size()) q.stage.erase(q.stage.begin() + i);
         vector<rt::Fault> fs;
         for (auto x : q.faults) { if (x.thread == i) continue; if (x.thread > i) x.thread--; fs.push_back(x); }
         q.faults = fs;
         if (attempt(q)) again = true;
      }
      for (int i = 0; i < (int)p.th.size(); i++)
         for (int k = (int)p.th[i].size() - 1; k >= 0; k--) {
            if (p.th[i].size() <= 1 || i >= (int)p.th.size()) break;
            Plan q = p;
            q.th[i].erase(q.th[i].begin() + k);
            vector<rt::Fault> fs;
            for (auto x : q.faults) { if (x.thread == i) { if (x.op == k) continue; if (x.op > k) x.op--; } fs.push_back(x); }
            q.faults = fs;
            if (attempt(q)) again = true;
         }
      for (int i = (int)p.faults.size() - 1; i >= 0; i--) { Plan q = p; q.faults.erase(q.faults.begin() + i); if (attempt(q)) again = true; }
   }
   for (size_t i = 0; i < p.faults.size(); i++) if (p.faults[i].len != 1) { Plan q = p; q.faults[i].len = 1; attempt(q); }
   // plainer points
   { Plan q = p; drop_unused(q); attempt(q); }
   for (size_t i = 0; i < p.pts.size(); i++) { Plan q = p; q.pts[i] = default_point(); attempt(q); }
   const Point d = default_point();
   for (size_t i = 0; i < p.pts.size(); i++)
      for (int k = 0; k < NP && now() < end; k++)
         if (memcmp(&p.pts[i].v[k], &d.v[k], 8)) { Plan q = p; q.pts[i].v[k] = d.v[k]; attempt(q); }
   if (p.stack_poison) { Plan q = p; q.stack_poison = 0; attempt(q); }
   // explicit schedule
   if (p.th.size() > 1 && !p.has_list) {
      Run r; vector<Finding> f;
      exec_and_judge(p, r, f);
      if (r.nswitch < rt::MAXSW) {
         Plan q = p;
         q.has_list = true; q.list = r.sw;
         if (still(q, kind)) {
            p = q;
            for (size_t chunk = std::max<size_t>(1, p.list.size() / 2); now() < end; chunk = std::max<size_t>(1, chunk / 2)) {
               bool any = false;
               for (size_t o = 0; o < p.list.size() && now() < end;) {
                  Plan w = p;
                  w.list.erase(w.list.begin() + o, w.list.begin() + std::min(o + chunk, w.list.size()));
                  if (still(w, kind)) { p = w; any = true; } else o += chunk;
               }
               if (chunk == 1 && !any) break;
            }
         }
      }
   }
   return p;
}

// ---------------------------------------------------------------- output
static string jstr(const string& s)
{
   string r = "\"";
   char b[8];
   for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
   }
   return r + "\"";
}
static void print_findings(const vector<Finding>& f)
{
   printf("[");
   for (size_t i = 0; i < f.size(); i++)
      printf("%s{\"kind\":%s,\"text\":%s,\"pc\":%llu,\"pc2\":%llu,\"addr\":%llu}", i ? "," : "", jstr(f[i].kind).c_str(), jstr(f[i].text).c_str(),
             (unsigned long long)f[i].pc, (unsigned long long)f[i].pc2, (unsigned long long)f[i].addr);
   printf("]");
}
static void print_run(const Plan& p, const Run& r, const vector<Finding>& f)
{
   size_t nops = 0;
   for (auto& t : p.th) nops += t.size();
   uint32_t fired = 0;
   for (auto x : r.fired) fired += x;
   printf("{\"seed\":%llu,\"scen\":%s,\"threads\":%zu,\"ops\":%zu,\"trace\":\"%016llx\",\"shape\":\"%016llx\",\"steps\":%llu,\"events\":%llu,\"shared\":%llu,\"switches\":%u,\"preempt\":%u,\"env\":%u,\"nfired\":%u,\"fired\":{",
          (unsigned long long)p.seed, jstr(p.scen).c_str(), p.th.size(), nops, (unsigned long long)r.trace, (unsigned long long)r.shape,
          (unsigned long long)r.steps, (unsigned long long)r.events, (unsigned long long)r.shared_events, r.nswitch, r.preempt, r.env_calls, fired);
   bool first = true;
   for (int i = 0; i < rt::F_N; i++) if (r.fired[i]) { printf("%s\"%s\":%u", first ? "" : ",", rt::fault_name[i], r.fired[i]); first = false; }
   printf("},\"planned\":%zu,\"v\":", p.faults.size());
   print_findings(f);
   printf("}\n");
}

static void warmup()
{
   // library-internal caches of the C++ runtime are filled before the first run,
   // so that a run behaves the same in a batch and alone
   std::ostringstream o;
   o << 1.5 << 1 << 1L << 2u << 3ull << 'c' << true << std::setw(4) << std::setprecision(3) << std::fixed << 2.5 << std::hex << 255 << (void*)nullptr << std::endl << std::flush;
   std::istringstream i("1 2.5 abc");
   int a; double d; string s;
   i >> a >> d >> s;
   std::getline(i, s);
   s = std::to_string(3) + std::to_string(2.5);
   try { throw std::runtime_error("x"); } catch (const std::exception& e) { s = e.what(); }
   std::locale l = std::locale::classic();
   (void)std::use_facet<std::numpunct<char>>(l).decimal_point();
   char b[64];
   snprintf(b, sizeof b, "%.17g %Lg", 1.5, (long double)2.5);
   time_t t = 0; struct tm tmv; localtime_r(&t, &tmv); tzset();
   std::cout << std::flush; std::cerr << std::flush;
}

static string slurp(const char* f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static Plan load(const char* f)
{
   Plan p; string e;
   if (!plan_parse(slurp(f), p, e)) { fprintf(stderr, "sim: %s: %s\n", f, e.c_str()); exit(3); }
   return p;
}

int main(int argc, char** argv)
{
   const int per = personality(0xffffffff);
   if (!(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
      personality(per | ADDR_NO_RANDOMIZE);
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
   }
   if (argc < 3) { fprintf(stderr, "usage: sim batch PROP SEED0 STRIDE N LIMIT TIER | exec PLAN | gen PROP SEED TIER | minimize PLAN KIND LIMIT OUT\n"); return 3; }
   { // the locale made with the simulator
      char exe[4096];
      const ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
      if (k > 0) { const string e(exe, k); setenv("LOCPATH", (e.substr(0, e.rfind('/')) + "/locale").c_str(), 1); }
   }
   // what every process has
   setenv("LANG", "C", 1); setenv("LC_NUMERIC", "C", 1); setenv("HOME", "/nonexistent", 1); setenv("PATH", "/bin", 0); setenv("OMP_NUM_THREADS", "2", 1);
   struct rlimit rl = {0, 0};
   setrlimit(RLIMIT_CORE, &rl);
   out_fd = memfd_create("out", 0); err_fd = memfd_create("err", 0);
   S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (S == MAP_FAILED) return 3;
   rt::init_process();
   warmup();
   const string cmd = argv[1];
   if (cmd == "gen") {
      const Plan p = gen_plan(argv[2], strtoull(argv[3], nullptr, 10), argc > 4 ? atoi(argv[4]) : 0);
      fputs(plan_text(p).c_str(), stdout);
      return 0;
   }
   if (cmd == "exec") {
      const Plan p = load(argv[2]);
      g_env_checks = p.prop == "C07";
      Run r; vector<Finding> f;
      exec_and_judge(p, r, f);
      print_run(p, r, f);
      if (argc > 3) {
         for (size_t t = 1; t < r.th.size(); t++)
            for (size_t k = 0; k < r.th[t].size(); k++) {
               const OpOut& o = r.th[t][k];
               printf("# thread %zu op %zu %s done=%d alloc=%u write=%u link=%u inj=%u steps=%llu live=%lld: %s\n", t, k, op_name[p.th[(t - 1) % p.th.size()][k].kind], o.done, o.rec.nalloc, o.rec.nwrite, o.rec.nlink, o.rec.injected, (unsigned long long)o.rec.steps, (long long)o.rec.live,
                      describe_result((const unsigned char*)o.out.data(), o.out.size()).c_str());
               if (atoi(argv[3]) > 1) printf("#   cout {%s} cerr {%s}\n", o.text[1].c_str(), o.text[2].c_str());
            }
         printf("# live after phases:"); for (int i = 0; i < 6; i++) printf(" %lld/%u", (long long)r.round_live[i], r.round_blocks[i]); printf("\n");
      }
      return f.empty() ? 0 : 1;
   }
   if (cmd == "minimize") {
      const Plan p = load(argv[2]);
      g_env_checks = p.prop == "C07";
      const Plan q = minimise(p, argv[3], atof(argv[4]));
      std::ofstream(argv[5]) << plan_text(q);
      return 0;
   }
   if (cmd == "batch") {
      const string prop = argv[2];
      const uint64_t s0 = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10);
      const double end = now() + atof(argv[6]);
      const int tier = argc > 7 ? atoi(argv[7]) : 0;
      g_env_checks = prop == "C07";
      std::map<string, uint64_t> opc;
      int nviol = 0;
      for (uint64_t i = 0; i < n && now() < end; i++) {
         const Plan p = gen_plan(prop, s0 + i * stride, tier);
         Run r; vector<Finding> f;
         exec_and_judge(p, r, f);
         print_run(p, r, f);
         for (size_t t = 1; t < r.th.size(); t++)
            for (size_t k = 0; k < r.th[t].size(); k++) {
               const OpOut& o = r.th[t][k];
               static const char* const st[] = {"?", "ok", "bad_alloc", "exception", "stream-failure", "other"};
               opc[string(op_name[p.th[(t - 1) % p.th.size()][k].kind]) + " " + (o.done && !o.out.empty() ? st[(unsigned char)o.out[0] <= 5 ? (unsigned char)o.out[0] : 0] : "unfinished")]++;
            }
         if (!f.empty()) { fflush(stdout); if (++nviol >= 3) break; }
      }
      printf("{\"end\":1,\"forks\":%llu,\"opcount\":{", (unsigned long long)n_forks);
      bool first = true;
      for (auto& x : opc) { printf("%s%s:%llu", first ? "" : ",", jstr(x.first).c_str(), (unsigned long long)x.second); first = false; }
      printf("}}\n");
      return 0;
   }
   return 3;
}
bool ref_is_ok(const Plan& p, const Op& o) { const Ref& f = ref_of(p, o); return f.bad.empty() && !f.out.empty() && f.out[0] == RS_OK; }
