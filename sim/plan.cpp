// Plans as text, and the generators of parameter points.
#include "plan.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <limits>
#include <sstream>

const char* const op_name[K_N] = {
   "full", "compare", "hierarchy", "mt41l", "mt42l", "mdr-shift", "mst-mdr", "exp-uncertainty",
   "fo", "fo-custom", "eft", "eft-custom", "threshold", "threshold-shift", "dsz",
   "validate", "print-parameters", "print-result", "print-fo", "print-eft", "notation", "bad-call", "get-result",
   "link-request", "link-reference", "link-text", "value-history", "new-delete", "retry-validate", "uncertainty-2",
   "loop-functions", "set", "scan"};

static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }

std::string plan_text(const Plan& p)
{
   std::string s;
   char b[256];
#define OUT(...) do { snprintf(b, sizeof b, __VA_ARGS__); s += b; } while (0)
   OUT("plan 1\nprop %s\nseed %llu\nscen %s\n", p.prop.c_str(), (unsigned long long)p.seed, p.scen.empty() ? "-" : p.scen.c_str());
   OUT("memory %llx %llx %u\n", (unsigned long long)p.poison, (unsigned long long)p.stack_poison, p.stack_poison_bytes);
   OUT("env %llx %d %d %d %u\n", (unsigned long long)p.env_seed, p.env_perturb, p.fround, p.streamfmt, p.fpflags);
   OUT("sched %d %u %u %u %u %llu %llx\n", p.mode, p.p_shared, p.p_func, p.pct_depth, p.max_switches, (unsigned long long)p.pct_horizon, (unsigned long long)p.sched_seed);
   if (p.heap) OUT("heap %d\n", p.heap);
   if (!p.stage.empty()) { s += "stages"; for (int x : p.stage) OUT(" %d", x); s += "\n"; }
   if (p.samethread) OUT("samethread %d\n", p.samethread);
   if (p.sinkpos) OUT("sinkpos %d\n", p.sinkpos);
   if (p.repeat) OUT("repeat %d\n", p.repeat);
   if (p.alt) OUT("alt %d\n", p.alt);
   const Point d = default_point();
   for (const Point& q : p.pts) {
      s += "pt";
      for (int i = 0; i < NP; i++) if (bits(q.v[i]) != bits(d.v[i])) OUT(" %d:%llx", i, (unsigned long long)bits(q.v[i]));
      s += "\n";
   }
   for (const Obj& o : p.obj) OUT("obj %d %d %d %d %d\n", o.type, o.pt, o.a, o.b, o.shared ? 1 : 0);
   for (const auto& t : p.th) {
      s += "thread\n";
      for (const Op& o : t) OUT("op %s %d %d %d %d %d %d %d\n", op_name[o.kind], o.pt, o.a, o.b, o.c, o.d, o.slot, o.ho);
   }
   for (const rt::Fault& f : p.faults) OUT("fault %s %d %d %u %u %u\n", rt::fault_name[f.kind], f.thread, f.op, f.n, f.len, f.arg);
   if (p.has_list) {
      s += "schedule\n";
      for (const rt::Switch& w : p.list) OUT("sw %d %u %d\n", w.tid, w.ev, w.to);
   }
   s += "end\n";
#undef OUT
   return s;
}

bool plan_parse(const std::string& text, Plan& p, std::string& err)
{
   p = Plan();
   std::istringstream in(text);
   std::string line;
   bool ended = false;
   while (std::getline(in, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::istringstream l(line);
      std::string w;
      l >> w;
      if (w == "plan") { int v = 0; l >> v; if (v != 1) { err = "unknown version"; return false; } }
      else if (w == "prop") l >> p.prop;
      else if (w == "seed") l >> p.seed;
      else if (w == "scen") l >> p.scen;
      else if (w == "memory") { l >> std::hex >> p.poison >> p.stack_poison >> std::dec >> p.stack_poison_bytes; }
      else if (w == "env") { l >> std::hex >> p.env_seed >> std::dec >> p.env_perturb >> p.fround >> p.streamfmt >> p.fpflags; }
      else if (w == "sched") { l >> p.mode >> p.p_shared >> p.p_func >> p.pct_depth >> p.max_switches >> p.pct_horizon >> std::hex >> p.sched_seed; }
      else if (w == "heap") l >> p.heap;
      else if (w == "stages") { int x; while (l >> x) p.stage.push_back(x); l.clear(); }
      else if (w == "samethread") l >> p.samethread;
      else if (w == "sinkpos") l >> p.sinkpos;
      else if (w == "repeat") l >> p.repeat;
      else if (w == "alt") l >> p.alt;
      else if (w == "pt") {
         Point q = default_point();
         std::string e;
         while (l >> e) {
            int i; unsigned long long u;
            if (sscanf(e.c_str(), "%d:%llx", &i, &u) != 2 || i < 0 || i >= NP) { err = "bad point"; return false; }
            q.v[i] = dbl(u);
         }
         p.pts.push_back(q);
         l.clear();
      }
      else if (w == "obj") { Obj o; int sh = 0; l >> o.type >> o.pt >> o.a >> o.b >> sh; o.shared = sh; p.obj.push_back(o); }
      else if (w == "thread") p.th.emplace_back();
      else if (w == "op") {
         Op o; std::string k;
         l >> k >> o.pt >> o.a >> o.b >> o.c >> o.d >> o.slot >> o.ho;
         o.kind = -1;
         for (int i = 0; i < K_N; i++) if (k == op_name[i]) o.kind = i;
         if (o.kind < 0 || p.th.empty()) { err = "bad operation " + k; return false; }
         p.th.back().push_back(o);
      }
      else if (w == "fault") {
         rt::Fault f; std::string k;
         l >> k >> f.thread >> f.op >> f.n >> f.len >> f.arg;
         f.kind = -1;
         for (int i = 0; i < rt::F_N; i++) if (k == rt::fault_name[i]) f.kind = i;
         if (f.kind < 0) { err = "bad fault " + k; return false; }
         p.faults.push_back(f);
      }
      else if (w == "schedule") p.has_list = true;
      else if (w == "sw") { rt::Switch q; l >> q.tid >> q.ev >> q.to; p.list.push_back(q); }
      else if (w == "end") { ended = true; break; }
      else { err = "unknown line " + w; return false; }
      if (!l && !l.eof()) { err = "cannot read line: " + line; return false; }
   }
   if (!ended) { err = "truncated plan"; return false; }
   for (auto& o : p.obj) if (o.pt < 0 || o.pt >= (int)p.pts.size()) { err = "bad point index"; return false; }
   for (auto& t : p.th) for (auto& o : t) if (o.pt < 0 || o.pt >= (int)p.pts.size() || o.slot >= (int)p.obj.size() || o.ho >= (int)p.obj.size()) { err = "bad index"; return false; }
   return true;
}

// ---------------------------------------------------------------- points
static const double qnan = std::numeric_limits<double>::quiet_NaN();

static void set_diag(Point& p, int m, double a, double b, double c) { p.v[m] = a; p.v[m + 4] = b; p.v[m + 8] = c; }

// all soft masses equal to MS
static Point base_point(double MS, double xt, double tb)
{
   Point p;
   for (int i = 0; i < NP; i++) p.v[i] = 0;
   p.v[P_SCALE] = MS; p.v[P_MU] = MS; p.v[P_G1] = 0.46; p.v[P_G2] = 0.65; p.v[P_G3] = 1.166;
   const double beta = std::atan(tb);
   p.v[P_VU] = 246 * std::sin(beta); p.v[P_VD] = 246 * std::cos(beta);
   for (int m : {P_MQ2, P_MD2, P_MU2, P_ML2, P_ME2}) set_diag(p, m, MS * MS, MS * MS, MS * MS);
   p.v[P_AU + 8] = xt * MS + MS / tb;
   p.v[P_YU + 8] = 0.862; p.v[P_YD + 8] = 0.133; p.v[P_YE + 8] = 0.101;
   p.v[P_M1] = MS; p.v[P_M2] = MS; p.v[P_MG] = MS; p.v[P_MA] = MS;
   for (int i = P_MW; i <= P_MTAU; i++) p.v[i] = qnan;
   for (int i = P_MST; i <= P_THTAU; i++) p.v[i] = qnan;
   p.v[P_LIM] = 0;
   return p;
}

Point default_point() { return base_point(2000, 0.5, 10); }

static double sq(double x) { return x * x; }

static Point valid_point(Rng& r)
{
   const double MS = 500 * std::exp(r.uni(0, 3.0));
   Point p = base_point(MS, r.uni(-2.5, 2.5), std::exp(r.uni(0.7, 4.0)));
   p.v[P_SCALE] = MS * std::exp(r.uni(-0.7, 0.7));
   const double spread = r.chance(0.3) ? 0.05 : r.chance(0.5) ? 0.5 : 1.2;
   auto mass = [&] { return MS * std::exp(r.uni(-spread, spread)); };
   // the light squarks are usually the heaviest: most hierarchies need that
   const double msq = r.chance(0.8) ? MS * std::exp(r.uni(0, spread * 1.5)) : mass();
   const double mq3 = mass(), mu3 = r.chance(0.2) ? mq3 : mass(), md3 = r.chance(0.5) ? msq : mass();
   set_diag(p, P_MQ2, sq(msq), sq(msq * (r.chance(0.3) ? r.uni(0.9, 1.1) : 1)), sq(mq3));
   set_diag(p, P_MU2, sq(msq), sq(msq), sq(mu3));
   set_diag(p, P_MD2, sq(msq), sq(msq), sq(md3));
   set_diag(p, P_ML2, sq(mass()), sq(mass()), sq(mass()));
   set_diag(p, P_ME2, sq(mass()), sq(mass()), sq(mass()));
   p.v[P_MG] = r.chance(0.15) ? mq3 : mass();
   p.v[P_M1] = mass() * (r.chance(0.2) ? -1 : 1); p.v[P_M2] = mass(); p.v[P_MA] = mass();
   p.v[P_MU] = mass() * (r.chance(0.3) ? -1 : 1);
   const double tb = p.v[P_VU] / p.v[P_VD];
   const double m3 = std::sqrt(mq3 * mu3);
   p.v[P_AU + 8] = r.uni(-2, 2) * m3 + p.v[P_MU] / tb;
   if (r.chance(0.6)) p.v[P_AD + 8] = r.uni(-1, 1) * m3;
   if (r.chance(0.6)) p.v[P_AE + 8] = r.uni(-1, 1) * m3;
   p.v[P_G1] *= r.uni(0.9, 1.1); p.v[P_G2] *= r.uni(0.9, 1.1); p.v[P_G3] *= r.uni(0.8, 1.1);
   p.v[P_YU + 8] *= r.uni(0.8, 1.1); p.v[P_YD + 8] *= r.uni(0.2, 2); p.v[P_YE + 8] *= r.uni(0.2, 2);
   if (r.chance(0.3)) { p.v[P_YU + 4] = 0.003; p.v[P_YD + 4] = 0.002; p.v[P_YU] = 1e-5; p.v[P_YD] = 1e-5; }
   if (r.chance(0.15)) { const double e = 0.01 * sq(MS); p.v[P_MQ2 + 1] = p.v[P_MQ2 + 3] = e; }
   if (r.chance(0.25)) { p.v[P_MW] = 74.6; p.v[P_MZ] = 85.7; }
   if (r.chance(0.25)) { p.v[P_MT] = 146.9; p.v[P_MB] = 2.37; p.v[P_MTAU] = 1.77; }
   if (r.chance(0.25)) {
      const double a = std::min(mq3, mu3), b = std::max(mq3, mu3) * 1.01;
      p.v[P_MST] = a; p.v[P_MST + 1] = b; p.v[P_S2T] = r.uni(-0.9, 0.9);
      if (r.chance(0.5)) { p.v[P_MSB] = std::min(mq3, md3); p.v[P_MSB + 1] = std::max(mq3, md3) * 1.01; p.v[P_S2B] = r.uni(-0.5, 0.5); }
   }
   if (r.chance(0.2)) p.v[P_LIM] = r.below(6);
   return p;
}

// some masses are (almost) equal
static void nearly_equal(Rng& r, Point& p)
{
   static const int lin[] = {P_MG, P_M1, P_M2, P_MA, P_MU, P_SCALE}, sqr[] = {P_MQ2, P_MU2, P_MD2, P_ML2, P_ME2};
   const double e = r.chance(0.15) ? 0 : std::pow(10, r.uni(-12, -1.5)) * (r.chance(0.5) ? 1 : -1);
   const int a = sqr[r.below(5)] + (r.chance(0.8) ? 8 : 0), b = sqr[r.below(5)] + (r.chance(0.8) ? 8 : 0), c = lin[r.below(6)], d = lin[r.below(6)];
   switch (r.below(5)) {
   case 0: p.v[P_MU2 + 8] = p.v[P_MQ2 + 8] * (1 + e); break;
   case 1: p.v[b] = p.v[a] * (1 + e); break;
   case 2: p.v[c] = std::sqrt(std::fabs(p.v[a])) * (1 + e); break;
   case 3: p.v[c] = p.v[d] * (1 + e); if (c != P_MU && c != P_M1) p.v[c] = std::fabs(p.v[c]); break;
   default: // masses given
      p.v[P_MST] = std::sqrt(std::fabs(p.v[P_MQ2 + 8])); p.v[P_MST + 1] = p.v[P_MST] * (1 + std::fabs(e)); p.v[P_S2T] = r.uni(-0.9, 0.9);
      if (r.chance(0.4)) { p.v[P_MSB] = p.v[P_MST]; p.v[P_MSB + 1] = p.v[P_MST + 1]; p.v[P_S2B] = r.uni(-0.5, 0.5); }
      if (r.chance(0.3)) p.v[P_MG] = p.v[P_MST + 1] * (1 + e);
   }
}

// mass patterns (in units of the mean squark mass), one for every expansion
static Point hier_point(Rng& r)
{
   const double MS = 700 * std::exp(r.uni(0, 2.3));
   Point p = base_point(MS, 0, std::exp(r.uni(0.9, 3.9)));
   double m1, m2, g;
   switch (r.below(14)) {
   case 0: m1 = r.uni(0.9, 1); m2 = m1 * r.uni(1, 1.05); g = m2 * r.uni(1.01, 1.2); break;       // h3
   case 1: m2 = r.uni(1, 1.25); m1 = m2 * r.uni(0.85, 1); g = m2 * r.uni(0.75, 0.99); break;     // h32q2g
   case 2: m2 = r.uni(0.8, 0.99); m1 = m2 * r.uni(0.85, 1); g = m2 * r.uni(0.75, 0.99); break;   // h3q22g
   case 3: m1 = r.uni(0.3, 0.7); m2 = m1 * r.uni(1, 1.3); g = m1 * r.uni(0.6, 1); break;         // h4
   case 4: m1 = r.uni(0.25, 0.6); m2 = r.uni(0.8, 0.98); g = m1 * r.uni(0.8, 1); break;          // h5
   case 5: m1 = r.uni(0.25, 0.6); m2 = r.uni(0.85, 0.98); g = m1 * r.uni(1.01, 1.25); break;     // h5g1
   case 6: m1 = r.uni(0.15, 0.4); m2 = r.uni(0.55, 0.75); g = m2 * r.uni(0.85, 1); break;        // h6
   case 7: m1 = r.uni(0.15, 0.4); m2 = r.uni(0.55, 0.75); g = m2 * r.uni(1.01, 1.2); break;      // h6g2
   case 8: m1 = r.uni(0.2, 0.7); m2 = r.uni(1.01, 1.25); g = m2 * r.uni(0.85, 1); break;         // h6b
   case 9: m1 = r.uni(0.2, 0.7); m2 = r.uni(1.01, 1.15); g = m2 * r.uni(1.01, 1.12); break;      // h6b2qg2
   case 10: m1 = r.uni(0.2, 0.6); m2 = r.uni(0.8, 0.98); g = m2 * r.uni(0.85, 1); break;         // h6bq22g
   case 11: m1 = r.uni(0.2, 0.6); m2 = r.uni(0.8, 0.98); g = m2 * r.uni(1.01, 1.2); break;       // h6bq2g2
   case 12: m2 = r.uni(1.01, 1.25); m1 = m2 * r.uni(0.9, 1); g = r.uni(0.1, 0.6); break;         // h9
   default: m2 = r.uni(0.85, 0.99); m1 = m2 * r.uni(0.9, 1); g = r.uni(0.1, 0.6); break;         // h9q2
   }
   const bool swap = r.chance(0.5), bottom = r.chance(0.4);
   const double q3 = MS * (swap ? m1 : m2), u3 = MS * (swap ? m2 : m1);
   p.v[P_MQ2 + 8] = sq(q3); p.v[P_MU2 + 8] = sq(u3);
   if (bottom) p.v[P_MD2 + 8] = sq(u3);
   p.v[P_MG] = g * MS;
   p.v[P_SCALE] = MS * r.uni(0.6, 1.2);
   p.v[P_AU + 8] = r.uni(-0.3, 0.3) * std::sqrt(q3 * u3) + p.v[P_MU] * p.v[P_VD] / p.v[P_VU];
   if (r.chance(0.4)) { // masses given
      p.v[P_MST] = MS * std::min(m1, m2); p.v[P_MST + 1] = MS * std::max(m1, m2); p.v[P_S2T] = r.uni(-0.9, 0.9);
      if (bottom) { p.v[P_MSB] = p.v[P_MST]; p.v[P_MSB + 1] = p.v[P_MST + 1]; p.v[P_S2B] = r.uni(-0.5, 0.5); }
   }
   return p;
}

Point gen_point(Rng& r, int family)
{
   switch (family) {
   case FAM_TESTLIKE: return base_point(500 * std::exp(r.uni(0, 3.0)), r.uni(-2.4, 2.4), std::exp(r.uni(1.0, 3.9)));
   case FAM_VALID: { const double u = r.uni(); Point p = u < 0.3 ? gen_point(r, FAM_TESTLIKE) : u < 0.6 ? gen_point(r, FAM_HIER) : valid_point(r);
      for (double c = 0.2; r.chance(c); c = 0.4) nearly_equal(r, p);
      return p; }
   case FAM_HIER: return hier_point(r);
   case FAM_NOISY: { Point p = r.chance(0.5) ? gen_point(r, FAM_TESTLIKE) : valid_point(r); // prints its computed masses
      for (int i = P_MST; i <= P_THTAU; i++) p.v[i] = qnan;
      if (r.chance(0.15)) { // some corrections are undefined: warnings
         static const int f[] = {P_MU, P_MA, P_G3, P_SCALE, P_AU + 8, P_MU2 + 8};
         const double tb = p.v[P_VU] / p.v[P_VD], mt = p.v[P_YU + 8] * p.v[P_VU] / std::sqrt(2.0), xt = p.v[P_AU + 8] - p.v[P_MU] / tb;
         const double a = p.v[P_MQ2 + 8] + mt * mt, b = p.v[P_MU2 + 8] + mt * mt, m = 0.5 * (a + b), d = std::sqrt(0.25 * (a - b) * (a - b) + mt * mt * xt * xt);
         if (m > d) { p.v[P_MST] = std::sqrt(m - d); p.v[P_MST + 1] = std::sqrt(m + d); p.v[P_S2T] = std::fmax(-1, std::fmin(1, d > 0 ? mt * xt / d : 0)); }
         if (r.chance(0.3)) { static const int z[] = {P_MU, P_MA, P_MG}; p.v[z[r.below(3)]] = 0; }
         else p.v[f[r.below(6)]] = qnan;
      }
      return p; }
   case FAM_INVALID: {
      Point p = gen_point(r, FAM_VALID);
      switch (r.below(7)) {
      case 0: p.v[P_MQ2 + 4 * r.below(3)] = -1e6; break;
      case 1: p.v[P_MG] = -p.v[P_MG]; break;
      case 2: p.v[P_VU] = 0; break;
      case 3: p.v[P_VD] = qnan; break;
      case 4: p.v[P_AU + 8] = 40 * p.v[P_SCALE] * p.v[P_SCALE] / 174; p.v[P_MST] = p.v[P_MST + 1] = p.v[P_S2T] = p.v[P_THT] = qnan; break; // tachyonic stop
      case 5: p.v[P_MU2 + 8] = -4e6; break;
      default: p.v[P_AE + 8] = 1e4 * p.v[P_SCALE] * p.v[P_SCALE] / 174; p.v[P_MSTAU] = p.v[P_MSTAU + 1] = p.v[P_S2TAU] = p.v[P_THTAU] = qnan; break;
      }
      return p; }
   case FAM_NOHIER: {
      Point p = gen_point(r, FAM_TESTLIKE);
      if (r.chance(0.5)) p.v[P_MG] *= 4;
      else { p.v[P_MQ2 + 8] *= 16; p.v[P_MU2 + 8] *= 16; }
      return p; }
   default: {
      const double u = r.uni();
      if (u < 0.5) return gen_point(r, FAM_VALID);
      if (u < 0.7) return gen_point(r, FAM_TESTLIKE);
      if (u < 0.85) return gen_point(r, FAM_NOISY);
      if (u < 0.93) return gen_point(r, FAM_INVALID);
      return gen_point(r, FAM_NOHIER); }
   }
}

// a neighbour: one or few fields differ
Point mutate_point(Rng& r, const Point& q)
{
   Point p = q;
   const int n = r.chance(0.8) ? 1 : 2;
   for (int k = 0; k < n; k++) {
      static const int f[] = {P_SCALE, P_MU, P_G1, P_G2, P_G3, P_VD, P_VU, P_MQ2, P_MQ2 + 4, P_MQ2 + 8, P_MD2, P_MD2 + 4, P_MD2 + 8,
         P_MU2, P_MU2 + 4, P_MU2 + 8, P_ML2 + 8, P_ME2 + 8, P_AU + 8, P_AD + 8, P_AE + 8, P_YU + 8, P_YD + 8, P_YE + 8,
         P_M1, P_M2, P_MG, P_MA, P_MG, P_AU + 8, P_SCALE, P_G3, P_MT, P_MB, P_MTAU, P_MW, P_MZ};
      static const int sg[] = {P_MU, P_MU, P_AU + 8, P_AU + 8, P_AD + 8, P_AE + 8, P_M1, P_M2, P_MG};
      if (r.chance(0.12)) { double& x = p.v[sg[r.below(sizeof sg / sizeof *sg)]]; x = -x; continue; } // the same masses, other mixings
      const int i = f[r.below(sizeof f / sizeof *f)];
      switch (r.below(4)) {
      case 0: p.v[i] *= r.uni(0.97, 1.03); break;
      case 1: p.v[i] = std::nextafter(p.v[i], 1e300); break;
      case 2: p.v[i] *= r.uni(0.7, 1.4); break;
      default: if (p.v[i] != 0) p.v[i] *= 1 + 1e-7; else p.v[i] = 1e-3;
      }
   }
   return p;
}

Point corrupt_point(Rng& r, const Point& q)
{
   static const double special[] = {0.0, -0.0, qnan, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
      1e308, -1e308, 1e-308, 4.9e-324, -4.9e-324, 1e154, 1e155, 1e-155, 1e-160, 1e30, -1, 1, 1e16, -1e-16, 2.2250738585072014e-308};
   Point p = q;
   const int n = r.chance(0.6) ? 1 : r.chance(0.7) ? r.range(2, 5) : r.range(6, 60);
   for (int k = 0; k < n; k++) {
      // favour the fields that matter most
      static const int f[] = {P_SCALE, P_MU, P_G1, P_G2, P_G3, P_VD, P_VU, P_MQ2 + 8, P_MD2 + 8, P_MU2 + 8, P_ML2 + 8, P_ME2 + 8,
         P_AU + 8, P_AD + 8, P_AE + 8, P_YU + 8, P_YD + 8, P_YE + 8, P_M1, P_M2, P_MG, P_MW, P_MZ, P_MT, P_MB, P_MTAU, P_MA,
         P_MST, P_MST + 1, P_MSB, P_MSB + 1, P_MSTAU, P_MSTAU + 1, P_S2T, P_S2B, P_S2TAU, P_THT, P_THB, P_THTAU};
      const int i = r.chance(0.7) ? f[r.below(sizeof f / sizeof *f)] : (int)r.below(P_LIM);
      if (p.v[i] != p.v[i] && i >= P_MW && i < P_LIM && r.chance(0.7)) // not given: damage a given one
         p.v[i] = i >= P_S2T ? r.uni(-1, 1) : i >= P_MST ? r.uni(100, 3000) : i == P_MA ? r.uni(100, 3000) : r.uni(1, 200);
      switch (r.below(7)) {
      case 5: p.v[i] = -p.v[i]; break;
      case 6: p.v[i] *= std::pow(10.0, r.range(-12, 12)); break;
      case 0: { const uint64_t u = bits(p.v[i]) ^ 1ull << r.below(64); p.v[i] = dbl(u); break; }
      case 1: { uint64_t u = bits(p.v[i]); for (int j = 0; j < 3; j++) u ^= 1ull << r.below(64); p.v[i] = dbl(u); break; }
      case 2: p.v[i] = dbl(r.next()); break;
      default: p.v[i] = special[r.below(sizeof special / sizeof *special)];
      }
   }
   if (r.chance(0.15)) { // two values that belong together
      static const int pr[][2] = {{P_MST, P_MST + 1}, {P_MSB, P_MSB + 1}, {P_MSTAU, P_MSTAU + 1}, {P_MQ2 + 8, P_MU2 + 8}, {P_MQ2 + 8, P_MD2 + 8}, {P_ML2 + 8, P_ME2 + 8}, {P_VD, P_VU}, {P_G1, P_G2}, {P_MT, P_MB}, {P_M1, P_M2}};
      const int k = r.below(r.chance(0.6) ? 3 : 10);
      const double v = r.chance(0.7) ? special[r.below(sizeof special / sizeof *special)] : std::pow(10.0, r.range(-20, 20));
      p.v[pr[k][0]] = p.v[pr[k][1]] = v;
      if (r.chance(0.3)) p.v[pr[k][1]] = r.chance(0.5) ? std::nextafter(v, 1e300) : -v;
   }
   if (r.chance(0.1)) p.v[P_LIM] = (double)r.range(-3, 9);
   return p;
}
