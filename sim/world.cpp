// The operations of the simulated workloads, against the real library.
// Compiled without instrumentation and linked after the library's objects.
#include "plan.h"
#include "mlsim.h"

#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/Himalaya_interface.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/mh2l/Li2f.hpp"
#include "himalaya/misc/Li2.hpp"

#include "WolframLibrary.h"

#include <memory>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <cmath>
#include <type_traits>
#include <complex>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <new>
#include <stdexcept>
#include <string>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <stdio_ext.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <wchar.h>
#include <sys/types.h>
#include <tuple>
#include <unistd.h>

extern char** environ;
extern "C" int HimalayaCalculateDMh3L(WolframLibraryData, MLINK);
extern "C" unsigned rt_srand_calls();
extern "C" const char* rt_process_call();

using namespace himalaya;
bool g_env_checks = false;

// ---------------------------------------------------------------- results
namespace {
enum { SERCAP = 1 << 18 };
struct Ser {
   unsigned char* b; size_t n = 0; bool over = false;
   void raw(const void* p, size_t k) { if (n + k > SERCAP) { over = true; return; } memcpy(b + n, p, k); n += k; }
   void u8(unsigned char c) { raw(&c, 1); }
   void label(const char* s) { const size_t k = strlen(s); u8('L'); u8((unsigned char)k); raw(s, k); }
   void d(double x) { uint64_t u; memcpy(&u, &x, 8); if (x != x) u = 0x7ff8000000000000ull; u8('d'); raw(&u, 8); }
   void i(long long x) { u8('i'); raw(&x, 8); }
   void s(const char* p, size_t k) { uint32_t m = (uint32_t)k; u8('s'); raw(&m, 4); raw(p, k); }
   void s(const char* p) { s(p, strlen(p)); }
};
unsigned char serbuf[rt::MAXT][SERCAP];

template <class M> void mat(Ser& s, const M& m) { for (int r = 0; r < m.rows(); r++) for (int c = 0; c < m.cols(); c++) s.d(m(r, c)); }

// fixed stream buffer without allocation
struct FixBuf : std::streambuf {
   char b[1 << 16];
   FixBuf() { setp(b, b + sizeof b); }
   size_t len() const { return pptr() - pbase(); }
   int_type overflow(int_type) override { return traits_type::eof(); }
};

// sink of the standard error and output streams
bool sink_hit[rt::MAXT]; // a stream fault fired in the current operation
void sink_fired(int f) { rt::fired(f); sink_hit[rt::self()] = true; }
struct SinkError : std::runtime_error { using std::runtime_error::runtime_error; };
struct SimBuf : std::streambuf {
   int id;
   long long base = -1, written = 0; // position of the sink, if it has one
   explicit SimBuf(int i) : id(i) {}
   pos_type seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode) override
   {
      return base < 0 || off || d == std::ios_base::beg ? pos_type(off_type(-1)) : pos_type(off_type(base + written));
   }
   int_type overflow(int_type c) override
   {
      if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
      const char ch = traits_type::to_char_type(c);
      return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
   }
   std::streamsize xsputn(const char* s, std::streamsize n) override
   {
      rt::NoLib nl;
      uint32_t arg = 0;
      const int f = rt::sink_fault(&arg);
      if (f == rt::F_SINK_EOF) { sink_fired(f); return 0; }
      if (f == rt::F_SINK_THROW) { sink_fired(f); throw SinkError("sink failed"); }
      if (f == rt::F_SINK_SHORT) { sink_fired(f); const std::streamsize k = n > 0 ? (std::streamsize)(arg % (uint32_t)n) : 0; rt::capture(id, s, k); return k; }
      rt::capture(id, s, n);
      written += n;
      return n;
   }
   int sync() override
   {
      rt::NoLib nl;
      uint32_t arg = 0;
      const int f = rt::sink_fault(&arg);
      // A flush is also made by the destructor of the sentry of a unit-buffered
      // stream, where libstdc++ lets nothing be thrown: the buffer itself must not
      // throw here, nor report a failure to a stream that turns it into a throw.
      if ((id ? std::cerr : std::cout).exceptions() & std::ios_base::badbit) return 0;
      if (f == rt::F_SINK_SYNC || f == rt::F_SINK_EOF || f == rt::F_SINK_THROW) { sink_fired(f); return -1; }
      return 0;
   }
};
alignas(16) char simbuf_mem[2][sizeof(SimBuf)];
SimBuf* simbuf[2];

struct CommaPunct : std::numpunct<char> {
   char do_decimal_point() const override { return ','; }
   char do_thousands_sep() const override { return '.'; }
   std::string do_grouping() const override { return "\3"; }
};

// ---------------------------------------------------------------- parameters
void set_pars(Parameters& p, const Point& q)
{
   const double* v = q.v;
   p.scale = v[P_SCALE]; p.mu = v[P_MU]; p.g1 = v[P_G1]; p.g2 = v[P_G2]; p.g3 = v[P_G3]; p.vd = v[P_VD]; p.vu = v[P_VU];
   auto m = [&](RM33& x, int o) { for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) x(i, k) = v[o + 3 * i + k]; };
   m(p.mq2, P_MQ2); m(p.md2, P_MD2); m(p.mu2, P_MU2); m(p.ml2, P_ML2); m(p.me2, P_ME2);
   m(p.Au, P_AU); m(p.Ad, P_AD); m(p.Ae, P_AE); m(p.Yu, P_YU); m(p.Yd, P_YD); m(p.Ye, P_YE);
   p.M1 = v[P_M1]; p.M2 = v[P_M2]; p.MG = v[P_MG]; p.MW = v[P_MW]; p.MZ = v[P_MZ]; p.Mt = v[P_MT]; p.Mb = v[P_MB]; p.Mtau = v[P_MTAU]; p.MA = v[P_MA];
   for (int i = 0; i < 2; i++) { p.MSt(i) = v[P_MST + i]; p.MSb(i) = v[P_MSB + i]; p.MStau(i) = v[P_MSTAU + i]; }
   p.s2t = v[P_S2T]; p.s2b = v[P_S2B]; p.s2tau = v[P_S2TAU]; p.theta_t = v[P_THT]; p.theta_b = v[P_THB]; p.theta_tau = v[P_THTAU];
   p.massLimit3LThreshold = (int)v[P_LIM];
}
Parameters to_pars(const Point& q) { Parameters p; set_pars(p, q); return p; }
// a new set with the same public members
Parameters rebuilt(const Parameters& o)
{
   Parameters p;
   p.scale = o.scale; p.mu = o.mu; p.g1 = o.g1; p.g2 = o.g2; p.g3 = o.g3; p.vd = o.vd; p.vu = o.vu;
   p.mq2 = o.mq2; p.md2 = o.md2; p.mu2 = o.mu2; p.ml2 = o.ml2; p.me2 = o.me2;
   p.Au = o.Au; p.Ad = o.Ad; p.Ae = o.Ae; p.Yu = o.Yu; p.Yd = o.Yd; p.Ye = o.Ye;
   p.M1 = o.M1; p.M2 = o.M2; p.MG = o.MG; p.MW = o.MW; p.MZ = o.MZ; p.Mt = o.Mt; p.Mb = o.Mb; p.Mtau = o.Mtau; p.MA = o.MA;
   p.MSt = o.MSt; p.MSb = o.MSb; p.MStau = o.MStau;
   p.s2t = o.s2t; p.s2b = o.s2b; p.s2tau = o.s2tau; p.theta_t = o.theta_t; p.theta_b = o.theta_b; p.theta_tau = o.theta_tau;
   p.massLimit3LThreshold = o.massLimit3LThreshold;
   return p;
}
void ser_pars(Ser& s, const Parameters& p)
{
   s.label("parameters");
   s.d(p.scale); s.d(p.mu); s.d(p.g1); s.d(p.g2); s.d(p.g3); s.d(p.vd); s.d(p.vu);
   mat(s, p.mq2); mat(s, p.md2); mat(s, p.mu2); mat(s, p.ml2); mat(s, p.me2); mat(s, p.Au); mat(s, p.Ad); mat(s, p.Ae); mat(s, p.Yu); mat(s, p.Yd); mat(s, p.Ye);
   s.d(p.M1); s.d(p.M2); s.d(p.MG); s.d(p.MW); s.d(p.MZ); s.d(p.Mt); s.d(p.Mb); s.d(p.Mtau); s.d(p.MA);
   mat(s, p.MSt); mat(s, p.MSb); mat(s, p.MStau);
   s.d(p.s2t); s.d(p.s2b); s.d(p.s2tau); s.d(p.theta_t); s.d(p.theta_b); s.d(p.theta_tau); s.i(p.massLimit3LThreshold);
}
double* par_field(Parameters& p, int k)
{
   switch (k % 40) {
   case 0: return &p.scale; case 1: return &p.mu; case 2: return &p.g1; case 3: return &p.g2; case 4: return &p.g3; case 5: return &p.vd; case 6: return &p.vu;
   case 7: return &p.mq2(2, 2); case 8: return &p.mu2(2, 2); case 9: return &p.md2(2, 2); case 10: return &p.mq2(0, 0); case 11: return &p.Au(2, 2);
   case 12: return &p.Ad(2, 2); case 13: return &p.Yu(2, 2); case 14: return &p.Yd(2, 2); case 15: return &p.MG; case 16: return &p.MA; case 17: return &p.M1;
   case 18: return &p.Mt; case 19: return &p.MSt(0); case 20: return &p.MSt(1); case 21: return &p.s2t; case 22: return &p.MZ; case 23: return &p.ml2(2, 2);
   case 24: return &p.mu2(0, 0); case 25: return &p.md2(1, 1); case 26: return &p.mq2(1, 1); case 27: return &p.me2(2, 2); case 28: return &p.Ae(2, 2);
   case 29: return &p.Ye(2, 2); case 30: return &p.M2; case 31: return &p.MW; case 32: return &p.Mb; case 33: return &p.Mtau; case 34: return &p.MSb(0);
   case 35: return &p.MSb(1); case 36: return &p.s2b; case 37: return &p.MStau(1); case 38: return &p.theta_t; default: return &p.mq2(0, 1);
   }
}

void ser_ho(Ser& s, const HierarchyObject& h, bool text = true)
{
   s.label("isAlphab"); s.i(h.getIsAlphab());
   s.label("hierarchy"); s.i(h.getSuitableHierarchy());
   s.label("absDiff2L"); s.d(h.getAbsDiff2L());
   s.label("relDiff2L"); s.d(h.getRelDiff2L());
   s.label("expUncertainty"); for (int i = 1; i < 4; i++) s.d(h.getDMhExpUncertainty(i));
   s.label("DMh"); for (int i = 0; i < 4; i++) mat(s, h.getDMh(i));
   s.label("DMh2"); for (int i = 0; i < 4; i++) s.d(h.getDMh2(i));
   s.label("mdrShift"); mat(s, h.getDMhDRbarPrimeToMDRbarPrimeShift());
   s.label("h3mShift"); mat(s, h.getDMhDRbarPrimeToH3mShift());
   s.label("mdrMasses"); mat(s, h.getMDRMasses());
   s.label("mdrFlag"); s.i(h.getMDRFlag());
   s.label("renScheme"); s.i(h.getRenormalizationScheme());
   s.label("DLambdaH3m"); s.d(h.getDLambdaH3m());
   s.label("DLambdaEFT"); s.d(h.getDLambdaEFT());
   s.label("DLambdaNonLog"); s.d(h.getDLambdaNonLog());
   s.label("DLambdaUncertainty"); for (int i = 0; i < 4; i++) s.d(h.getDLambdaUncertainty(i));
   s.label("DLambda"); for (int i = 0; i < 4; i++) s.d(h.getDLambda(i));
   s.label("DRbarToMSbarShift"); for (int i = 0; i < 4; i++) s.d(h.getDLambdaDRbarPrimeToMSbarShift(i));
   s.label("DMh2EFTAt"); for (int i = 0; i < 4; i++) s.d(h.getDMh2EFTAt(i));
   s.label("DMh2FO"); for (int i = 0; i < 4; i++) s.d(h.getDMh2FO(i));
   s.label("DMh2FOAt"); for (int i = 0; i < 4; i++) s.d(h.getDMh2FOAt(i));
   (void)text;
}

// the list of 127 numbers that the Mathematica front end sends
void to_list(const Point& q, double* v, int bottom, int loops, int verbose)
{
   int c = 0;
   v[c++] = bottom; v[c++] = loops; v[c++] = verbose;
   for (int i = 0; i < 7; i++) v[c++] = q.v[i];
   for (int i = P_MQ2; i < P_M1; i++) v[c++] = q.v[i];
   auto opt = [](double x) { return x > 0 ? x : -1.0; };
   v[c++] = q.v[P_MA]; v[c++] = q.v[P_M1]; v[c++] = q.v[P_M2]; v[c++] = q.v[P_MG];
   for (int i = P_MW; i <= P_MTAU; i++) v[c++] = opt(q.v[i]);
   for (int i = P_MST; i < P_S2T; i++) v[c++] = opt(q.v[i]);
   for (int i = P_S2T; i <= P_S2TAU; i++) v[c++] = q.v[i] == q.v[i] ? q.v[i] : -2.0;
   if (c != 127) abort();
}
Parameters from_list(const double* v)
{
   Point q = default_point();
   const double nan = std::nan("");
   for (int i = 0; i < NP; i++) q.v[i] = i >= P_MW ? nan : 0;
   int c = 3;
   for (int i = 0; i < 7; i++) q.v[i] = v[c++];
   for (int i = P_MQ2; i < P_M1; i++) q.v[i] = v[c++];
   q.v[P_MA] = v[c++]; q.v[P_M1] = v[c++]; q.v[P_M2] = v[c++]; q.v[P_MG] = v[c++];
   for (int i = P_MW; i <= P_MTAU; i++, c++) if (v[c] > 0) q.v[i] = v[c];
   for (int k = 0; k < 3; k++) {
      const double a = v[c + 2 * k], b = v[c + 2 * k + 1], s = v[c + 6 + k];
      if (a > 0 && b > 0 && std::fabs(s) <= 1) { q.v[P_MST + 2 * k] = a; q.v[P_MST + 2 * k + 1] = b; q.v[P_S2T + k] = s; }
   }
   q.v[P_LIM] = 0;
   return to_pars(q);
}

// ---------------------------------------------------------------- objects
struct Any {
   int type;
   virtual ~Any() {}
   explicit Any(int t) : type(t) {}
};
template <class T, int TYPE> struct Box : Any { T v; template <class... A> explicit Box(A&&... a) : Any(TYPE), v(std::forward<A>(a)...) {} };
using BHC = Box<HierarchyCalculator, O_HC>;
using BHO = Box<HierarchyObject, O_HO>;
using BEFT = Box<mh2_eft::Mh2EFTCalculator, O_EFT>;
using BFO = Box<mh2_fo::MSSM_mass_eigenstates, O_FO>;
using BTHR = Box<mh2_eft::ThresholdCalculator, O_THR>;
using BPAR = Box<Parameters, O_PAR>;

Any* make_obj(const Plan& pl, const Obj& o)
{
   const Parameters p = to_pars(pl.pts[o.pt]);
   switch (o.type) {
   case O_HC: return new BHC(p, (bool)o.b);
   case O_HO: {
      HierarchyCalculator hc(p, false);
      if (o.b & 1) return new BHO(hc.calculateDMh3L(o.a));
      HierarchyObject h((bool)o.a);
      h.setMDRFlag((o.b >> 1) & 1);
      h.setRenormalizationScheme((o.b >> 2) & 3);
      hc.compareHierarchies(h);
      return new BHO(h); }
   case O_EFT: { // b: bit 0 verbose, then 1 + the correction that is switched off
      std::unique_ptr<BEFT> e(new BEFT(p, (bool)(o.b & 1)));
      if (o.b >> 1) e->v.setCorrectionFlag((CouplingOrders::CouplingOrders)(((o.b >> 1) - 1) % 23), 0);
      return e.release(); }
   case O_FO: { // b: momentum iteration, iterations, diagonalization, 1 + the correction that is switched off
      std::unique_ptr<BFO> f(new BFO(p, (bool)o.a));
      if (o.b & 3) f->v.set_mom_it((mh2_fo::Momentum_iteration)((o.b & 3) - 1), 1e-5, (o.b >> 2 & 3) * 4);
      if (o.b >> 4 & 1) f->v.set_diagonalization(mh2_fo::Diagonalization::num);
      if (o.b >> 5) f->v.set_correction((CouplingOrders::CouplingOrders)(((o.b >> 5) - 1) % 23), 0);
      return f.release(); }
   case O_THR: { // b: bit 0 verbose, then 1 + mass limit, then 1 + order in Xt
      std::unique_ptr<BTHR> t(new BTHR(p, (bool)(o.b & 1), (bool)o.a));
      if (o.b >> 1 & 7) t->v.setLimit((mh2_eft::Limits)((o.b >> 1 & 7) - 1));
      if (o.b >> 4) t->v.setXtOrderOfDeltaLambdaAtAs2(3 + ((o.b >> 4) - 1) % 4);
      return t.release(); }
   default: return new BPAR(p);
   }
}

// resolves an object: the slot's one, or a fresh one owned by the holder
template <class B> struct Use {
   B* p = nullptr; bool own = false;
   Use(World& w, const Op& op, int slot, const Obj& fresh)
   {
      if (slot >= 0) {
         if (!w.obj[slot]) w.obj[slot] = make_obj(*w.plan, w.plan->obj[slot]);
         p = dynamic_cast<B*>((Any*)w.obj[slot]);
         if (!p) throw std::logic_error("plan: wrong object type");
      } else { p = (B*)make_obj(*w.plan, fresh); own = true; }
      (void)op;
   }
   ~Use() { if (own) delete p; }
   decltype(p->v)& operator*() { return p->v; }
   decltype(&p->v) operator->() { return &p->v; }
};

void ser_text(Ser& s, FixBuf& b) { s.label("text"); s.s(b.b, b.len()); }

Obj fresh_obj(int type, int pt, int a, int b) { Obj o; o.type = type; o.pt = pt; o.a = a; o.b = b; return o; }

thread_local FixBuf* fixbuf_tls;
alignas(64) char fixbuf_mem[rt::MAXT][sizeof(FixBuf)];
alignas(64) char fixstr_mem[rt::MAXT][sizeof(std::ostream)];

// ---------------------------------------------------------------- value pools (C13)
struct Settings { // what was set on a component calculator
   signed char order[23], mom_it = -1, diag = -1;
   bool only_at = false;
   Settings() { memset(order, -1, sizeof order); }
   void apply(mh2_eft::Mh2EFTCalculator& e) const { for (int i = 0; i < 23; i++) if (order[i] >= 0) e.setCorrectionFlag((CouplingOrders::CouplingOrders)i, order[i]); }
   void apply(mh2_fo::MSSM_mass_eigenstates& f) const
   {
      for (int i = 0; i < 23; i++) if (order[i] >= 0) f.set_correction((CouplingOrders::CouplingOrders)i, order[i]);
      if (mom_it >= 0) f.set_mom_it((mh2_fo::Momentum_iteration)mom_it);
      if (diag >= 0) f.set_diagonalization((mh2_fo::Diagonalization)diag);
   }
};
// a class of the library that cannot be assigned or copied (any more) is not
template <class T> typename std::enable_if<std::is_copy_assignable<T>::value, bool>::type assign_from(T& a, const T& b) { a = b; return true; }
template <class T> typename std::enable_if<!std::is_copy_assignable<T>::value, bool>::type assign_from(T&, const T&) { return false; }
template <class T> typename std::enable_if<std::is_copy_constructible<T>::value, bool>::type copy_to(void* m, const T& b) { new (m) T(b); return true; }
template <class T> typename std::enable_if<!std::is_copy_constructible<T>::value, bool>::type copy_to(void*, const T&) { return false; }

struct Pools {
   enum { N = 4 };
   alignas(64) char pm[N][sizeof(Parameters)]; bool pl[N]; Parameters psnap[N]; // live flag, snapshot
   alignas(64) char cm[N][sizeof(HierarchyCalculator)]; bool cl[N]; Parameters cpars[N]; // parameters at creation
   alignas(64) char hm[N][sizeof(HierarchyObject)]; bool hl[N]; unsigned char* hsnap[N]; size_t hlen[N];
   alignas(64) char em[N][sizeof(mh2_eft::Mh2EFTCalculator)]; bool el[N]; Parameters epars[N];
   alignas(64) char fm[N][sizeof(mh2_fo::MSSM_mass_eigenstates)]; bool fl[N]; Parameters fpars[N];
   Settings eset[N], fset[N];
   alignas(64) char tm[N][sizeof(mh2_eft::ThresholdCalculator)]; bool tl[N]; Parameters tpars[N]; int tlim[N], txt[N];
   Parameters& P(int i) { return *(Parameters*)pm[i]; }
   HierarchyCalculator& C(int i) { return *(HierarchyCalculator*)cm[i]; }
   HierarchyObject& H(int i) { return *(HierarchyObject*)hm[i]; }
   mh2_eft::Mh2EFTCalculator& E(int i) { return *(mh2_eft::Mh2EFTCalculator*)em[i]; }
   mh2_fo::MSSM_mass_eigenstates& F(int i) { return *(mh2_fo::MSSM_mass_eigenstates*)fm[i]; }
   mh2_eft::ThresholdCalculator& T(int i) { return *(mh2_eft::ThresholdCalculator*)tm[i]; }
};
alignas(64) char pools_mem[rt::MAXT][sizeof(Pools)];
bool pools_live[rt::MAXT];
unsigned char hsnap_mem[rt::MAXT][Pools::N][4096];

Pools& pools(int t)
{
   Pools& q = *(Pools*)pools_mem[t];
   if (!pools_live[t]) {
      for (int i = 0; i < Pools::N; i++) {
         q.pl[i] = q.cl[i] = q.hl[i] = q.el[i] = q.fl[i] = q.tl[i] = false;
         q.hsnap[i] = hsnap_mem[t][i]; q.hlen[i] = 0;
         new (&q.psnap[i]) Parameters; new (&q.cpars[i]) Parameters; new (&q.epars[i]) Parameters; new (&q.fpars[i]) Parameters; new (&q.tpars[i]) Parameters;
      }
      pools_live[t] = true;
   }
   return q;
}
bool same_pars(const Parameters& a, const Parameters& b)
{
   static unsigned char x[rt::MAXT][2][4096];
   const int t = rt::self() < 0 ? 0 : rt::self();
   Ser s{x[t][0]}, u{x[t][1]};
   ser_pars(s, a); ser_pars(u, b);
   return s.n == u.n && !memcmp(x[t][0], x[t][1], s.n);
}
size_t snap_ho(const HierarchyObject& h, unsigned char* b) { Ser s{b}; ser_ho(s, h); return s.n; }

void poison(void* p, size_t n) { memset(p, 0x5B, n); }

void check_pools(Pools& q, const char* after)
{
   unsigned char b[4096];
   for (int i = 0; i < Pools::N; i++) {
      if (q.pl[i] && !same_pars(q.P(i), q.psnap[i])) { rt::violation("value-changed", "parameter set %d changed by: %s", i, after); q.psnap[i] = q.P(i); }
      if (q.hl[i]) {
         const size_t n = snap_ho(q.H(i), b);
         if (n != q.hlen[i] || memcmp(b, q.hsnap[i], n)) { rt::violation("value-changed", "result %d changed by: %s", i, after); q.hlen[i] = n; memcpy(q.hsnap[i], b, n); }
      }
   }
}

void value_action(World& w, const Op& op, Ser& s)
{
   const int t = rt::self();
   Pools& q = pools(t);
   const int b = op.b & 3, c = op.c & 3;
   const char* what = "?";
   unsigned char x1[4096], x2[4096];
   auto kill_p = [&](int i) { if (q.pl[i]) { q.P(i).~Parameters(); q.pl[i] = false; } poison(q.pm[i], sizeof q.pm[i]); };
   auto kill_c = [&](int i) { if (q.cl[i]) { q.C(i).~HierarchyCalculator(); q.cl[i] = false; } poison(q.cm[i], sizeof q.cm[i]); };
   auto kill_h = [&](int i) { if (q.hl[i]) { q.H(i).~HierarchyObject(); q.hl[i] = false; } poison(q.hm[i], sizeof q.hm[i]); };
   auto kill_e = [&](int i) { if (q.el[i]) { q.E(i).~Mh2EFTCalculator(); q.el[i] = false; } poison(q.em[i], sizeof q.em[i]); };
   auto kill_f = [&](int i) { if (q.fl[i]) { q.F(i).~MSSM_mass_eigenstates(); q.fl[i] = false; } poison(q.fm[i], sizeof q.fm[i]); };
   auto kill_t = [&](int i) { if (q.tl[i]) { q.T(i).~ThresholdCalculator(); q.tl[i] = false; } poison(q.tm[i], sizeof q.tm[i]); };
   auto snap = [&](int i) { q.hlen[i] = snap_ho(q.H(i), q.hsnap[i]); };
   s.label("action"); s.i(op.a);
   switch (op.a) {
   case 0: what = "create parameters"; kill_p(b); new (q.pm[b]) Parameters(to_pars(w.plan->pts[op.pt])); q.pl[b] = true; q.psnap[b] = to_pars(w.plan->pts[op.pt]); break;
   case 1: what = "copy parameters"; if (!q.pl[c]) break;
      if (op.d & 1 && q.pl[b]) { if (op.d & 2 && b != c) { Parameters v(q.P(c)); q.P(b) = std::move(v); } else q.P(b) = q.P(c); }
      else { if (b == c) break; kill_p(b); new (q.pm[b]) Parameters(q.P(c)); q.pl[b] = true; }
      q.psnap[b] = q.psnap[c]; break;
   case 2: what = "modify parameters"; if (!q.pl[b]) break; { double* f = par_field(q.P(b), op.d); *f = *f != *f ? 173.0 : op.d % 5 == 4 && op.d % 40 > 16 ? std::nan("") : *f * 1.25 + 1; q.psnap[b] = rebuilt(q.P(b)); } break;
   case 3: what = "destroy parameters"; kill_p(b); break;
   case 4: what = "create calculator"; if (!q.pl[c]) break; kill_c(b); { const Parameters keep = rebuilt(q.P(c)); new (q.cm[b]) HierarchyCalculator(q.P(c), op.d & 1); q.cl[b] = true; q.cpars[b] = keep; } break;
   case 5: what = "copy calculator"; if (!q.cl[c] || b == c) break;
      if (!(q.cl[b] && (op.d & 1) && assign_from(q.C(b), q.C(c)))) { kill_c(b); q.cl[b] = copy_to<HierarchyCalculator>(q.cm[b], q.C(c)); }
      q.cpars[b] = q.cpars[c]; break;
   case 6: what = "destroy calculator"; kill_c(b); break;
   case 7: what = "calculate"; if (!q.cl[c]) break; {
      HierarchyObject h = q.C(c).calculateDMh3L(op.d & 1);
      if (q.hl[b]) q.H(b) = h; else { kill_h(b); new (q.hm[b]) HierarchyObject(h); q.hl[b] = true; }
      snap(b);
      // a new calculator on the parameters as they were
      HierarchyCalculator f(q.cpars[c], false);
      const HierarchyObject e = f.calculateDMh3L(op.d & 1);
      const size_t n1 = snap_ho(h, x1), n2 = snap_ho(e, x2);
      if (n1 != n2 || memcmp(x1, x2, n1)) rt::violation("value-changed", "a calculator no longer uses the parameters it was created with: %s", first_difference(x2, n2, x1, n1).c_str());
      s.raw(x1, n1);
      break; }
   case 8: what = "copy result"; if (!q.hl[c]) break;
      if (op.d == 3) { HierarchyObject& self = q.H(c); self = q.H(c); break; }
      if (b == c) break;
      if (op.d == 0) { if (!q.hl[b]) { kill_h(b); new (q.hm[b]) HierarchyObject(q.H(c)); q.hl[b] = true; } else q.H(b) = q.H(c); }
      else if (op.d == 1) { kill_h(b); new (q.hm[b]) HierarchyObject(q.H(c)); q.hl[b] = true; }
      else { HierarchyObject tmp(q.H(c)); if (q.hl[b]) q.H(b) = std::move(tmp); else { kill_h(b); new (q.hm[b]) HierarchyObject(std::move(tmp)); q.hl[b] = true; } }
      { const size_t n = snap_ho(q.H(b), x1);
        if (n != q.hlen[c] || memcmp(x1, q.hsnap[c], n)) rt::violation("value-changed", "a copy differs from its original: %s", first_difference(q.hsnap[c], q.hlen[c], x1, n).c_str()); }
      snap(b); break;
   case 9: what = "modify result"; if (!q.hl[b]) break; {
      HierarchyObject& h = q.H(b);
      const double v = 1.5 + op.d;
      switch (op.d % 20) {
      case 0: h.setDMh2(op.d / 20 % 4, v); break;
      case 1: h.setDLambda(op.d / 20 % 4, v); break;
      case 2: h.setSuitableHierarchy(op.d / 20 % 12); break;
      case 3: { Eigen::Matrix2d m; m << v, 2, 3, 4; h.setDMh(op.d / 20 % 4, m); break; }
      case 4: { Eigen::Vector2d m(v + 1, v); h.setMDRMasses(m); break; }
      case 5: h.setDMh2EFT(op.d / 20 % 4, v); break;
      case 6: h.setDMh2FO(op.d / 20 % 4, v); break;
      case 7: h.setDMhExpUncertainty(1 + op.d / 20 % 3, v); break;
      case 8: h.setDLambdaDRbarPrimeToMSbarShift(op.d / 20 % 4, v); break;
      case 9: h.setMDRFlag(op.d / 20 % 2); break;
      case 10: h.setDMh2FOAt(op.d / 20 % 4, v); break;
      case 11: h.setDLambdaXtUncertainty(v); break;
      case 12: h.setRenormalizationScheme(op.d / 20 % 4); break;
      case 13: h.setAbsDiff2L(v); break;
      case 14: h.setRelDiff2L(v); break;
      case 15: { Eigen::Matrix2d m; m << v, 5, 5, 7; h.setDMhDRbarPrimeToMDRbarPrimeShift(m); break; }
      case 16: { Eigen::Matrix2d m; m << v, 6, 6, 8; h.setDMhDRbarPrimeToH3mShift(m); break; }
      case 17: h.setDLambdaH3m(v); break;
      case 18: h.setDLambdaEFT(v); break;
      default: h.setDLambdaNonLog(v); break;
      }
      snap(b); break; }
   case 10: what = "destroy result"; kill_h(b); break;
   case 11: what = "query calculator"; if (!q.cl[c] || !q.hl[b]) break; {
      HierarchyObject probe = q.H(b);
      const int h = probe.getSuitableHierarchy();
      if (h < 0 || h > 13) break;
      HierarchyCalculator f(q.cpars[c], false);
      Ser a1{x1}, a2{x2};
      mat(a1, q.C(c).getMt41L(probe, op.d & 1, 0)); mat(a1, q.C(c).getMt42L(probe, op.d & 1, 0)); mat(a1, q.C(c).calculateHierarchy(probe, 1, 1, 0));
      mat(a2, f.getMt41L(probe, op.d & 1, 0)); mat(a2, f.getMt42L(probe, op.d & 1, 0)); mat(a2, f.calculateHierarchy(probe, 1, 1, 0));
      if (memcmp(x1, x2, a1.n)) rt::violation("value-changed", "a query of an older calculator differs from a new one: %s", first_difference(x2, a2.n, x1, a1.n).c_str());
      break; }
   case 12: what = "create component calculators"; if (!q.pl[c]) break;
      kill_e(b); kill_f(b); kill_t(b);
      { Parameters v = q.P(c); v.validate(false);
        q.epars[b] = q.fpars[b] = q.tpars[b] = rebuilt(v);
        q.tlim[b] = q.txt[b] = -1;
        new (q.tm[b]) mh2_eft::ThresholdCalculator(v, false); q.tl[b] = true;
        new (q.em[b]) mh2_eft::Mh2EFTCalculator(v, false); q.el[b] = true; q.eset[b] = Settings();
        new (q.fm[b]) mh2_fo::MSSM_mass_eigenstates(v, op.d & 1); q.fl[b] = true; q.fset[b] = Settings(); q.fset[b].only_at = op.d & 1;
        // the caller's set is used for something else
        v.scale *= 2; v.mu = -v.mu; v.mq2(2, 2) *= 3; v.g3 = 0.5; v.MSt(0) *= 0.5; v.Mt = 1; }
      break;
   case 13: what = "use component calculators"; {
      Ser a1{x1}, a2{x2};
      auto use_e = [&](Ser& o, const mh2_eft::Mh2EFTCalculator& e) { o.label("EFT"); o.d(e.getDeltaMh2EFT0Loop()); o.d(e.getDeltaMh2EFT1Loop(op.d & 1, 1)); o.d(e.getDeltaMh2EFT2Loop(op.d & 1, 1)); };
      auto use_f = [&](Ser& o, const mh2_fo::MSSM_mass_eigenstates& f) { const auto r = f.calculate_Mh2(); o.label("FO"); o.d(std::get<0>(r)); o.d(std::get<1>(r)); o.d(std::get<2>(r)); mat(o, f.delta_mh2_1loop(1e4)); };
      if (q.el[c]) { use_e(a1, q.E(c)); mh2_eft::Mh2EFTCalculator f(q.epars[c], false); q.eset[c].apply(f); use_e(a2, f); }
      if (q.fl[c]) { use_f(a1, q.F(c)); mh2_fo::MSSM_mass_eigenstates f(q.fpars[c], q.fset[c].only_at); q.fset[c].apply(f); use_f(a2, f); }
      auto use_t = [&](Ser& o, const mh2_eft::ThresholdCalculator& t) {
         using mh2_eft::ThresholdCouplingOrders; const auto rs = (mh2_eft::RenSchemes)(op.d & 1);
         o.label("thresholds"); o.i((int)t.getLimit());
         for (auto v : {ThresholdCouplingOrders::LAMBDA_AT, ThresholdCouplingOrders::LAMBDA_AT_AS, ThresholdCouplingOrders::LAMBDA_AT_AS2, ThresholdCouplingOrders::YT_AS}) o.d(t.getThresholdCorrection(v, rs, op.d >> 1 & 1));
         o.d(t.getDRbarPrimeToMSbarShift(3 + (op.d & 1), 1, 0)); };
      if (q.tl[c]) { use_t(a1, q.T(c)); mh2_eft::ThresholdCalculator f(q.tpars[c], false); if (q.tlim[c] >= 0) f.setLimit((mh2_eft::Limits)q.tlim[c]); if (q.txt[c] >= 0) f.setXtOrderOfDeltaLambdaAtAs2(q.txt[c]); use_t(a2, f); }
      if (a1.n != a2.n || memcmp(x1, x2, a1.n)) rt::violation("value-changed", "an older component calculator differs from a new one with the same settings: %s", first_difference(x2, a2.n, x1, a1.n).c_str());
      s.raw(x1, a1.n);
      break; }
   case 15: what = "copy component calculators"; if (b == c) break;
      if (q.el[c]) { if (!(q.el[b] && (op.d & 1) && assign_from(q.E(b), q.E(c)))) { kill_e(b); q.el[b] = copy_to<mh2_eft::Mh2EFTCalculator>(q.em[b], q.E(c)); } q.epars[b] = q.epars[c]; q.eset[b] = q.eset[c]; }
      if (q.fl[c]) { if (!(q.fl[b] && (op.d & 1) && assign_from(q.F(b), q.F(c)))) { kill_f(b); q.fl[b] = copy_to<mh2_fo::MSSM_mass_eigenstates>(q.fm[b], q.F(c)); } q.fpars[b] = q.fpars[c]; q.fset[b] = q.fset[c]; }
      if (q.tl[c]) { if (!(q.tl[b] && (op.d & 1) && assign_from(q.T(b), q.T(c)))) { kill_t(b); q.tl[b] = copy_to<mh2_eft::ThresholdCalculator>(q.tm[b], q.T(c)); } q.tpars[b] = q.tpars[c]; q.tlim[b] = q.tlim[c]; q.txt[b] = q.txt[c]; }
      break;
   case 16: what = "change settings of component calculators"; {
      const int order = op.d % 23, flag = op.d / 23 % 2;
      if (q.el[b]) { q.E(b).setCorrectionFlag((CouplingOrders::CouplingOrders)order, flag); q.eset[b].order[order] = (signed char)flag; }
      if (q.fl[b]) {
         q.F(b).set_correction((CouplingOrders::CouplingOrders)order, flag); q.fset[b].order[order] = (signed char)flag;
         if (op.d / 46 % 3 == 1) { q.F(b).set_mom_it((mh2_fo::Momentum_iteration)(op.d % 3)); q.fset[b].mom_it = (signed char)(op.d % 3); }
         if (q.tl[b] && op.d / 46 % 3 == 0) { if (op.d & 1) { q.tlim[b] = op.d % 6; q.T(b).setLimit((mh2_eft::Limits)q.tlim[b]); } else { q.txt[b] = 3 + op.d / 2 % 4; q.T(b).setXtOrderOfDeltaLambdaAtAs2(q.txt[b]); } }
         if (op.d / 46 % 3 == 2) { q.F(b).set_diagonalization((mh2_fo::Diagonalization)(op.d & 1)); q.fset[b].diag = (signed char)(op.d & 1); }
      }
      break; }
   case 17: what = "destroy component calculators"; kill_e(b); kill_f(b); kill_t(b); break;
   case 18: what = "print a result"; if (!q.hl[c]) break; *(std::ostream*)fixstr_mem[t] << q.H(c); break;
   case 19: what = "use parameters"; if (!q.pl[c]) break; {
      const Parameters v = rebuilt(q.P(c));
      const double m1 = q.P(c).calculateMsq2(), m2 = v.calculateMsq2();
      if (memcmp(&m1, &m2, 8) && !(m1 != m1 && m2 != m2)) rt::violation("value-changed", "a parameter set gives another squark mass scale than a new set with the same values: %.17g, not %.17g", m1, m2);
      s.d(m1);
      if (op.d & 1) *(std::ostream*)fixstr_mem[t] << q.P(c);
      break; }
   case 20: what = "validate parameters"; if (!q.pl[b]) break; {
      Parameters v = rebuilt(q.P(b));
      bool ok = true;
      try { q.P(b).validate(op.d & 1); } catch (...) { ok = false; q.psnap[b] = rebuilt(q.P(b)); throw; }
      v.validate(false);
      if (ok && !same_pars(v, q.P(b))) rt::violation("value-changed", "validation of a parameter set gives another result than that of a new set with the same values");
      q.psnap[b] = rebuilt(q.P(b));
      ser_pars(s, q.P(b));
      break; }
   case 14: what = "validate a copy"; if (!q.pl[c]) break; { Parameters v = q.P(c); v.validate(op.d & 1); ser_pars(s, v); break; }
   default: break;
   }
   check_pools(q, what);
}
void pools_free(int t)
{
   if (!pools_live[t]) return;
   Pools& q = *(Pools*)pools_mem[t];
   rt::Lib l;
   for (int i = 0; i < Pools::N; i++) {
      if (q.pl[i]) q.P(i).~Parameters();
      if (q.cl[i]) q.C(i).~HierarchyCalculator();
      if (q.hl[i]) q.H(i).~HierarchyObject();
      if (q.el[i]) q.E(i).~Mh2EFTCalculator();
      if (q.fl[i]) q.F(i).~MSSM_mass_eigenstates();
      if (q.tl[i]) q.T(i).~ThresholdCalculator();
      q.pl[i] = q.cl[i] = q.hl[i] = q.el[i] = q.fl[i] = q.tl[i] = false;
   }
   pools_live[t] = false;
}

// ---------------------------------------------------------------- the operations
void run_op(World& w, const Op& op, Ser& s)
{
   const Plan& pl = *w.plan;
   const Point& pt = pl.pts[op.pt];
   const int slot = op.slot, hslot = op.ho;
   const Obj fho = fresh_obj(O_HO, op.pt, op.a & 1, (op.a >> 1) << 1); // a bit0: alpha_b, bits1..: MDR flag, scheme
   switch (op.kind) {
   case K_FULL: {
      Use<BHC> hc(w, op, slot, fresh_obj(O_HC, op.pt, 0, op.b));
      const HierarchyObject ho = hc->calculateDMh3L(op.a);
      ser_ho(s, ho);
      break; }
   case K_CMP: {
      Use<BHC> hc(w, op, slot, fresh_obj(O_HC, op.pt, 0, 0));
      HierarchyObject ho((bool)(op.a & 1));
      ho.setMDRFlag(op.b & 1); ho.setRenormalizationScheme(op.c & 3);
      s.label("best"); s.i(hc->compareHierarchies(ho));
      ser_ho(s, ho);
      break; }
   case K_HIER: {
      Use<BHC> hc(w, op, slot, fresh_obj(O_HC, op.pt, 0, 0));
      Use<BHO> ho(w, op, hslot, fho);
      HierarchyObject h = *ho;
      if (op.d) h.setSuitableHierarchy(op.d - 1);
      s.label("matrix"); mat(s, hc->calculateHierarchy(h, op.b & 1, op.b >> 1 & 1, op.b >> 2 & 1));
      ser_ho(s, h);
      break; }
   case K_M41: {
      Use<BHC> hc(w, op, slot, fresh_obj(O_HC, op.pt, 0, 0)); Use<BHO> ho(w, op, hslot, fho);
      s.label("matrix"); mat(s, hc->getMt41L(*ho, op.b & 1, op.c & 1)); break; }
   case K_M42: {
      Use<BHC> hc(w, op, slot, fresh_obj(O_HC, op.pt, 0, 0)); Use<BHO> ho(w, op, hslot, fho);
      s.label("matrix"); mat(s, hc->getMt42L(*ho, op.b & 1, op.c & 1)); break; }
   case K_MDRS: {
      Use<BHC> hc(w, op, slot, fresh_obj(O_HC, op.pt, 0, 0)); Use<BHO> ho(w, op, hslot, fho);
      s.label("matrix");
      if (op.d) { HierarchyObject h = *ho; h.setSuitableHierarchy(op.d - 1); mat(s, hc->calcDRbarToMDRbarShift(h, op.b & 1, op.c & 1)); break; }
      mat(s, hc->calcDRbarToMDRbarShift(*ho, op.b & 1, op.c & 1)); break; }
   case K_MST: {
      Use<BHC> hc(w, op, slot, fresh_obj(O_HC, op.pt, 0, 0)); Use<BHO> ho(w, op, hslot, fho);
      s.label("masses"); s.d(hc->shiftMst1ToMDR(*ho, op.b & 1, op.c & 1)); s.d(hc->shiftMst2ToMDR(*ho, op.b & 1, op.c & 1)); break; }
   case K_UNC: {
      Use<BHC> hc(w, op, slot, fresh_obj(O_HC, op.pt, 0, 0)); Use<BHO> ho(w, op, hslot, fho);
      HierarchyObject h = *ho;
      if (op.d) h.setSuitableHierarchy(op.d - 1);
      s.label("uncertainty"); s.d(hc->getExpansionUncertainty(h, h.getDMh(0) + h.getDMh(1), op.b & 1, op.b >> 1 & 1, op.b >> 2 & 1)); break; }
   case K_FO: {
      if (slot < 0) { Parameters p = to_pars(pt); p.validate(false); const mh2_fo::MSSM_mass_eigenstates f(p, op.a & 1); const auto r = f.calculate_Mh2(); s.label("Mh2"); s.d(std::get<0>(r)); s.d(std::get<1>(r)); s.d(std::get<2>(r)); break; }
      Use<BFO> f(w, op, slot, Obj());
      const auto r = f->calculate_Mh2();
      s.label("Mh2"); s.d(std::get<0>(r)); s.d(std::get<1>(r)); s.d(std::get<2>(r));
      s.label("1L"); mat(s, f->delta_mh2_1loop(op.b * 1e3)); mat(s, f->get_mass_matrix_hh()); mat(s, f->get_mass_matrix_hh_gaugeless());
      mat(s, f->delta_mh2_1loop_gaugeless()); mat(s, f->delta_mh2_1loop_gaugeless_deriv());
      s.label("2L"); mat(s, f->delta_mh2_2loop()); mat(s, f->delta_mh2_2loop_mom_it_pert());
      if (op.b % 4 == 1) { s.label("iter"); mat(s, f->delta_mh2_2loop_mom_it_num(1e-5, op.b / 4 % 4)); }
      break; }
   case K_FOX: {
      Parameters p = to_pars(pt); p.validate(false);
      mh2_fo::MSSM_mass_eigenstates f(p, false);
      f.set_correction((CouplingOrders::CouplingOrders)(op.a % 23), op.b % 3);
      f.set_mom_it((mh2_fo::Momentum_iteration)(op.c % 3), op.c >= 3 ? 1e-18 : 1e-6, op.b == 2 ? op.a % 2 : 8);
      f.set_diagonalization((mh2_fo::Diagonalization)(op.d & 1));
      const auto r = f.calculate_Mh2();
      s.label("Mh2"); s.d(std::get<0>(r)); s.d(std::get<1>(r)); s.d(std::get<2>(r));
      s.label("iter"); mat(s, f.delta_mh2_2loop_mom_it_num(op.c >= 3 ? 0.0 : 1e-5, op.b == 2 ? op.a / 2 % 2 : 4));
      break; }
   case K_EFT: {
      if (slot < 0) {
         Parameters p = to_pars(pt); p.validate(op.b & 1);
         const mh2_eft::Mh2EFTCalculator e(p, op.b & 1);
         s.label("Mh2"); s.d(e.getDeltaMh2EFT0Loop()); s.d(e.getDeltaMh2EFT1Loop(op.a & 1, op.a >> 1 & 1)); s.d(e.getDeltaMh2EFT2Loop(op.a & 1, op.a >> 1 & 1)); s.d(e.getDeltaMh2EFT3Loop(op.a & 1, op.a >> 1 & 1, op.a >> 2 & 1));
         break; }
      Use<BEFT> e(w, op, slot, Obj());
      s.label("Mh2"); s.d(e->getDeltaMh2EFT0Loop()); s.d(e->getDeltaMh2EFT1Loop(op.a & 1, op.a >> 1 & 1)); s.d(e->getDeltaMh2EFT2Loop(op.a & 1, op.a >> 1 & 1)); s.d(e->getDeltaMh2EFT3Loop(op.a & 1, op.a >> 1 & 1, op.a >> 2 & 1));
      break; }
   case K_EFTL: {
      Parameters p = to_pars(pt); p.validate(false);
      mh2_eft::Mh2EFTCalculator e(p, false);
      e.setCorrectionFlag((CouplingOrders::CouplingOrders)(op.a % 23), op.b % 3);
      s.label("Mh2"); s.d(e.getDeltaMh2EFT1Loop(1, 1)); s.d(e.getDeltaMh2EFT2Loop(1, 1));
      s.label("lambda"); s.d(e.getDeltaLambdaDegenerate(p.scale, p.MSt(0), p.Au(2, 2) - p.mu * p.vd / p.vu, op.c & 1));
      break; }
   case K_THR: case K_THRS: {
      auto run = [&](const mh2_eft::ThresholdCalculator& t) {
         if (op.kind == K_THR)
            for (int k = op.a; k < op.a + op.b && k < (int)mh2_eft::ThresholdCouplingOrders::NUMBER_OF_THRESHOLD_VARIALES; k++) { s.label("threshold"); s.i(k); s.d(t.getThresholdCorrection((mh2_eft::ThresholdCouplingOrders)k, (mh2_eft::RenSchemes)(op.c % 5), op.d & 1)); }
         else {
            s.label("shift"); for (int x = 3; x <= 6; x++) s.d(t.getDRbarPrimeToMSbarShift(x, op.b & 1, op.c & 1));
            for (int x = 3; x <= 6; x++) s.d(t.getDRbarPrimeToMSbarXtTerms((mh2_eft::Limits)(op.a % 6), x, op.b & 1));
            s.i((int)t.getLimit());
         }
      };
      if (slot >= 0) { Use<BTHR> t(w, op, slot, Obj()); run(*t); }
      else { Parameters p = to_pars(pt); p.validate(false); mh2_eft::ThresholdCalculator t(p, op.d >> 1 & 1, op.d >> 2 & 1); run(t); }
      break; }
   case K_DSZ: {
      const double* v = pt.v;
      const double tb = v[P_VU] / v[P_VD], v2 = v[P_VU] * v[P_VU] + v[P_VD] * v[P_VD];
      const double a = std::sqrt(v[P_MQ2 + 8]), b = std::sqrt(v[P_MU2 + 8]), mt2 = 150 * 150, mb2 = 2.4 * 2.4;
      // op.c: 0 general, 1 equal masses, 2 no mixing, 3 equal and no mixing, 4 almost equal, 5 maximal mixing, 6.. equal up to 10^-(c-3)
      const double x = op.c == 2 || op.c == 3 ? 0 : op.c == 5 ? 0.7853981633974483 : 0.5, sx = std::sin(x), cx = std::cos(x), q2 = v[P_SCALE] * v[P_SCALE], mA2 = v[P_MA] * v[P_MA];
      const double m1 = a * a, m2 = op.c == 1 || op.c == 3 ? m1 : op.c == 4 ? m1 * (1 + 1e-9) : op.c > 5 ? m1 * (1 + 2 * std::pow(10, 3 - op.c)) : b * b * 1.07;
      // op.a: bit 0 scheme, 1-2 mixing of the sbottoms and staus, 3-4 sbottom masses, 5 stau masses; op.b: bit 0 flag, 1-2 mA, 3 gluino mass
      const int mb = op.a >> 1 & 3, nb = op.a >> 3 & 3, na = op.b >> 1 & 3;
      const double sb = mb == 0 ? 0.1 : mb == 1 ? 0 : mb == 2 ? std::sin(0.7853981633974483) : 1, cb = mb == 0 ? 0.995 : mb == 1 ? 1 : mb == 2 ? std::cos(0.7853981633974483) : 0;
      const double st = mb == 0 ? 0.2 : sb, ct = mb == 0 ? 0.98 : cb;
      const double b1 = nb == 0 ? m1 * 1.02 : nb == 1 ? m1 * 1.02 : nb == 2 ? m1 : m2, b2 = nb == 0 ? m2 * 1.1 : nb == 1 ? b1 : nb == 2 ? m2 : m1;
      const double l1 = m1 * 0.9, l2 = op.a >> 5 & 1 ? l1 : m2 * 0.9;
      const double A2 = na == 0 ? mA2 : na == 1 ? m1 : na == 2 ? 1e-6 * mA2 : 1e4 * mA2;
      const double mg = op.b >> 3 & 1 ? a : v[P_MG];
      s.label("atas"); mat(s, mh2l::delta_mh2_2loop_at_as(mt2, mg, m1, m2, sx, cx, q2, v[P_MU], tb, v2, v[P_G3], op.a & 1));
      s.label("atat"); mat(s, mh2l::delta_mh2_2loop_at_at(mt2, mb2, A2, m1, m2, b1, b2, sx, cx, sb, cb, q2, v[P_MU], tb, v2, op.a & 1, op.b & 1));
      s.label("abas"); mat(s, mh2l::delta_mh2_2loop_ab_as(mb2, mg, b1, b2, sb, cb, q2, v[P_MU], 1 / tb, v2, v[P_G3], op.a & 1));
      s.label("tautau"); mat(s, mh2l::delta_mh2_2loop_atau_atau(3.2, A2, m1 * 0.99, l1, l2, st, ct, q2, v[P_MU], tb, v2, op.a & 1));
      s.label("abtau"); mat(s, mh2l::delta_mh2_2loop_ab_atau(3.2, mb2, l1, l2, b1, b2, st, ct, sb, cb, q2, v[P_MU], tb, v2, op.a & 1));
      break; }
   case K_LOOP: {
      namespace tlf = mh2_eft::threshold_loop_functions;
      Rng g(op.a * 77777ull + 5);
      const double q2 = pt.v[P_SCALE] * pt.v[P_SCALE];
      auto val = [&] {
         static const double sp[] = {0, 1, 1, 1, 0.5, 2, 1e-9, 1e-4, 1 - 1e-9, 1 + 1e-9, 1 - 1e-4, 1 + 1e-4, 1.01, 0.99, 1e4, 3};
         return g.chance(0.7) ? sp[g.below(16)] : std::exp(g.uni(-4, 4));
      };
      s.label("loop"); s.i(op.b);
      for (int k = 0; k < op.c; k++) {
         const double x = val(), y = g.chance(0.25) ? x : val(), z = val();
         switch (op.b) {
         case 0:
            s.d(mh2_fo::a0(x * q2, q2)); s.d(mh2_fo::b0(x * q2, y * q2, z * q2, q2));
            s.d(mh2_fo::b0xx(x * q2, y * q2, q2)); s.d(mh2_fo::d1_b0(x * q2, y * q2)); break;
         case 1:
            s.d(tlf::F1(x)); s.d(tlf::F2(x)); s.d(tlf::F3(x)); s.d(tlf::F4(x)); s.d(tlf::F5(x)); s.d(tlf::F6(x)); s.d(tlf::F7(x));
            s.d(tlf::f(x)); s.d(tlf::g(x)); s.d(tlf::f1(x)); s.d(tlf::f2(x)); s.d(tlf::f3(x)); s.d(tlf::f4(x)); break;
         case 2:
            s.d(tlf::F8(x, y)); s.d(tlf::F9(x, y)); s.d(tlf::f5(x, y)); s.d(tlf::f6(x, y)); s.d(tlf::f7(x, y)); s.d(tlf::f8(x, y)); break;
         case 3:
            s.d(tlf::delta_xyz(x, y, z)); s.d(tlf::phi_xyz(x, y, z)); break;
         default: {
            const double u = (g.chance(0.5) ? 1 : -1) * x;
            const std::complex<double> c(u, g.chance(0.2) ? 0 : y - 1);
            s.d(dilog(u)); s.d(li2(u)); s.d(clausen_2(u));
            const std::complex<double> a = dilog(c), b = li2(c);
            s.d(a.real()); s.d(a.imag()); s.d(b.real()); s.d(b.imag()); }
         }
      }
      break; }
   case K_SET: {
      s.label("set");
      const int ty = w.plan->obj[slot].type;
      const auto order = (CouplingOrders::CouplingOrders)(op.b == 23 ? 40 : op.b % 23);
      if (ty == O_FO) {
         Use<BFO> f(w, op, slot, Obj());
         if (op.a == 0) f->set_correction(order, op.c);
         else if (op.a == 1) f->set_mom_it((mh2_fo::Momentum_iteration)(op.b % 3), op.c == 1 ? 1e-9 : op.c ? 1e-5 : 1e-3, op.b / 3 % 4 == 3 ? 0 : op.c ? 12 : 3);
         else f->set_diagonalization((mh2_fo::Diagonalization)(op.b & 1));
      } else if (ty == O_EFT) {
         Use<BEFT> e(w, op, slot, Obj());
         e->setCorrectionFlag(order, op.c);
      } else if (ty == O_THR) {
         Use<BTHR> t(w, op, slot, Obj());
         if (op.a == 0) t->setLimit((mh2_eft::Limits)(op.b % 6)); else t->setXtOrderOfDeltaLambdaAtAs2(3 + op.b % 4);
         s.i((int)t->getLimit());
      } else if (ty == O_HO) {
         Use<BHO> h(w, op, slot, Obj());
         if (op.a == 0) h->setMDRFlag(op.c); else if (op.a == 1) h->setRenormalizationScheme(op.b % 5); else h->setSuitableHierarchy(op.b % 14);
         ser_ho(s, *h);
      }
      break; }
   case K_SCAN: { // one parameter set is used for one point after the other
      Parameters p = to_pars(pt);
      if (op.b) {
         Point past = pt;
         Rng g(op.c * 1000003ull + 7);
         static const int main[] = {P_SCALE, P_MU, P_G3, P_VD, P_VU, P_MQ2, P_MQ2 + 4, P_MQ2 + 8, P_MU2 + 4, P_MU2 + 8, P_MD2, P_MD2 + 8, P_ML2 + 8, P_AU + 8, P_YU + 8, P_MG, P_MA, P_MW, P_MZ, P_MT, P_MST + 1};
         for (int k = 0; k < 6; k++) { double& x = past.v[g.chance(0.5) ? main[g.below(sizeof main / sizeof *main)] : g.below(P_LIM)]; x = x == x ? x * g.uni(0.9, 1.2) : g.chance(0.5) ? x : g.uni(90, 2000); }
         set_pars(p, past);
         try {
            if (op.b & 1) (void)p.calculateMsq2();
            if (op.b & 2) *(std::ostream*)fixstr_mem[rt::self()] << p;
            if (op.b & 4) { p.validate(false); if (op.b & 1) (void)p.calculateMsq2(); }
            if (op.b & 8) { HierarchyCalculator c(p, false); if (op.b & 16) (void)c.calculateDMh3L(op.a & 1); }
            if (op.b & 32) { Parameters o = p; p = o; }
         } catch (const std::runtime_error&) {} // the past is of no interest
         set_pars(p, pt);
      }
      switch (op.a >> 1) {
      case 0: { HierarchyCalculator c(p, false); ser_ho(s, c.calculateDMh3L(op.a & 1)); break; }
      case 1: s.label("msq2"); s.d(p.calculateMsq2()); p.validate(false); ser_pars(s, p); s.d(p.calculateMsq2()); break;
      default: {
         p.validate(false);
         const mh2_eft::Mh2EFTCalculator e(p, false); s.label("Mh2"); s.d(e.getDeltaMh2EFT1Loop(1, 1)); s.d(e.getDeltaMh2EFT2Loop(1, 1));
         const mh2_fo::MSSM_mass_eigenstates f(p, op.a & 1); const auto r = f.calculate_Mh2(); s.d(std::get<1>(r)); s.d(std::get<2>(r)); }
      }
      break; }
   case K_VAL: { Parameters p = to_pars(pt); p.validate(op.a & 1); ser_pars(s, p); s.label("msq2"); s.d(p.calculateMsq2()); break; }
   case K_RETRYVAL: { Use<BPAR> p(w, op, slot, fresh_obj(O_PAR, op.pt, 0, 0)); p->validate(op.a & 1); ser_pars(s, *p); s.label("msq2"); s.d(p->calculateMsq2()); break; }
   case K_PRT: case K_PHO: case K_PFO: case K_PEFT: {
      FixBuf* fb = fixbuf_tls;
      std::ostream& os = op.d == 1 ? std::cout : op.d == 2 ? std::cerr : *(std::ostream*)fixstr_mem[rt::self()];
      if (op.kind == K_PRT) { if (slot >= 0) { Use<BPAR> p(w, op, slot, Obj()); os << *p; } else { const Parameters p = to_pars(pt); os << p; } }
      else if (op.kind == K_PHO) { Use<BHO> h(w, op, hslot, fresh_obj(O_HO, op.pt, op.a & 1, 1)); os << *h; }
      else if (op.kind == K_PFO) { if (slot >= 0) { Use<BFO> f(w, op, slot, Obj()); os << *f; } else { Parameters p = to_pars(pt); p.validate(false); mh2_fo::MSSM_mass_eigenstates f(p); os << f; } }
      else { if (slot >= 0) { Use<BEFT> f(w, op, slot, Obj()); os << *f; } else { Parameters p = to_pars(pt); p.validate(false); mh2_eft::Mh2EFTCalculator f(p, false); os << f; } }
      if (op.d) { s.label("printed"); s.i(op.d); break; }
      // an output operator that ran into a memory failure flags it on its stream
      if (!os) { os.clear(); throw std::ios_base::failure("output stream failed"); }
      ser_text(s, *fb);
      break; }
   case K_HON: { const HierarchyObject h((bool)(op.b & 1)); const std::string t = h.getH3mHierarchyNotation(op.a); s.label("name"); s.s(t.data(), t.size()); break; }
   case K_GETHO: { Use<BHO> h(w, op, hslot, fresh_obj(O_HO, op.pt, op.a & 1, 1)); ser_ho(s, *h); break; }
   case K_BAD: {
      HierarchyObject h(false);
      s.label("bad"); s.i(op.a);
      switch (op.a % 14) {
      case 0: s.d(h.getDMh2(4)); break;
      case 1: h.setMDRFlag(7); break;
      case 2: h.setRenormalizationScheme(9); break;
      case 3: s.d(h.getDLambda(-1)); break;
      case 4: mat(s, h.getDMh(9)); break;
      case 5: { const std::string t = h.getH3mHierarchyNotation(99); s.s(t.data(), t.size()); break; }
      case 6: { HierarchyCalculator c(to_pars(pt), false); h.setSuitableHierarchy(-1); mat(s, c.calculateHierarchy(h, 1, 1, 1)); break; }
      case 7: { HierarchyCalculator c(to_pars(pt), false); h.setSuitableHierarchy(77); mat(s, c.calculateHierarchy(h, 1, 1, 1)); break; }
      case 8: { Use<BHC> c(w, op, slot, fresh_obj(O_HC, op.pt, 0, 0)); h.setSuitableHierarchy(55); s.d(c->getExpansionUncertainty(h, Eigen::Matrix2d::Identity(), 0, 1, 1)); break; }
      case 9: { Use<BHC> c(w, op, slot, fresh_obj(O_HC, op.pt, 0, 0)); h.setSuitableHierarchy(-1); mat(s, c->calcDRbarToMDRbarShift(h, true, true)); break; }
      case 10: h.setDMh2EFT(12, 1.); break;
      case 11: { Use<BHC> c(w, op, slot, fresh_obj(O_HC, op.pt, 0, 0)); h.setSuitableHierarchy(40); s.d(c->shiftMst1ToMDR(h, 1, 1)); break; }
      case 12: s.d(h.getDMhExpUncertainty(5)); break;
      default: { Parameters p = to_pars(pt); p.vu = 0; HierarchyCalculator c(p, op.b & 1); s.d(0); break; }
      }
      ser_ho(s, h);
      break; }
   case K_NEWDEL: { HierarchyCalculator c(to_pars(pt), op.a & 1); s.label("made"); if (op.b & 1) { const HierarchyObject h = c.calculateDMh3L(false); ser_ho(s, h); } break; }
   case K_VALUE: value_action(w, op, s); break;
   case K_LL: {
      double v[160];
      const int kind = op.d & 0xff, pos = op.d >> 8 & 0xfff, var = op.d >> 20 & 7;
      { rt::NoLib nl;
        to_list(pt, v, op.a & 1, op.b, op.c & 1);
        ml_set_variant(var & 1, (var >> 1 & 1) ? 3 + pos % 30 : 0, var >> 2 & 1);
        ml_request(v, 127, kind, pos); }
      std::streambuf* o = std::cout.rdbuf(); std::streambuf* e = std::cerr.rdbuf();
      int rc = -1;
      bool escaped = false;
      try { rc = HimalayaCalculateDMh3L(nullptr, ml_link()); } catch (...) { escaped = true; }
      if (escaped) rt::violation("escape", "an exception escaped from the library function");
      if (std::cout.rdbuf() != o || std::cerr.rdbuf() != e) rt::violation("stream-not-restored", "%s writes to another buffer after the request", std::cout.rdbuf() != o ? "cout" : "cerr");
      if ((!std::cout.good() || !std::cerr.good()) && !sink_hit[rt::self()]) rt::violation("stream-not-restored", "%s is in a failed state after the request", !std::cout.good() ? "cout" : "cerr");
      std::cout.rdbuf(o); std::cerr.rdbuf(e);
      { rt::NoLib nl;
        const MLReply r = ml_finish(rc);
        s.label("rc"); s.i(rc);
        s.label("nexpr"); s.i(r.nexpr); s.label("incomplete"); s.i(r.incomplete); s.label("malformed"); s.i(r.malformed);
        s.label("left"); s.i(r.left); s.label("err"); s.i(r.err); s.label("dead"); s.i(r.dead);
        s.label("value"); s.s(r.value.data(), r.value.size());
        for (auto& m : r.msgs) { s.label("msg"); s.s(m.data(), m.size()); }
        const std::string talk = ml_chatter();
        s.label("chatter"); s.s(talk.data(), talk.size());
        if (r.dead) ml_reset(); // the host opens a new link
      }
      break; }
   case K_LLREF: {
      double v[160];
      to_list(pt, v, op.a & 1, op.b, op.c & 1);
      Parameters p = from_list(v);
      p.validate(op.c & 1);
      double z = 0;
      double eft[4], fo[4], fod[4];
      HierarchyObject ho(false);
      if (op.b > 2) {
         HierarchyCalculator hc(p, op.c & 1);
         ho = hc.calculateDMh3L(op.a & 1);
         for (int i = 0; i < 4; i++) { eft[i] = ho.getDMh2EFTAt(i); fo[i] = ho.getDMh2FO(i); fod[i] = ho.getDMh2FOAt(i); }
      } else {
         const mh2_eft::Mh2EFTCalculator m(p);
         eft[0] = m.getDeltaMh2EFT0Loop(); eft[1] = m.getDeltaMh2EFT1Loop(1, 1); eft[2] = m.getDeltaMh2EFT2Loop(1, 1); eft[3] = z;
         const mh2_fo::MSSM_mass_eigenstates f(p), g(p, true);
         const auto a = f.calculate_Mh2(); const auto b = g.calculate_Mh2();
         fo[0] = std::get<0>(a); fo[1] = std::get<1>(a); fo[2] = std::get<2>(a); fo[3] = z;
         fod[0] = std::get<0>(b); fod[1] = std::get<1>(b); fod[2] = std::get<2>(b); fod[3] = z;
      }
      rt::NoLib nl;
      std::string t = "List[";
      auto real = [&](double d) { return ml_canon_real(d); };
      auto vec4 = [&](const char* n, const double* d, int k) { std::string r = std::string("Rule[") + n + ",List["; for (int i = 0; i < k; i++) r += (i ? "," : "") + real(d[i]); return r + "]]"; };
      auto m22 = [&](const Eigen::Matrix2d& m) { return "List[List[" + real(m(0, 0)) + "," + real(m(0, 1)) + "],List[" + real(m(1, 0)) + "," + real(m(1, 1)) + "]]"; };
      char b[64];
      snprintf(b, sizeof b, "Rule[hierarchyID,i%d],", ho.getSuitableHierarchy()); t += b;
      t += "Rule[hierarchyName," + ho.getH3mHierarchyNotation(ho.getSuitableHierarchy()) + "],";
      const double mm[2] = {ho.getMDRMasses()(0), ho.getMDRMasses()(1)};
      t += vec4(ho.getIsAlphab() ? "MsbottomMDRPrime" : "MstopMDRPrime", mm, 2) + ",";
      t += "Rule[Mh2,List["; for (int i = 0; i < 4; i++) t += (i ? "," : "") + m22(ho.getDMh(i)); t += "]],";
      const Eigen::Matrix2d zero = Eigen::Matrix2d::Zero();
      t += "Rule[Mh2ShiftDRbarPrimeToMDRPrime,List[" + m22(zero) + "," + m22(zero) + "," + m22(zero) + "," + m22(ho.getDMhDRbarPrimeToMDRbarPrimeShift()) + "]],";
      t += "Rule[Mh2ShiftDRbarPrimeToH3m,List[" + m22(zero) + "," + m22(zero) + "," + m22(zero) + "," + m22(ho.getDMhDRbarPrimeToH3mShift()) + "]],";
      const double eu[4] = {0, ho.getDMhExpUncertainty(1), ho.getDMhExpUncertainty(2), ho.getDMhExpUncertainty(3)};
      t += vec4("expansionUncertainty", eu, 4) + "," + vec4("Mh2EFTAt", eft, 4) + "," + vec4("Mh2FO", fo, 4) + "," + vec4("Mh2FOAt", fod, 4) + ",";
      const double la[4] = {ho.getDLambda(0), ho.getDLambda(1), ho.getDLambda(2), ho.getDLambda(3)};
      const double lu[4] = {0, 0, 0, ho.getDLambdaUncertainty(3)};
      const double ls[4] = {ho.getDLambdaDRbarPrimeToMSbarShift(0), ho.getDLambdaDRbarPrimeToMSbarShift(1), ho.getDLambdaDRbarPrimeToMSbarShift(2), ho.getDLambdaDRbarPrimeToMSbarShift(3)};
      t += vec4("lambda", la, 4) + "," + vec4("lambdaUncertainty", lu, 4) + "," + vec4("lambdaShiftDRbarPrimeToMSbar", ls, 4) + "]";
      s.label("value"); s.s(t.data(), t.size());
      break; }
   default: throw std::logic_error("plan: unknown operation");
   }
}

// ---------------------------------------------------------------- environment
struct EnvSnap {
   int round, except; unsigned mxcsr; unsigned short cw;
   std::streambuf* buf[4]; std::ios_base::fmtflags fl[4]; std::streamsize prec[4], width[4]; char fill[4]; std::ios_base::iostate ex[4], st[4]; std::ostream* tie[4];
   char loc[256], gloc[64], iloc[4][64];
   struct sigaction sa[32]; sigset_t mask;
   std::terminate_handler th; std::new_handler nh;
   char cwd[256]; mode_t um; uint64_t envh; uint64_t fds[4]; unsigned srands;
   rlimit lim[16]; itimerval tm[3]; char tname[16]; int cancel[2], nice; locale_t tloc; cpu_set_t cpus; stack_t alt;
   int lbf[3], wide[3]; size_t bsz[3];
};
struct MXCSR { static unsigned get() { return __builtin_ia32_stmxcsr() & ~0x3fu; } };

void cpy(char* d, size_t n, const char* s) { snprintf(d, n, "%s", s ? s : ""); }

void take_env(EnvSnap& e)
{
   rt::NoLib nl;
   memset((void*)&e, 0, sizeof e);
   e.round = fegetround(); e.except = fegetexcept(); e.mxcsr = MXCSR::get();
   __asm__ volatile("fnstcw %0" : "=m"(e.cw));
   std::ios* s[4] = {&std::cout, &std::cerr, &std::clog, &std::cin};
   for (int i = 0; i < 4; i++) {
      e.buf[i] = s[i]->rdbuf(); e.fl[i] = s[i]->flags(); e.prec[i] = s[i]->precision(); e.width[i] = s[i]->width(); e.fill[i] = s[i]->fill(); e.ex[i] = s[i]->exceptions(); e.st[i] = s[i]->rdstate(); e.tie[i] = s[i]->tie();
      cpy(e.iloc[i], 64, s[i]->getloc().name().c_str());
   }
   if (!g_env_checks) return;
   static bool armed;
   if (!armed) { // timers of the application
      armed = true;
      const itimerval far = {{0, 0}, {1000000, 0}};
      setitimer(ITIMER_PROF, &far, nullptr); // the other one is the watchdog of the simulator
   }
   for (int i = 0; i < 16; i++) getrlimit((__rlimit_resource_t)i, &e.lim[i]);
   for (int i = 0; i < 3; i++) { getitimer((__itimer_which_t)i, &e.tm[i]); e.tm[i].it_value.tv_sec = e.tm[i].it_value.tv_sec > 30; e.tm[i].it_value.tv_usec = 0; }
   prctl(PR_GET_NAME, e.tname);
   pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &e.cancel[0]); pthread_setcancelstate(e.cancel[0], nullptr);
   pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &e.cancel[1]); pthread_setcanceltype(e.cancel[1], nullptr);
   e.nice = getpriority(PRIO_PROCESS, 0);
   e.tloc = uselocale((locale_t)0);
   sched_getaffinity(0, sizeof e.cpus, &e.cpus);
   sigaltstack(nullptr, &e.alt);
   FILE* f[3] = {stdin, stdout, stderr};
   for (int i = 0; i < 3; i++) { e.lbf[i] = __flbf(f[i]); e.wide[i] = fwide(f[i], 0); e.bsz[i] = __fbufsize(f[i]); }
   cpy(e.loc, 256, setlocale(LC_ALL, nullptr));
   cpy(e.gloc, 64, std::locale().name().c_str());
   for (int i = 1; i < 32; i++) sigaction(i, nullptr, &e.sa[i]);
   pthread_sigmask(SIG_SETMASK, nullptr, &e.mask);
   e.th = std::get_terminate(); e.nh = std::get_new_handler();
   if (!getcwd(e.cwd, sizeof e.cwd)) e.cwd[0] = 0;
   e.um = umask(0); umask(e.um);
   for (char** p = environ; p && *p; p++) for (const char* c = *p; *c; c++) e.envh = (e.envh ^ (unsigned char)*c) * 0x100000001b3ull;
   for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) e.fds[i / 64] |= 1ull << i % 64;
   e.srands = rt_srand_calls();
}
const char* env_difference(const EnvSnap& a, const EnvSnap& b)
{
   if (a.round != b.round) return "floating-point rounding mode";
   if (a.except != b.except) return "floating-point traps";
   if (a.mxcsr != b.mxcsr) return "floating-point control register (MXCSR)";
   if (a.cw != b.cw) return "x87 control word";
   static const char* const name[4][10] = {
#define NM(x) {"buffer of " x, "format flags of " x, "precision of " x, "width of " x, "fill character of " x, "exception mask of " x, "state of " x, "tie of " x, "locale of " x, ""}
      NM("cout"), NM("cerr"), NM("clog"), NM("cin")};
   for (int i = 0; i < 4; i++) {
      if (a.buf[i] != b.buf[i]) return name[i][0];
      if (a.fl[i] != b.fl[i]) return name[i][1];
      if (a.prec[i] != b.prec[i]) return name[i][2];
      if (a.width[i] != b.width[i]) return name[i][3];
      if (a.fill[i] != b.fill[i]) return name[i][4];
      if (a.ex[i] != b.ex[i]) return name[i][5];
      if (a.st[i] != b.st[i]) return name[i][6];
      if (a.tie[i] != b.tie[i]) return name[i][7];
      if (strcmp(a.iloc[i], b.iloc[i])) return name[i][8];
   }
   if (!g_env_checks) return nullptr;
   if (strcmp(a.loc, b.loc)) return "C locale";
   if (strcmp(a.gloc, b.gloc)) return "global C++ locale";
   for (int i = 1; i < 32; i++) if (a.sa[i].sa_handler != b.sa[i].sa_handler || a.sa[i].sa_flags != b.sa[i].sa_flags || memcmp(&a.sa[i].sa_mask, &b.sa[i].sa_mask, 8)) return "signal handlers";
   if (memcmp(&a.mask, &b.mask, 8)) return "signal mask";
   if (a.th != b.th) return "terminate handler";
   if (a.nh != b.nh) return "new handler";
   if (strcmp(a.cwd, b.cwd)) return "working directory";
   if (a.um != b.um) return "file creation mask";
   if (a.envh != b.envh) return "environment variables";
   if (memcmp(a.fds, b.fds, sizeof a.fds)) return "open files";
   if (a.srands != b.srands) return "seed of the random number generator";
   if (memcmp(a.lim, b.lim, sizeof a.lim)) return "resource limits";
   if (memcmp(a.tm, b.tm, sizeof a.tm)) return "interval timers";
   if (strcmp(a.tname, b.tname)) return "name of the thread";
   if (memcmp(a.cancel, b.cancel, sizeof a.cancel)) return "cancellation state of the thread";
   if (a.nice != b.nice) return "scheduling priority";
   if (a.tloc != b.tloc) return "locale of the thread";
   if (memcmp(&a.cpus, &b.cpus, sizeof a.cpus)) return "processor affinity";
   if (a.alt.ss_sp != b.alt.ss_sp || a.alt.ss_size != b.alt.ss_size) return "alternative signal stack";
   for (int i = 0; i < 3; i++) if (a.lbf[i] != b.lbf[i] || a.wide[i] != b.wide[i] || a.bsz[i] != b.bsz[i]) return "buffering of the C streams";
   if (const char* c = rt_process_call()) return c;
   return nullptr;
}
} // namespace

void exec_op(World& w, const Op& op, int index)
{
   const int t = rt::self();
   const bool solo = runs_alone(*w.plan, (t - 1) % w.plan->th.size());
   Ser s{serbuf[t]};
   static EnvSnap snap[rt::MAXT][2];
   // everything the harness needs is set up before the operation starts
   {
      FixBuf* fb = new (fixbuf_mem[t]) FixBuf;
      fixbuf_tls = fb;
      std::ostream* os = new (fixstr_mem[t]) std::ostream(fb);
      os->imbue(w.plan->streamfmt & 32 ? std::cout.getloc() : std::locale::classic());
      if (w.plan->streamfmt & 1) { os->precision(4); os->setf(std::ios_base::fixed, std::ios_base::floatfield); }
      if (w.plan->streamfmt & 2) { os->fill('#'); os->setf(std::ios_base::showpos | std::ios_base::hex | std::ios_base::uppercase); }
   }
   const std::ostream& own = *(std::ostream*)fixstr_mem[t];
   const std::ios_base::fmtflags ofl = own.flags();
   const std::streamsize oprec = own.precision();
   const char ofill = own.fill();
   const std::locale oloc = own.getloc();
   if (w.plan->fround) fesetround(w.plan->fround == 1 ? FE_UPWARD : w.plan->fround == 2 ? FE_DOWNWARD : FE_TOWARDZERO);
   if (w.plan->fpflags) feraiseexcept(w.plan->fpflags & FE_ALL_EXCEPT);
   if (solo && (!std::cerr.good() || !std::cout.good())) { std::cerr.clear(); std::cout.clear(); } // sinks failed while several threads ran
   take_env(snap[t][0]);
   { static const int err[] = {0, ERANGE, EDOM, ENOMEM, EINTR}; errno = err[(w.plan->env_seed >> 9) % 5]; } // left over from the caller
   if (w.plan->stack_poison) rt::scribble_stack();
   sink_hit[t] = false;
   rt::op_begin(index);
   uint32_t arg = 0;
   std::streambuf* saved = nullptr;
   bool unset = false;
   const std::ios_base::iostate ex0 = std::cerr.exceptions();
   if (solo) {
      if (rt::have_fault(rt::F_STATE_BAD, &arg)) { std::cerr.setstate(arg & 1 ? std::ios_base::badbit : std::ios_base::failbit); sink_fired(rt::F_STATE_BAD); }
      if (rt::have_fault(rt::F_NULLBUF, &arg)) { saved = std::cerr.rdbuf(nullptr); unset = true; sink_fired(rt::F_NULLBUF); }
      if (rt::have_fault(rt::F_EXCEPT, &arg)) { try { std::cerr.exceptions(std::ios_base::badbit | std::ios_base::failbit); } catch (...) {} sink_fired(rt::F_EXCEPT); }
   }
   std::streambuf* const mid = std::cerr.rdbuf();
   const std::ios_base::iostate exm = std::cerr.exceptions();
   s.u8(RS_OK);
   {
      rt::Lib lib;
      try { run_op(w, op, s); }
      catch (const std::bad_alloc& e) { s.n = 0; s.u8(RS_BADALLOC); }
      catch (const std::ios_base::failure& e) { s.n = 0; s.u8(RS_IOFAIL); }
      catch (const SinkError& e) { s.n = 0; s.u8(RS_IOFAIL); }
      catch (const std::exception& e) { s.n = 0; s.u8(RS_STDEXC); s.label("what"); rt::NoLib nl; s.s(e.what()); }
      catch (...) { s.n = 0; s.u8(RS_OTHEREXC); }
   }
   if (s.over) rt::fatal("internal", "result too large");
   if (std::cerr.rdbuf() != mid) rt::violation("environment", "buffer of cerr changed by %s", op_name[op.kind]);
   if (solo) {
      if (std::cerr.exceptions() != exm) rt::violation("environment", "exception mask of cerr changed by %s", op_name[op.kind]);
      if (std::cerr.exceptions() != ex0) std::cerr.exceptions(ex0);
      if (unset) std::cerr.rdbuf(saved);
      if (!std::cerr.good() || !std::cout.good()) { std::cerr.clear(); std::cout.clear(); }
   } else if (std::cerr.bad()) std::cerr.clear();
   take_env(snap[t][1]);
   if (solo) { if (const char* d = env_difference(snap[t][0], snap[t][1])) rt::violation("environment", "%s changed by %s", d, op_name[op.kind]); }
   else {
      const EnvSnap &a = snap[t][0], &b = snap[t][1];
      if (a.round != b.round || a.except != b.except || a.mxcsr != b.mxcsr || a.cw != b.cw) rt::violation("environment", "floating-point mode changed by %s", op_name[op.kind]);
      if (a.tloc != b.tloc || memcmp(a.cancel, b.cancel, sizeof a.cancel) || memcmp(&a.mask, &b.mask, 8) || strcmp(a.tname, b.tname)) rt::violation("environment", "state of the calling thread changed by %s", op_name[op.kind]);
   }
   if (own.flags() != ofl || own.precision() != oprec || own.fill() != ofill || own.exceptions() != std::ios_base::goodbit || own.rdbuf() != fixbuf_tls || own.getloc() != oloc) rt::violation("environment", "format settings of the stream printed to changed by %s", op_name[op.kind]);
   rt::op_result(s.b, s.n);
   rt::op_end();
   ((std::ostream*)fixstr_mem[t])->~basic_ostream();
   fixbuf_tls = nullptr;
}

void make_shared_objects(World& w)
{
   w.obj.assign(w.plan->obj.size(), nullptr);
   for (size_t i = 0; i < w.obj.size(); i++)
      if (w.plan->obj[i].shared) {
         rt::Lib l;
         try { w.obj[i] = make_obj(*w.plan, w.plan->obj[i]); } catch (const std::exception&) { w.obj[i] = nullptr; }
      }
}
void destroy_objects(World& w, bool shared)
{
   const int t = rt::self();
   (void)t;
   for (size_t i = 0; i < w.obj.size(); i++)
      if (w.obj[i] && w.plan->obj[i].shared == shared) { rt::Lib l; delete (Any*)w.obj[i]; w.obj[i] = nullptr; }
   if (!shared) return;
   for (int k = 0; k < rt::MAXT; k++) pools_free(k);
}
void destroy_own(World& w, int thread)
{
   for (const Op& o : w.plan->th[thread])
      for (int i : {o.slot, o.ho})
         if (i >= 0 && w.obj[i] && !w.plan->obj[i].shared) { rt::Lib l; delete (Any*)w.obj[i]; w.obj[i] = nullptr; }
   pools_free(rt::self());
}
// shared objects are compared with new ones; nobody looks at them before the
// threads do (a cache must be filled in by one of those)
void check_shared_objects(World& w)
{
   static unsigned char b[2][64][8192];
   static size_t n[2][64];
   for (size_t i = 0; i < w.obj.size() && i < 64; i++) {
      if (!w.obj[i] || !w.plan->obj[i].shared) continue;
      rt::Lib l;
      Any* fresh = nullptr;
      try { fresh = make_obj(*w.plan, w.plan->obj[i]); } catch (const std::exception&) {}
      if (!fresh) { rt::violation("shared-changed", "shared object %zu cannot be created again", i); continue; }
      for (int k = 0; k < 2; k++) {
         Ser s{b[k][i]};
         Any* a = k ? (Any*)w.obj[i] : fresh;
         if (a->type == O_HO) ser_ho(s, ((BHO*)a)->v);
         else if (a->type == O_PAR) ser_pars(s, ((BPAR*)a)->v);
         else if (a->type == O_THR) s.i((int)((BTHR*)a)->v.getLimit());
         n[k][i] = s.n;
      }
      delete fresh;
      if ((n[0][i] != n[1][i] || memcmp(b[0][i], b[1][i], n[0][i]))) rt::violation("shared-changed", "shared object %zu was modified by read-only operations: %s", i, first_difference(b[0][i], n[0][i], b[1][i], n[1][i]).c_str());
   }
}

static std::streambuf* real_buf[2];
void install_streams(const Plan& p)
{
   for (int i = 0; i < 2; i++) simbuf[i] = new (simbuf_mem[i]) SimBuf(i + 1);
   if (p.sinkpos) for (int i = 0; i < 2; i++) simbuf[i]->base = (1ll << p.sinkpos) - 1;
   real_buf[0] = std::cout.rdbuf(simbuf[p.streamfmt & 128 ? 1 : 0]); // both streams of the application go to one place
   real_buf[1] = std::cerr.rdbuf(simbuf[1]);
   if (p.streamfmt & 1) { std::cerr.precision(3); std::cerr << std::fixed; std::cout.precision(11); }
   if (p.streamfmt & 2) { std::cerr.fill('*'); std::cerr << std::hex << std::showpos; std::cout << std::scientific; }
   if (p.streamfmt & 8) { std::cerr.precision(280); std::cerr << std::fixed; } // very long lines
   if (p.streamfmt & 4) std::locale::global(std::locale(std::locale::classic(), new CommaPunct));
   if ((p.streamfmt & 16) && !setlocale(LC_ALL, "de_DE.UTF-8")) setlocale(LC_ALL, "C.UTF-8");
   if (p.streamfmt & 64) { std::cout.exceptions(std::ios_base::badbit); std::cerr.exceptions(std::ios_base::badbit); }
   if (p.streamfmt & 32) { const std::locale l(std::locale::classic(), new CommaPunct); std::cout.imbue(l); std::cerr.imbue(l); std::ostringstream w; w.imbue(l); w << 1 << 1.5; } // (fills the caches of the locale)
   rt::skip_range(&std::cerr, sizeof std::cerr); rt::skip_range(&std::cout, sizeof std::cout);
   rt::skip_range(&std::clog, sizeof std::clog); rt::skip_range(&std::cin, sizeof std::cin);
}
void check_streams_end(const Plan& p)
{
   if (std::cout.rdbuf() != simbuf[p.streamfmt & 128 ? 1 : 0] || std::cerr.rdbuf() != simbuf[1]) rt::violation("stream-not-restored", "a standard stream writes to another buffer at the end of the run");
   std::cout.rdbuf(real_buf[0]); std::cerr.rdbuf(real_buf[1]);
}

// ---------------------------------------------------------------- reading results (no library code)
static std::string item(const unsigned char* p, size_t n, size_t& o, std::string* lab)
{
   char b[80];
   if (o >= n) return "";
   const char t = p[o++];
   if (t == 'L') { const size_t k = p[o++]; if (lab) lab->assign((const char*)p + o, k); o += k; return ""; }
   if (t == 'd') { double d; uint64_t u; memcpy(&d, p + o, 8); memcpy(&u, p + o, 8); o += 8; snprintf(b, sizeof b, "%.17g (%016llx)", d, (unsigned long long)u); return b; }
   if (t == 'i') { long long x; memcpy(&x, p + o, 8); o += 8; snprintf(b, sizeof b, "%lld", x); return b; }
   if (t == 's') { uint32_t m; memcpy(&m, p + o, 4); o += 4; std::string r((const char*)p + o, m); o += m; return "\"" + r + "\""; }
   o = n;
   return "?";
}
static const char* status_name(unsigned char c)
{
   switch (c) { case RS_OK: return "ok"; case RS_BADALLOC: return "bad_alloc"; case RS_STDEXC: return "exception"; case RS_IOFAIL: return "stream failure"; case RS_OTHEREXC: return "unknown exception"; default: return "?"; }
}
std::string describe_result(const unsigned char* p, size_t n)
{
   std::string r, lab;
   if (!n) return "(none)";
   size_t o = 0;
   if (p[0] >= RS_OK && p[0] <= RS_OTHEREXC) { r = status_name(p[0]); o = 1; }
   while (o < n && r.size() < 4000) { std::string l; const std::string v = item(p, n, o, &l); if (!l.empty()) { r += " " + l + ":"; continue; } r += " " + v; }
   return r;
}
std::string first_difference(const unsigned char* a, size_t na, const unsigned char* b, size_t nb)
{
   if (na && nb && a[0] <= RS_OTHEREXC && b[0] <= RS_OTHEREXC && a[0] != b[0]) {
      std::string r = std::string("expected ") + status_name(a[0]) + ", got " + status_name(b[0]);
      if (b[0] == RS_STDEXC || a[0] == RS_STDEXC) { const std::string q = b[0] == RS_STDEXC ? describe_result(b, nb) : describe_result(a, na); r += " [" + q.substr(0, 160) + "]"; }
      return r;
   }
   size_t o = na && a[0] <= RS_OTHEREXC ? 1 : 0, q = o;
   std::string lab, lab2;
   int k = 0;
   while (o < na && q < nb) {
      std::string l, l2;
      const std::string x = item(a, na, o, &l), y = item(b, nb, q, &l2);
      if (!l.empty()) { lab = l; k = 0; }
      if (l != l2) return "labels " + l + " / " + l2;
      if (x != y) { char c[32]; snprintf(c, sizeof c, "[%d]", k);
         size_t d = 0;
         while (d < x.size() && d < y.size() && x[d] == y[d]) d++;
         if (d > 250) { const size_t from = d - 100; return lab + c + ": texts differ at " + std::to_string(d) + ": expected ..." + x.substr(from, 250) + ", got ..." + y.substr(from, 250); }
         return lab + c + ": expected " + x.substr(0, 300) + ", got " + y.substr(0, 300); }
      if (l.empty()) k++;
   }
   if (o < na || q < nb) return "lengths differ (after " + lab + ")";
   return "no difference";
}
