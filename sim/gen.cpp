// Generators of plans, one per property.  Everything is drawn from one
// random generator that is seeded by the property and the seed.
#include "plan.h"
#include <algorithm>
#include <cmath>
#include <cstring>

uint32_t ref_count(const Plan& p, const Op& o, int what);
bool ref_is_ok(const Plan& p, const Op& o);

namespace {
struct G {
   Rng r;
   Plan p;
   int tier;
   explicit G(uint64_t s) : r(s), tier(0) {}

   void points(int n, int family, double mutate, double corrupt = 0)
   {
      for (int i = 0; i < n; i++) {
         Point q = !p.pts.empty() && r.chance(mutate) ? mutate_point(r, p.pts[r.below(p.pts.size())]) : gen_point(r, family);
         if (r.chance(corrupt)) q = corrupt_point(r, q);
         p.pts.push_back(q);
      }
   }
   int pt() { return (int)r.below(p.pts.size()); }

   void schedule()
   {
      p.sched_seed = r.next() >> 1;
      if (p.th.size() < 2) { p.mode = rt::S_SEQ; return; }
      if (r.chance(0.3)) {
         p.mode = rt::S_PCT;
         p.pct_depth = r.range(1, 6);
         p.pct_horizon = (uint64_t)std::exp(r.uni(std::log(100.), std::log(300000.)));
         p.p_shared = 1000;
      } else {
         p.mode = rt::S_RANDOM;
         static const uint32_t ps[] = {200, 1000, 4000, 12000, 30000}, pf[] = {0, 0, 30, 300, 2000}, ms[] = {20, 200, 1000, 4000};
         p.p_shared = ps[r.below(5)]; p.p_func = pf[r.below(5)]; p.max_switches = ms[r.below(4)];
      }
   }

   Op op(int kind, int pt_ = -1) { Op o; o.kind = kind; o.pt = pt_ >= 0 ? pt_ : pt(); return o; }

   // any calculation on its own objects
   Op calc(double verbose = 0.2, double bad = 0.05)
   {
      static const struct { int kind, w; } mix[] = {{K_FULL, 24}, {K_CMP, 8}, {K_HIER, 6}, {K_M41, 3}, {K_M42, 4}, {K_MDRS, 4}, {K_MST, 3}, {K_UNC, 5}, {K_FO, 8},
         {K_FOX, 6}, {K_EFT, 6}, {K_EFTL, 4}, {K_THR, 7}, {K_THRS, 3}, {K_DSZ, 8}, {K_LOOP, 5}, {K_VAL, 3}, {K_PRT, 2}, {K_PHO, 3}, {K_PFO, 3}, {K_PEFT, 3}, {K_HON, 1}, {K_NEWDEL, 3}, {K_SCAN, 5}};
      int tot = 0;
      for (auto& m : mix) tot += m.w;
      int x = r.below(tot), k = 0;
      while (x >= mix[k].w) { x -= mix[k].w; k++; }
      return fill(op(r.chance(bad) ? K_BAD : mix[k].kind), verbose);
   }
   int other() { return r.chance(0.35) ? 1 + r.below(14) : 0; } // 1 + another hierarchy
   Op fill(Op o, double verbose)
   {
      switch (o.kind) {
      case K_FULL: o.a = r.chance(0.3); o.b = r.chance(verbose); break;
      case K_CMP: o.a = r.chance(0.3); o.b = r.below(2); o.c = r.below(4); break;
      case K_HIER: o.a = r.below(2) | r.below(2) << 1 | r.below(4) << 2; o.b = r.chance(0.7) ? 1 << r.below(3) : r.below(8); o.d = other(); break;
      case K_M41: case K_M42: case K_MST: case K_MDRS: o.a = r.below(2) | r.below(2) << 1 | r.below(4) << 2; o.b = r.below(2); o.c = r.below(2); if (o.kind == K_MDRS) o.d = other(); break;
      case K_UNC: o.d = other(); o.a = r.below(2); o.b = r.chance(0.8) ? 1 << r.below(3) : r.below(8); break;
      case K_FO: o.a = r.below(2); o.b = r.below(200); break;
      case K_FOX: o.a = r.below(23); o.b = r.chance(0.15) ? 2 : r.below(2); o.c = r.below(4); o.d = r.below(2); break;
      case K_EFT: o.a = r.below(8); o.b = r.chance(verbose); break;
      case K_EFTL: o.a = r.below(23); o.b = r.chance(0.15) ? 2 : r.below(2); o.c = r.below(2); break;
      case K_THR: o.a = r.below(50); o.b = r.range(1, 30); o.c = r.below(5); o.d = r.below(8); break;
      case K_THRS: o.a = r.below(6); o.b = r.below(2); o.c = r.below(2); o.d = r.below(8); break;
      case K_DSZ: o.a = r.below(2); o.b = r.below(2); o.c = r.chance(0.5) ? 0 : r.below(13); if (r.chance(0.6)) { o.a |= r.below(32) << 1; o.b |= r.below(8) << 1; } break;
      case K_SCAN: o.a = r.below(6); o.b = r.range(1, 63); o.c = r.below(10000); break;
      case K_LOOP: o.a = r.below(12); o.b = r.below(5); o.c = r.range(1, 12); break;
      case K_VAL: case K_RETRYVAL: o.a = r.chance(verbose); break;
      case K_PRT: case K_PFO: case K_PEFT: case K_PHO: o.a = r.below(2); if (r.chance(0.3)) o.d = r.range(1, 2); break;
      case K_GETHO: o.a = r.below(2); break;
      case K_HON: o.a = r.chance(0.9) ? r.below(14) : r.range(-3, 40); o.b = r.below(2); break;
      case K_BAD: o.a = r.below(14); o.b = r.chance(verbose); break;
      case K_NEWDEL: o.a = r.chance(verbose); o.b = r.chance(0.3); break;
      }
      return o;
   }
   int add_obj(int type, int pt_, bool shared)
   {
      Obj o;
      o.type = type; o.pt = pt_; o.shared = shared;
      switch (type) {
      case O_HO: o.a = r.chance(0.3); o.b = r.chance(0.5) ? 1 : (int)(r.below(2) << 1 | r.below(4) << 2); break;
      case O_FO:
         o.a = r.chance(0.3);
         if (r.chance(0.4)) o.b = r.below(32); // settings other than the standard ones
         if (r.chance(0.1)) o.b |= (1 + r.below(23)) << 5;
         break;
      case O_EFT: if (r.chance(0.2)) o.b = (1 + r.below(23)) << 1; break;
      case O_HC: o.b = 0; break;
      case O_THR:
         o.a = r.below(2); o.b = r.below(2);
         if (r.chance(0.2)) o.b |= (1 + r.below(6)) << 1;
         if (r.chance(0.2)) o.b |= (1 + r.below(4)) << 4;
         break;
      default: break;
      }
      p.obj.push_back(o);
      return (int)p.obj.size() - 1;
   }
   int find_obj(int type, int thread_first, int thread_last)
   {
      std::vector<int> c;
      for (int i = thread_first; i < thread_last; i++) if (p.obj[i].type == type) c.push_back(i);
      return c.empty() ? -1 : c[r.below(c.size())];
   }
   // an operation on objects [first, last)
   Op on_obj(int first, int last, bool read_only, double verbose = 0.1)
   {
      for (int tries = 0; tries < 50; tries++) {
         static const int ro[] = {K_HIER, K_HIER, K_M41, K_M42, K_M42, K_MDRS, K_MST, K_FO, K_FO, K_EFT, K_EFT, K_THR, K_THR, K_THR, K_THRS, K_PRT, K_PHO, K_PHO, K_PFO, K_PEFT, K_GETHO, K_GETHO};
         static const int rw[] = {K_FULL, K_FULL, K_FULL, K_CMP, K_CMP, K_UNC, K_UNC, K_BAD, K_SET, K_SET};
         Op o = fill(op(read_only || r.chance(0.45) ? ro[r.below(sizeof ro / sizeof *ro)] : rw[r.below(sizeof rw / sizeof *rw)]), verbose);
         int s = -1, h = -1;
         switch (o.kind) {
         case K_FULL: case K_CMP: s = find_obj(O_HC, first, last); o.b &= o.kind == K_CMP ? 1 : 0; break;
         case K_UNC: case K_HIER: case K_M41: case K_M42: case K_MDRS: case K_MST: s = find_obj(O_HC, first, last); h = find_obj(O_HO, first, last); break;
         case K_BAD: s = find_obj(O_HC, first, last); break;
         case K_SET: {
            s = first + (int)r.below(last - first);
            o.a = r.below(3); o.b = r.below(24); o.c = r.below(2);
            const int ty = p.obj[s].type;
            if (ty == O_HC || ty == O_PAR || p.obj[s].shared) continue;
            if (r.chance(0.06)) o.c = r.range(2, 5);
            if (ty == O_FO && o.a == 1) o.c = r.below(3);
            o.ho = -1;
            break; }
         case K_FO: case K_PFO: s = find_obj(O_FO, first, last); break;
         case K_EFT: case K_PEFT: s = find_obj(O_EFT, first, last); o.b = 0; break;
         case K_THR: case K_THRS: s = find_obj(O_THR, first, last); break;
         case K_PRT: s = find_obj(O_PAR, first, last); break;
         case K_PHO: case K_GETHO: h = find_obj(O_HO, first, last); if (h < 0) continue; break;
         }
         if (s < 0 && h < 0) continue;
         if (s < 0 && o.kind != K_PHO && o.kind != K_GETHO) continue;
         o.slot = s; o.ho = h;
         return o;
      }
      return calc();
   }

   void alloc_fault(int t, int k)
   {
      if (p.th[t][k].kind == K_SET) return;
      const uint32_t c = ref_count(p, p.th[t][k], 0);
      rt::Fault f{rt::F_ALLOC, t, k, 1 + r.below(std::max(c, 1u)), 1, 0};
      const double u = r.uni();
      if (u < 0.15) f.len = r.range(2, 6); else if (u < 0.4) f.len = 0xffffffffu;
      if (r.chance(0.1)) f.n = 1;
      p.faults.push_back(f);
   }
   void sink_fault(int t, int k, bool solo)
   {
      if (p.th[t][k].kind == K_SET) return;
      const uint32_t c = ref_count(p, p.th[t][k], 1);
      const double u = r.uni();
      uint32_t arg = r.below(1000);
      if (solo && r.chance(0.15)) { p.faults.push_back(rt::Fault{rt::F_STATE_BAD, t, k, 1, 1, arg}); return; }
      if (solo && r.chance(0.15)) { p.faults.push_back(rt::Fault{rt::F_NULLBUF, t, k, 1, 1, arg}); return; }
      const int kind = u < 0.3 ? rt::F_SINK_EOF : u < 0.55 ? rt::F_SINK_SHORT : u < 0.85 ? rt::F_SINK_THROW : rt::F_SINK_SYNC;
      rt::Fault f{kind, t, k, 1 + r.below(std::max(c, 1u)), 1, arg};
      const double q = r.uni();
      if (q < 0.2) f.len = r.range(2, 8); else if (q < 0.5) f.len = 0xffffffffu;
      p.faults.push_back(f);
      // not for a caller that prints an object to cerr itself: Eigen's output
      // operator loses the fill character when the caller's stream throws
      const int kd = p.th[t][k].kind;
      const bool prints = p.th[t][k].d && (kd == K_PRT || kd == K_PHO || kd == K_PFO || kd == K_PEFT);
      if (solo && !prints && r.chance(0.3)) p.faults.push_back(rt::Fault{rt::F_EXCEPT, t, k, 1, 1, 0});
   }
   void link_fault(int t, int k)
   {
      const uint32_t c = ref_count(p, p.th[t][k], 2);
      rt::Fault f{rt::F_LINK, t, k, 1 + r.below(std::max(c, 1u)), 1, 0};
      if (r.chance(0.2)) f.n = 1 + r.below(5);
      if (r.chance(0.25)) f.n = c > 30 ? c - r.below(30) : f.n;
      const double q = r.uni();
      if (q < 0.15) f.len = r.range(2, 4); else if (q < 0.25) f.len = 0xffffffffu;
      p.faults.push_back(f);
   }
   void stalls(double prob) { while (r.chance(prob)) { const int t = pick_thread(); stall(t, r.below(p.th[t].size())); } }
   void stall(int t, int k) { p.faults.push_back(rt::Fault{rt::F_STALL, t, k, (uint32_t)std::exp(r.uni(3, 10)), 1, r.chance(0.6) ? 1 + r.below(6) : 0}); }
   void clock(int t, int k) { p.faults.push_back(rt::Fault{rt::F_CLOCK, t, k, r.chance(0.5) ? 0 : 1 + r.below(20), 1 + r.below(2), (uint32_t)(int32_t)(r.chance(0.5) ? -(int)r.below(1000000) : (int)r.below(100000000))}); }
   int pick_thread() { return (int)r.below(p.th.size()); }

   void c01()
   {
      p.scen = "mixed";
      const int n = r.range(2, 5);
      points(r.range(1, 5), FAM_ANY, 0.4);
      const double verbose = r.chance(0.5) ? 0.0 : r.uni(0.1, 0.8);
      const int focus = r.below(9); // some runs consist of one kind of operation only
      static const int kinds[] = {-1, -1, -1, K_FULL, K_DSZ, K_NEWDEL, K_HIER, K_FOX, K_LOOP};
      for (int i = 0; i < n; i++) {
         p.th.emplace_back();
         const int first = (int)p.obj.size();
         if (r.chance(0.4)) { const int q = pt(); add_obj(O_HC, q, false); if (r.chance(0.5)) add_obj(O_HO, good(q) ? q : goodpt(), false); }
         const int last = (int)p.obj.size();
         const int m = r.range(1, 3);
         for (int k = 0; k < m; k++) {
            if (kinds[focus] >= 0) p.th[i].push_back(fill(op(kinds[focus]), verbose));
            else if (last > first && r.chance(0.5)) p.th[i].push_back(on_obj(first, last, false));
            else p.th[i].push_back(calc(verbose));
         }
      }
      if (kinds[focus] >= 0) p.scen = op_name[kinds[focus]];
      stalls(0.3);
   }
   bool good(int q) { Op o; o.kind = K_FULL; o.pt = q; o.a = 0; Op b = o; b.a = 1; return ref_is_ok(p, o) && ref_is_ok(p, b); }
   int goodpt()
   {
      for (int i = 0; i < 30; i++) { const int q = pt(); if (good(q)) return q; }
      for (int i = 0; i < 30; i++) { p.pts.push_back(gen_point(r, FAM_TESTLIKE)); if (good((int)p.pts.size() - 1)) return (int)p.pts.size() - 1; }
      p.pts.push_back(default_point());
      return (int)p.pts.size() - 1;
   }
   void c02()
   {
      p.scen = "shared-readers";
      points(r.range(1, 2), FAM_VALID, 0.3);
      const int types[] = {O_HC, O_HO, O_EFT, O_FO, O_THR, O_PAR, O_HO, O_HC};
      const int k = r.range(1, 6), off = r.below(6);
      for (int i = 0; i < k; i++) add_obj(types[(off + i) % 8], goodpt(), true);
      if (find_obj(O_HC, 0, (int)p.obj.size()) >= 0 && find_obj(O_HO, 0, (int)p.obj.size()) < 0) add_obj(O_HO, goodpt(), true);
      const int n = r.range(2, 5);
      for (int i = 0; i < n; i++) {
         p.th.emplace_back();
         const int m = r.range(1, 6);
         for (int j = 0; j < m; j++) p.th[i].push_back(on_obj(0, (int)p.obj.size(), true));
      }
      // no private work in between: every operation must use a shared object
      stalls(0.3);
   }
   void c03()
   {
      const int n = r.chance(0.25) ? 1 : r.range(2, 5);
      p.scen = n == 1 ? "sequence" : "contention";
      points(r.range(1, 3), FAM_ANY, 0.2);
      if (r.chance(0.3)) points(1, FAM_INVALID, 0);
      const double verbose = r.chance(0.1) ? 0 : r.uni(0.3, 1);
      for (int i = 0; i < n; i++) {
         p.th.emplace_back();
         const int m = n == 1 ? r.range(2, 8) : r.range(1, 3);
         for (int j = 0; j < m; j++) { Op o = fill(op(r.chance(0.85) ? K_NEWDEL : r.chance(0.7) ? K_FULL : K_EFT), verbose); if (o.kind == K_NEWDEL) o.b = r.chance(0.1); p.th[i].push_back(o); }
      }
      if (r.chance(0.15)) { p.scen += "+faults"; const int t = pick_thread(), k = r.below(p.th[t].size()); if (r.chance(0.5)) alloc_fault(t, k); else sink_fault(t, k, false); }
      stalls(0.3);
   }
   void history(int n, double faults)
   {
      for (int i = 0; i < n; i++) {
         p.th.emplace_back();
         const int first = (int)p.obj.size();
         const int no = r.range(1, 4);
         for (int k = 0; k < no; k++) {
            const int ty = k == 0 ? O_HC : (int)r.below(6);
            add_obj(ty, ty == O_HO ? goodpt() : pt(), false);
         }
         if (find_obj(O_HO, first, (int)p.obj.size()) < 0 && r.chance(0.6)) add_obj(O_HO, goodpt(), false);
         const int last = (int)p.obj.size();
         const int m = r.range(3, n > 1 ? 6 : 12);
         for (int k = 0; k < m; k++) p.th[i].push_back(r.chance(0.75) ? on_obj(first, last, false) : calc(0.1));
         if (r.chance(0.6)) { // ask, change a setting, ask the same again
            static const int ty[] = {O_EFT, O_EFT, O_FO, O_FO, O_THR, O_HO};
            const int want = ty[r.below(6)];
            int s = find_obj(want, first, last);
            if (s < 0) s = add_obj(want, want == O_HO ? goodpt() : pt(), false);
            const int rounds = r.range(1, 3);
            std::vector<Op> ask;
            for (int k = r.range(1, 2); k > 0; k--) { const Op o = on_obj(s, s + 1, true); if (o.slot == s || o.ho == s) ask.push_back(o); }
            for (int k = 0; k < rounds; k++) {
               Op e = fill(op(K_SET), 0);
               e.slot = s; e.ho = -1; e.a = r.below(3); e.b = r.below(23); e.c = r.chance(0.7) ? 0 : 1;
               if (want == O_FO && r.chance(0.5)) e.a = 0;
               for (auto& o : ask) p.th[i].push_back(o);
               p.th[i].push_back(e);
            }
            for (auto& o : ask) p.th[i].push_back(o);
         }
         if (m > 4 && r.chance(0.4)) { // the same call again at the end
            Op o = p.th[i][r.below(m)];
            p.th[i].push_back(o);
         }
      }
      if (r.chance(faults)) {
         p.scen += "+faults";
         const int nf = r.range(1, 3);
         for (int k = 0; k < nf; k++) { const int t = pick_thread(), j = r.below(p.th[t].size()); if (r.chance(0.7)) alloc_fault(t, j); else sink_fault(t, j, n == 1); }
      }
   }
   void c04()
   {
      p.scen = "history";
      points(r.range(2, 5), r.chance(0.7) ? FAM_ANY : FAM_VALID, 0.5);
      if (tier && r.chance(0.3)) points(6, FAM_ANY, 0.3);
      history(r.chance(0.85) ? 1 : 2, 0.4);
      if (r.chance(0.2)) for (int k = r.range(1, 2); k > 0; k--) p.th[0].push_back(fill(op(K_SCAN), 0));
   }
   void c05()
   {
      p.scen = "alloc";
      points(r.range(1, 2), FAM_ANY, 0.4);
      p.th.emplace_back();
      const bool slots = r.chance(0.5);
      if (slots) { add_obj(O_HC, pt(), false); if (r.chance(0.5)) add_obj(O_HO, goodpt(), false); const int ty = r.below(6); add_obj(ty, ty == O_HO ? goodpt() : pt(), false); }
      const double verbose = r.chance(0.5) ? 0.6 : 0.1;
      const int m = r.range(1, 3), last = (int)p.obj.size();
      for (int k = 0; k < m; k++) {
         Op o = slots && r.chance(0.6) ? on_obj(0, last, false) : r.chance(0.12) ? fill(op(K_RETRYVAL), verbose) : calc(verbose);
         if (o.kind == K_RETRYVAL) o.slot = add_obj(O_PAR, o.pt, false);
         p.th[0].push_back(o);
         alloc_fault(0, (int)p.th[0].size() - 1);
         p.th[0].push_back(o); // retried with memory available
      }
      if (r.chance(0.3)) { p.repeat = 3; p.scen = "alloc+leak"; if (r.chance(0.5)) { p.samethread = 1; p.repeat = 4; } }
   }
   void c06()
   {
      p.scen = "sink";
      points(r.range(1, 3), r.chance(0.5) ? FAM_NOISY : FAM_ANY, 0.3);
      p.th.emplace_back();
      static const int noisy[] = {K_FULL, K_FULL, K_NEWDEL, K_EFT, K_VAL, K_FOX, K_FO, K_CMP, K_BAD};
      const int m = r.range(1, 4);
      for (int k = 0; k < m; k++) {
         Op o = r.chance(0.7) ? fill(op(noisy[r.below(9)]), 0.85) : calc(0.7, 0.1);
         if (o.kind == K_NEWDEL) o.b = r.chance(0.5);
         p.th[0].push_back(o);
         if (r.chance(0.8)) sink_fault(0, (int)p.th[0].size() - 1, true);
         if (r.chance(0.5)) p.th[0].push_back(o);
      }
      if (r.chance(0.3)) p.streamfmt = r.below(4);
      if (r.chance(0.4)) p.sinkpos = r.below(45);
   }
   void c07()
   {
      p.scen = "environment";
      const int n = r.chance(0.75) ? 1 : r.range(2, 3);
      static const int prt[] = {K_PRT, K_PHO, K_PFO, K_PEFT};
      points(r.range(1, 3), FAM_ANY, 0.3);
      if (r.chance(0.3)) points(1, FAM_VALID, 0.3, 1.0);
      for (int i = 0; i < n; i++) {
         p.th.emplace_back();
         const int m = r.range(1, 3);
         for (int k = 0; k < m; k++) p.th[i].push_back(n == 1 && r.chance(0.1) ? request(0.3, 0.5, 20) : n == 1 && r.chance(0.15) ? fill(op(prt[r.below(4)]), 0) : calc(0.4, 0.15));
      }
      if (r.chance(0.4)) p.fround = r.range(1, 3);
      if (r.chance(0.6)) p.streamfmt = r.below(64) & ~8;
      if (r.chance(0.5)) p.streamfmt |= 256;
      if (r.chance(0.3)) p.fpflags = r.below(64);
      if (r.chance(0.5)) {
         p.scen += "+faults";
         const int nf = r.range(1, 2);
         for (int k = 0; k < nf; k++) { const int t = pick_thread(), j = r.below(p.th[t].size()); if (r.chance(0.6)) alloc_fault(t, j); else if (p.th[t][j].kind == K_LL) link_fault(t, j); else sink_fault(t, j, n == 1); }
      } else if (r.chance(0.3)) p.streamfmt |= 64;
   }
   void c08()
   {
      p.scen = "two-environments";
      points(r.range(1, 3), FAM_ANY, 0.3);
      if (r.chance(0.15)) points(1, FAM_VALID, 0, 1.0);
      p.th.emplace_back();
      const int m = r.range(1, 4);
      for (int k = 0; k < m; k++) p.th[0].push_back(calc(0.3, 0.08));
      static const uint64_t pat[] = {0xA5A5A5A5A5A5A5A5ull, 0, ~0ull, 0x7ff8000000000000ull, 0x3ff0000000000000ull};
      p.poison = pat[r.below(5)];
      p.stack_poison = r.chance(0.7) ? pat[2 + r.below(3)] : 0;
      if (r.chance(0.6)) p.stack_poison_bytes = 4096 << r.below(3); // frames of that size
      p.env_seed = r.next() >> 8;
      p.env_perturb = r.below(2);
      p.alt = 1 + r.below(1000000);
      if (r.chance(0.2)) p.streamfmt = r.below(4);
      if (r.chance(0.2)) p.fround = r.range(1, 3);
      for (int k = 0; k < m; k++) if (r.chance(0.3)) clock(0, k);
   }
   Op request(double bad, double verbose, int chatter)
   {
      Op o = op(K_LL);
      o.a = r.chance(0.3); o.b = r.chance(0.75) ? r.range(3, 4) : r.below(3); o.c = r.chance(verbose);
      const int kind = r.chance(bad) ? 1 + (int)r.below(13) : r.chance(0.15) ? (int)LBI : 0;
      const int var = (int)r.below(2) | (r.below(100) < (uint32_t)chatter) << 1 | r.chance(0.2) << 2;
      o.d = kind | (int)r.below(4000) << 8 | var << 20;
      return o;
   }
   enum { LBI = 9 };
   void c09()
   {
      p.scen = "requests";
      points(r.range(1, 3), FAM_ANY, 0.2);
      if (r.chance(0.25)) points(1, FAM_VALID, 0, 1.0);
      p.th.emplace_back();
      const int m = r.range(1, 3);
      for (int k = 0; k < m; k++) {
         p.th[0].push_back(request(0.35, 0.5, 20));
         const double u = r.uni();
         if (u < 0.4) alloc_fault(0, k); else if (u < 0.7) link_fault(0, k);
      }
   }
   void c10()
   {
      p.scen = "diagnostics";
      points(r.range(1, 3), r.chance(0.6) ? FAM_NOISY : FAM_ANY, 0.2);
      p.th.emplace_back();
      const int m = r.range(1, 4);
      for (int k = 0; k < m; k++) {
         p.th[0].push_back(request(0.2, 0.8, 50));
         const double u = r.uni();
         if (u < 0.12) alloc_fault(0, k); else if (u < 0.2) link_fault(0, k);
      }
      if (r.chance(0.2)) p.streamfmt = r.below(4) | (r.chance(0.3) ? 8 : 0);
      if (r.chance(0.25)) p.streamfmt |= 128;
   }
   void c11()
   {
      p.scen = "recovery";
      points(r.range(1, 3), FAM_ANY, 0.5);
      if (r.chance(0.5)) { Point q = corrupt_point(r, p.pts[pt()]); p.pts.push_back(q); } // damaged copy of a good point
      p.th.emplace_back();
      const int m = r.range(1, 4);
      for (int k = 0; k < m; k++) {
         p.th[0].push_back(request(0.6, 0.4, 20));
         const double u = r.uni();
         if (u < 0.25) alloc_fault(0, k); else if (u < 0.5) link_fault(0, k);
      }
      p.th[0].push_back(request(0, 0.4, 10));
      if (r.chance(0.6)) p.th[0].back().pt = 0;
      if (r.chance(0.3)) p.th[0].push_back(request(0, 0.4, 0));
   }
   void c12()
   {
      const int n = r.chance(0.7) ? 1 : r.range(2, 3);
      p.scen = n == 1 ? "corrupt" : "corrupt+threads";
      points(1, FAM_VALID, 0);
      points(r.range(2, 4), FAM_ANY, 0.3, 1.0);
      for (int i = 0; i < n; i++) {
         p.th.emplace_back();
         const int first = (int)p.obj.size();
         if (r.chance(0.3)) { add_obj(O_HC, pt(), false); add_obj(O_HC, 0, false); }
         const int last = (int)p.obj.size();
         const int m = r.range(1, 3);
         for (int k = 0; k < m; k++) {
            Op o = last > first && r.chance(0.3) ? on_obj(first, last, false) : calc(0.15, 0.05);
            if (o.kind == K_BAD || r.chance(0.3)) o = fill(op(r.chance(0.5) ? K_FULL : K_FOX), 0.1);
            p.th[i].push_back(o);
         }
         Op h = calc(0.0, 0.0); h.pt = 0; // healthy parameters
         p.th[i].push_back(h);
         if (last > first && r.chance(0.5)) { Op h2 = fill(op(K_FULL, 0), 0); h2.slot = last - 1; p.th[i].push_back(h2); }
      }
   }
   void c13()
   {
      const int n = r.chance(0.8) ? 1 : 2;
      p.scen = "values";
      points(r.range(2, 4), r.chance(0.7) ? FAM_VALID : FAM_ANY, 0.4);
      for (int i = 0; i < n; i++) {
         p.th.emplace_back();
         const int m = r.range(6, tier ? 60 : 28);
         static const int act[] = {0, 0, 1, 1, 2, 2, 2, 2, 19, 19, 20, 3, 4, 4, 5, 5, 6, 7, 7, 7, 8, 8, 8, 9, 9, 10, 11, 12, 12, 13, 13, 13, 14, 15, 15, 16, 16, 17, 18};
         // which pool entries are in use (results only if the calculation succeeds)
         unsigned lp = 0, lc = 0, lh = 0, le = 0;
         auto live = [&](unsigned m) { int c[4], n = 0; for (int x = 0; x < 4; x++) if (m >> x & 1) c[n++] = x; return n && !r.chance(0.05) ? c[r.below(n)] : (int)r.below(4); };
         for (int k = 0; k < m; k++) {
            Op o = op(K_VALUE);
            o.a = k < 2 ? 0 : k == 2 ? 4 : k == 3 ? 7 : act[r.below(sizeof act / sizeof *act)];
            o.b = r.below(4); o.c = r.below(4);
            o.d = o.a == 8 ? r.below(4) : o.a == 9 ? r.below(80) : o.a == 16 ? r.below(138) : o.a == 2 ? r.below(200) : o.a == 1 ? r.below(4) : r.chance(0.25);
            switch (o.a) {
            case 0: lp |= 1 << o.b; break;
            case 1: o.c = live(lp); lp |= 1 << o.b; break;
            case 2: o.b = live(lp); break;
            case 3: if (r.chance(0.8)) o.b = live(lp); lp &= ~(1u << o.b); break;
            case 4: o.c = live(lp); lc |= 1 << o.b; break;
            case 5: o.c = live(lc); lc |= 1 << o.b; break;
            case 6: lc &= ~(1u << o.b); break;
            case 7: o.c = live(lc); lh |= 1 << o.b; break;
            case 8: o.c = live(lh); lh |= 1 << o.b; break;
            case 9: o.b = live(lh); break;
            case 10: lh &= ~(1u << o.b); break;
            case 11: o.c = live(lc); o.b = live(lh); break;
            case 12: o.c = live(lp); le |= 1 << o.b; break;
            case 13: o.c = live(le); break;
            case 14: case 19: o.c = live(lp); break;
            case 20: o.b = live(lp); break;
            case 15: o.c = live(le); le |= 1 << o.b; break;
            case 16: o.b = live(le); break;
            case 17: le &= ~(1u << o.b); break;
            case 18: o.c = live(lh); break;
            }
            p.th[i].push_back(o);
         }
      }
      if (r.chance(0.25)) { p.scen += "+faults"; const int t = pick_thread(); for (int k = r.range(1, 3); k > 0; k--) { const int j = r.below(p.th[t].size()); p.faults.push_back(rt::Fault{rt::F_ALLOC, t, j, 1 + r.below(4), r.chance(0.5) ? 1u : 0xffffffffu, 0}); } }
   }
   void c14()
   {
      p.scen = "progress";
      const int n = r.range(2, 5);
      points(r.range(1, 3), FAM_ANY, 0.3);
      if (r.chance(0.3)) points(1, FAM_INVALID, 0);
      if (r.chance(0.3)) points(1, FAM_VALID, 0, 1.0);
      static const int lk[] = {K_DSZ, K_DSZ, K_FO, K_FOX, K_FULL, K_CMP, K_NEWDEL, K_HON, K_PHO};
      for (int i = 0; i < n; i++) {
         p.th.emplace_back();
         const int m = r.range(1, 3);
         for (int k = 0; k < m; k++) p.th[i].push_back(r.chance(0.7) ? fill(op(lk[r.below(9)]), 0.5) : calc(0.4, 0.1));
      }
      const int nf = r.range(0, 4);
      for (int k = 0; k < nf; k++) {
         const int t = pick_thread(), j = r.below(p.th[t].size());
         const double u = r.uni();
         if (u < 0.45) alloc_fault(t, j); else if (u < 0.6) sink_fault(t, j, false); else if (u < 0.85) stall(t, j); else clock(t, j);
      }
   }
   void c15()
   {
      const int n = r.chance(0.75) ? 1 : r.range(2, 4);
      p.scen = "conservation";
      points(r.range(1, 3), r.chance(0.25) ? FAM_NOISY : FAM_ANY, 0.3);
      if (r.chance(0.15)) points(1, FAM_VALID, 0, 1.0);
      p.repeat = 3;
      if (n == 1 && r.chance(0.5)) { p.samethread = 1; p.repeat = 6; p.scen += "-one-thread"; }
      const double verbose = r.chance(0.5) ? 0.1 : 0.6;
      const bool values = r.chance(0.15), link = !values && n == 1 && r.chance(0.15);
      for (int i = 0; i < n; i++) {
         p.th.emplace_back();
         const int first = (int)p.obj.size();
         if (!values && !link && r.chance(0.4)) { add_obj(O_HC, pt(), false); add_obj(r.below(6) == 1 ? O_FO : O_EFT, pt(), false); if (r.chance(0.4)) add_obj(O_HO, goodpt(), false); }
         const int last = (int)p.obj.size();
         const int m = values ? r.range(5, 12) : r.range(1, 4);
         for (int k = 0; k < m; k++) {
            if (values) { Op o = op(K_VALUE); static const int act[] = {0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 7, 8, 9, 10, 12, 13, 15, 16, 18}; o.a = act[r.below(19)]; o.b = r.below(4); o.c = r.below(4); o.d = r.below(4); p.th[i].push_back(o); }
            else if (link) p.th[i].push_back(request(0.3, 0.5, 10));
            else p.th[i].push_back(last > first && r.chance(0.5) ? on_obj(first, last, false) : calc(verbose, 0.1));
         }
      }
      if (values) p.scen += "+values";
      if (link) p.scen += "+link";
      if (r.chance(0.6)) {
         p.scen += "+faults";
         const int nf = r.range(1, 2);
         for (int k = 0; k < nf; k++) {
            const int t = pick_thread(), j = r.below(p.th[t].size());
            if (values) p.faults.push_back(rt::Fault{rt::F_ALLOC, t, j, 1 + r.below(60), 1, 0});
            else if (link && r.chance(0.4)) link_fault(t, j);
            else if (r.chance(0.8)) alloc_fault(t, j); else sink_fault(t, j, n == 1 && !link);
         }
      }
   }
   // one thread before the others (alone, with failures), one after them
   void before_and_after(double before, double after)
   {
      if (p.repeat || p.alt || p.th.empty()) return;
      for (auto& t : p.th) for (auto& o : t) if (o.kind == K_LL || o.kind == K_VALUE) return;
      int ns = 0;
      while (ns < (int)p.obj.size() && p.obj[ns].shared) ns++;
      auto some = [&] {
         static const int noisy[] = {K_NEWDEL, K_NEWDEL, K_NEWDEL, K_FULL, K_FULL, K_EFT, K_DSZ, K_FO, K_CMP, K_PHO, K_HON};
         if (ns) return on_obj(0, ns, true);
         if (r.chance(0.6)) { Op o = fill(op(noisy[r.below(11)]), 0.7); if (o.kind == K_NEWDEL) o.b = r.chance(0.1); return o; }
         return calc(0.4, 0.1);
      };
      if (r.chance(before)) {
         const size_t n = p.th.size();
         p.scen += "+before";
         p.th.insert(p.th.begin(), std::vector<Op>());
         for (auto& x : p.faults) x.thread++;
         p.stage.assign(n + 1, 1);
         p.stage[0] = 0;
         for (int k = r.range(1, 3); k > 0; k--) {
            p.th[0].push_back(some());
            const int j = (int)p.th[0].size() - 1;
            const double u = r.uni();
            if (u < 0.4) alloc_fault(0, j);
            if (u > 0.3 && u < 0.85) sink_fault(0, j, true);
         }
      }
      if (r.chance(after)) {
         const size_t n = p.th.size();
         p.scen += "+after";
         if (p.stage.empty()) p.stage.assign(n, 0);
         p.stage.push_back(p.stage.back() + 1);
         p.th.emplace_back();
         for (int k = r.range(1, 3); k > 0; k--) {
            const auto& t = p.th[r.below(n)];
            Op o = t[r.below(t.size())];
            if ((o.slot >= ns && o.slot >= 0) || (o.ho >= ns && o.ho >= 0)) o = some();
            p.th[n].push_back(o);
         }
      }
   }
   // threads at the same time after the single thread of the plan
   void crowd(double chance)
   {
      if (p.repeat || p.alt || p.th.size() != 1 || !r.chance(chance)) return;
      for (auto& o : p.th[0]) if (o.kind == K_LL || o.kind == K_VALUE) return;
      p.scen += "+crowd";
      p.stage.assign(1, 0);
      const int n = r.range(2, 3);
      for (int i = 1; i <= n; i++) {
         p.th.emplace_back();
         p.stage.push_back(1);
         for (int k = r.range(1, 2); k > 0; k--) {
            Op o = p.th[0][r.below(p.th[0].size())];
            if (o.slot >= 0 || o.ho >= 0 || o.kind == K_RETRYVAL || r.chance(0.2)) o = calc(0.5, 0.1);
            p.th[i].push_back(o);
         }
      }
   }
};
} // namespace

Plan gen_plan(const std::string& prop, uint64_t seed, int tier)
{
   uint64_t h = 0xcbf29ce484222325ull;
   for (unsigned char c : prop) h = (h ^ c) * 0x100000001b3ull;
   G g(h ^ seed * 0x9e3779b97f4a7c15ull);
   g.r.next();
   g.tier = tier;
   g.p.prop = prop; g.p.seed = seed;
   g.p.poison = g.r.chance(0.5) ? 0xA5A5A5A5A5A5A5A5ull : g.r.next();
   const int n = (int)strtol(prop.c_str() + 1, nullptr, 10);
   switch (n) {
   case 1: g.c01(); break; case 2: g.c02(); break; case 3: g.c03(); break; case 4: g.c04(); break; case 5: g.c05(); break;
   case 6: g.c06(); break; case 7: g.c07(); break; case 8: g.c08(); break; case 9: g.c09(); break; case 10: g.c10(); break;
   case 11: g.c11(); break; case 12: g.c12(); break; case 13: g.c13(); break; case 14: g.c14(); break; case 15: g.c15(); break;
   default: g.c01();
   }
   switch (n) {
   case 1: g.before_and_after(0.2, 0.15); break;
   case 2: g.before_and_after(0.2, 0.2); break;
   case 3: g.before_and_after(0.2, 0.1); break;
   case 4: g.crowd(0.1); break;
   case 5: g.crowd(0.2); break;
   case 6: g.crowd(0.15); break;
   case 7: g.crowd(0.15); break;
   case 12: g.crowd(0.1); break;
   case 14: g.before_and_after(0.4, 0.1); break;
   }
   if (g.r.chance(0.35)) g.p.heap |= 1;
   if (g.r.chance(0.3)) g.p.heap |= 2;
   if (!g.p.env_seed && g.r.chance(0.3)) { g.p.env_seed = g.r.next() >> 8; g.p.env_perturb = g.r.below(2); }
   g.schedule();
   return g.p;
}
