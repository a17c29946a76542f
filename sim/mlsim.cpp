// The simulated link.  Errors are sticky, as documented for the protocol:
// once an operation has failed every further operation fails until
// MLClearError.  A dead link stays dead.
#include "mlsim.h"
#include "rt.h"
#include <cstdio>
#include <cstring>
#include <deque>
#include <iostream>

struct MLSimLink {
   std::deque<MLTok> in;
   std::vector<MLTok> out;
   std::vector<int> need;     // open functions of the outgoing expression
   int nexpr = 0, err = 0, strict = 0, chatter = 0, dead_on_fault = 0, nget = 0, ops = 0;
   bool dead = false, badend = false;
   std::string talk;
};
static MLSimLink* L;
MLSimLink* ml_link() { if (!L) L = new MLSimLink; return L; }
void ml_reset() { delete L; L = nullptr; ml_link(); }
void ml_set_variant(int s, int c, int d) { L->strict = s; L->chatter = c; L->dead_on_fault = d; }
int ml_ops() { return L->ops; }
std::string ml_chatter() { return L->talk; }

std::string ml_canon_real(double d)
{
   char b[40];
   uint64_t u;
   memcpy(&u, &d, 8);
   if (d != d) u = 0x7ff8000000000000ull;
   if (d == 0) u = 0; // an integer has no negative zero
   snprintf(b, sizeof b, "r%016llx", (unsigned long long)u);
   return b;
}

static void tok(char t, const char* s, double d = 0, int n = 0) { L->in.push_back(MLTok{t, s, d, n}); }

void ml_request(const double* v, int n, int kind, int pos)
{
   while (!L->in.empty() && L->in.front().t == 'E') L->in.pop_front();
   L->out.clear(); L->need.clear(); L->nexpr = 0; L->badend = false; L->nget = 0; L->talk.clear();
   if (kind == LB_OUTER_ATOM) { tok('I', "", 0, 7); tok('E', ""); return; }
   tok('F', kind == LB_OUTER_HEAD ? "Association" : "List", 0, kind == LB_OUTER_COUNT ? 2 : 1);
   if (kind == LB_INNER_ATOM) tok('Y', "Null");
   else {
      const int N = kind == LB_SHORT ? n - 1 - pos % 20 : kind == LB_LONG ? n + 1 + pos % 5 : kind == LB_EMPTY ? 0 : n;
      tok('F', kind == LB_INNER_HEAD ? "Sequence" : "List", 0, N);
      const int M = kind == LB_TRUNC ? pos % n : N;
      for (int i = 0; i < M; i++) {
         const double x = i < n ? v[i] : 1.0;
         if (i == pos % n && kind == LB_SYMBOL) tok('Y', "Indeterminate");
         else if (i == pos % n && kind == LB_STRING) tok('S', "1.5");
         else if (i == pos % n && kind == LB_FUNCTION) { tok('F', "Rational", 0, 2); tok('I', "", 0, 1); tok('I', "", 0, 3); }
         else if (kind == LB_INTEGERS && x == (int)x) tok('I', "", 0, (int)x);
         else tok('R', "", x);
      }
   }
   if (kind == LB_OUTER_COUNT) tok('R', "", 1);
   tok('E', "");
}

// counts one operation; true: proceed
static bool go(MLINK l, bool reading)
{
   rt::NoLib n;
   L->ops++;
   if (rt::link_fault()) {
      if (!l->err) l->err = MLEUSER;
      if (l->dead_on_fault || !reading) { l->dead = true; l->err = MLEDEAD; } // a failed write means that the peer is gone
      return false;
   }
   if (l->dead) { l->err = MLEDEAD; return false; }
   if (l->err) return false;
   if (reading) {
      l->nget++;
      if (l->chatter && l->nget % 40 == l->chatter) {
         // the front end itself prints while it serves the link
         char b[64];
         const int form = (l->nget / 40 * 3 + l->chatter) % 7;
         snprintf(b, sizeof b, "front end serves item %d", l->nget);
         std::string t = b;
         if (form == 3 || form == 4) { while (t.size() < (form == 3 ? 250u : 3000u)) { t += ' '; t += b; } } // a long line
         if (form == 5) t = "\n\n\t" + t + " \xe2\x9c\x93\r";                                      // empty lines, other characters
         if (form != 6) t += '\n';                                                                      // else: joined with what follows
         l->talk += t;
         ((l->nget / 40) & 1 ? std::cout : std::cerr) << t << std::flush;
      }
   }
   return true;
}
static int fail(MLINK l, int e) { rt::NoLib n; if (!l->err) l->err = e; return 0; }

// ------------------------------------------------------------------ writing
static void complete(MLINK l)
{
   while (!l->need.empty() && l->need.back() == 0) {
      l->need.pop_back();
      if (!l->need.empty()) l->need.back()--; else l->nexpr++;
   }
}
static void put(MLINK l, MLTok t)
{
   rt::NoLib n;
   const int args = t.t == 'F' ? t.n : -1;
   l->out.push_back(std::move(t));
   if (args >= 0) { l->need.push_back(args); complete(l); }
   else if (!l->need.empty()) { l->need.back()--; complete(l); }
   else l->nexpr++;
}
static MLTok mk(char t, std::string s, double d = 0, int n = 0) { return MLTok{t, std::move(s), d, n}; }
#define PUT(...) do { if (!go(l, false)) return 0; rt::NoLib nl_; put(l, __VA_ARGS__); return 1; } while (0)

extern "C" {
int MLPutSymbol(MLINK l, const char* s) { PUT(mk('Y', s)); }
int MLPutUTF8Symbol(MLINK l, const unsigned char* s, int n) { PUT(mk('Y', std::string((const char*)s, n))); }
int MLPutByteSymbol(MLINK l, const unsigned char* s, int n) { return MLPutUTF8Symbol(l, s, n); }
int MLPutString(MLINK l, const char* s) { PUT(mk('S', s)); }
int MLPutUTF8String(MLINK l, const unsigned char* s, int n) { PUT(mk('S', std::string((const char*)s, n))); }
int MLPutByteString(MLINK l, const unsigned char* s, int n) { return MLPutUTF8String(l, s, n); }
int MLPutInteger(MLINK l, int i) { PUT(mk('I', "", 0, i)); }
int MLPutInteger32(MLINK l, int i) { return MLPutInteger(l, i); }
int MLPutInteger64(MLINK l, int64_t i) { return MLPutInteger(l, (int)i); }
int MLPutLongInteger(MLINK l, long i) { return MLPutInteger(l, (int)i); }
int MLPutReal(MLINK l, double d) { PUT(mk('R', "", d)); }
int MLPutReal64(MLINK l, double d) { return MLPutReal(l, d); }
int MLPutDouble(MLINK l, double d) { return MLPutReal(l, d); }
int MLPutFunction(MLINK l, const char* s, int n) { PUT(mk('F', s, 0, n)); }
int MLPutUTF8Function(MLINK l, const unsigned char* s, int k, int n) { PUT(mk('F', std::string((const char*)s, k), 0, n)); }
int MLPutNext(MLINK, int) { return 1; }
int MLPutType(MLINK, int) { return 1; }
int MLPutArgCount(MLINK, int) { return 1; }
int MLPutRealList(MLINK l, const double* d, int n)
{
   if (!go(l, false)) return 0;
   rt::NoLib nl;
   put(l, mk('F', "List", 0, n));
   for (int i = 0; i < n; i++) put(l, mk('R', "", d[i]));
   return 1;
}
int MLPutReal64List(MLINK l, const double* d, int n) { return MLPutRealList(l, d, n); }
int MLPutIntegerList(MLINK l, const int* d, int n)
{
   if (!go(l, false)) return 0;
   rt::NoLib nl;
   put(l, mk('F', "List", 0, n));
   for (int i = 0; i < n; i++) put(l, mk('I', "", 0, d[i]));
   return 1;
}
int MLPutInteger32List(MLINK l, const int* d, int n) { return MLPutIntegerList(l, d, n); }
static void put_array(MLINK l, const double*& d, const long* dims, const char** heads, long depth)
{
   put(l, mk('F', heads && heads[0] ? heads[0] : "List", 0, (int)dims[0]));
   for (long i = 0; i < dims[0]; i++) {
      if (depth == 1) put(l, mk('R', "", *d++));
      else put_array(l, d, dims + 1, heads ? heads + 1 : nullptr, depth - 1);
   }
}
int MLPutDoubleArray(MLINK l, const double* d, const long* dims, const char** heads, long depth)
{
   if (!go(l, false)) return 0;
   rt::NoLib nl;
   put_array(l, d, dims, heads, depth);
   return 1;
}
int MLPutRealArray(MLINK l, const double* d, const long* dims, const char** h, long n) { return MLPutDoubleArray(l, d, dims, h, n); }
int MLPutReal64Array(MLINK l, const double* d, const int* dims, const char** h, int n)
{
   long x[16];
   for (int i = 0; i < n && i < 16; i++) x[i] = dims[i];
   return MLPutDoubleArray(l, d, x, h, n);
}
int MLEndPacket(MLINK l)
{
   if (!go(l, false)) return 0;
   if (!l->need.empty()) return fail(l, MLEPSEQ);
   return 1;
}
int MLFlush(MLINK l) { return go(l, false); }

// ------------------------------------------------------------------ reading
static bool at_end(MLINK l) { return l->in.empty() || l->in.front().t == 'E'; }
int MLGetReal64(MLINK l, double* d)
{
   if (!go(l, true)) return 0;
   rt::NoLib nl;
   if (at_end(l)) return fail(l, MLEGSEQ);
   const MLTok& t = l->in.front();
   if (t.t == 'R') *d = t.d;
   else if (t.t == 'I') *d = t.n;
   else return fail(l, MLEGSEQ);
   l->in.pop_front();
   return 1;
}
int MLGetReal(MLINK l, double* d) { return MLGetReal64(l, d); }
int MLGetDouble(MLINK l, double* d) { return MLGetReal64(l, d); }
int MLGetInteger(MLINK l, int* d)
{
   if (!go(l, true)) return 0;
   rt::NoLib nl;
   if (at_end(l) || l->in.front().t != 'I') return fail(l, MLEGSEQ);
   *d = l->in.front().n;
   l->in.pop_front();
   return 1;
}
int MLGetInteger32(MLINK l, int* d) { return MLGetInteger(l, d); }
int MLGetInteger64(MLINK l, int64_t* d) { int i; if (!MLGetInteger(l, &i)) return 0; *d = i; return 1; }
static int get_type(const MLTok& t) { return t.t == 'R' ? MLTKREAL : t.t == 'I' ? MLTKINT : t.t == 'S' ? MLTKSTR : t.t == 'Y' ? MLTKSYM : MLTKFUNC; }
int MLGetType(MLINK l) { if (!go(l, true) || at_end(l)) return MLTKERR; return get_type(l->in.front()); }
int MLGetNext(MLINK l) { return MLGetType(l); }
int MLGetArgCount(MLINK l, int* n)
{
   if (!go(l, true)) return 0;
   if (at_end(l) || l->in.front().t != 'F') return fail(l, MLEGSEQ);
   *n = l->in.front().n;
   return 1;
}
int MLGetFunction(MLINK l, const char** s, int* n)
{
   if (!go(l, true)) return 0;
   rt::NoLib nl;
   if (at_end(l) || l->in.front().t != 'F') return fail(l, MLEGSEQ);
   *s = strdup(l->in.front().s.c_str()); *n = l->in.front().n;
   l->in.pop_front();
   return 1;
}
int MLGetSymbol(MLINK l, const char** s)
{
   if (!go(l, true)) return 0;
   rt::NoLib nl;
   if (at_end(l) || l->in.front().t != 'Y') return fail(l, MLEGSEQ);
   *s = strdup(l->in.front().s.c_str());
   l->in.pop_front();
   return 1;
}
int MLGetString(MLINK l, const char** s)
{
   if (!go(l, true)) return 0;
   rt::NoLib nl;
   if (at_end(l) || l->in.front().t != 'S') return fail(l, MLEGSEQ);
   *s = strdup(l->in.front().s.c_str());
   l->in.pop_front();
   return 1;
}
void MLReleaseSymbol(MLINK, const char* s) { rt::NoLib nl; free((void*)s); }
void MLReleaseString(MLINK, const char* s) { rt::NoLib nl; free((void*)s); }
void MLDisownSymbol(MLINK, const char* s) { rt::NoLib nl; free((void*)s); }
void MLDisownString(MLINK, const char* s) { rt::NoLib nl; free((void*)s); }
int MLGetReal64List(MLINK l, double** d, int* n)
{
   if (!go(l, true)) return 0;
   rt::NoLib nl;
   if (at_end(l) || l->in.front().t != 'F' || l->in.front().s != "List") return fail(l, MLEGSEQ);
   const int k = l->in.front().n;
   for (int i = 0; i < k; i++) {
      if ((int)l->in.size() <= i + 1) return fail(l, MLEGSEQ);
      const char t = l->in[i + 1].t;
      if (t != 'R' && t != 'I') return fail(l, MLEGSEQ);
   }
   *d = (double*)malloc(sizeof(double) * (k + 1)); *n = k;
   for (int i = 0; i < k; i++) (*d)[i] = l->in[i + 1].t == 'R' ? l->in[i + 1].d : l->in[i + 1].n;
   l->in.erase(l->in.begin(), l->in.begin() + k + 1);
   return 1;
}
int MLGetRealList(MLINK l, double** d, long* n) { int k = 0; const int r = MLGetReal64List(l, d, &k); *n = k; return r; }
void MLReleaseReal64List(MLINK, double* d, int) { rt::NoLib nl; free(d); }
void MLDisownRealList(MLINK, double* d, long) { rt::NoLib nl; free(d); }
int MLTestHead(MLINK l, const char* h, int* n)
{
   if (!go(l, true)) return 0;
   rt::NoLib nl;
   if (at_end(l) || l->in.front().t != 'F' || l->in.front().s != h) return l->strict ? fail(l, MLEGSEQ) : 0;
   *n = l->in.front().n;
   l->in.pop_front();
   return 1;
}
int MLTestHeadWithArgCount(MLINK l, const char* h, int* n)
{
   if (!go(l, true)) return 0;
   rt::NoLib nl;
   if (at_end(l) || l->in.front().t != 'F' || l->in.front().s != h || l->in.front().n != *n) return l->strict ? fail(l, MLEGSEQ) : 0;
   l->in.pop_front();
   return 1;
}
int MLCheckFunction(MLINK l, const char* h, long* n)
{
   if (!go(l, true)) return 0;
   rt::NoLib nl;
   if (at_end(l) || l->in.front().t != 'F' || l->in.front().s != h) return fail(l, MLEGSEQ);
   *n = l->in.front().n;
   l->in.pop_front();
   return 1;
}
int MLCheckFunctionWithArgCount(MLINK l, const char* h, long* n)
{
   if (!go(l, true)) return 0;
   rt::NoLib nl;
   if (at_end(l) || l->in.front().t != 'F' || l->in.front().s != h || l->in.front().n != *n) return fail(l, MLEGSEQ);
   l->in.pop_front();
   return 1;
}
int MLNewPacket(MLINK l)
{
   if (!go(l, true)) return 0;
   rt::NoLib nl;
   while (!l->in.empty() && l->in.front().t != 'E') l->in.pop_front();
   if (!l->in.empty()) l->in.pop_front();
   return 1;
}
int MLNextPacket(MLINK l) { return go(l, true) && !at_end(l); }
int MLReady(MLINK l) { return !l->in.empty(); }
int MLError(MLINK l) { return l->dead ? MLEDEAD : l->err; }
int MLClearError(MLINK l) { if (l->dead) return 0; l->err = 0; return 1; }
int MLSetError(MLINK l, int e) { l->err = e; return 1; }
const char* MLErrorMessage(MLINK) { return "link error"; }
void MLReleaseErrorMessage(MLINK, const char*) {}
int MLTransferExpression(MLINK, MLINK) { return 0; }
}

// ------------------------------------------------------------------ the front end reads
static size_t canon(const std::vector<MLTok>& o, size_t i, std::string& s)
{
   if (i >= o.size()) return i;
   const MLTok& t = o[i];
   char b[32];
   switch (t.t) {
   case 'R': s += ml_canon_real(t.d); return i + 1;
   case 'I': snprintf(b, sizeof b, "i%d", t.n); s += b; return i + 1;
   case 'S': s += '"' + t.s + '"'; return i + 1;
   case 'Y': s += t.s; return i + 1;
   default: {
      s += t.s; s += '[';
      size_t k = i + 1;
      for (int j = 0; j < t.n; j++) { if (j) s += ','; k = canon(o, k, s); }
      s += ']';
      return k; }
   }
}

MLReply ml_finish(int rc)
{
   MLReply r;
   r.err = L->err; r.dead = L->dead;
   r.nexpr = L->nexpr; r.incomplete = !L->need.empty();
   for (const MLTok& t : L->in) if (t.t != 'E') r.left++;
   if (L->nexpr >= 1) {
      size_t i = 0;
      const auto& o = L->out;
      while (i < o.size() && o[i].t == 'F' && o[i].s == "CompoundExpression" && o[i].n == 2) {
         i++;
         if (i + 1 < o.size() && o[i].t == 'F' && o[i].n == 1 && o[i + 1].t == 'S' && (o[i].s == "HimalayaInfoMessage" || o[i].s == "HimalayaErrorMessage")) {
            r.msgs.push_back((o[i].s == "HimalayaInfoMessage" ? "I:" : "E:") + o[i + 1].s);
            i += 2;
         } else { r.malformed = true; std::string junk; i = canon(o, i, junk); }
      }
      canon(o, i, r.value);
   }
   // the host takes the link back: on an error return or a link error it resets it
   L->out.clear(); L->need.clear(); L->nexpr = 0;
   if (rc != 0 || L->err) { while (!L->in.empty()) L->in.pop_front(); if (!L->dead) L->err = 0; }
   return r;
}
