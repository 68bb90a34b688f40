// records histories of operations on formal linear combinations, for Linear.tla
// usage: linear SEED RUNS LEN       output: one JSON history per line
#include <iostream>
#include <random>
#include <algorithm>
#include <map>
#include <vector>
#include <memory>
#include <cassert>
#include "Atlas.h"
#include "sl_list.h"
#include "arithmetic.h"
#include "free_abelian.h"
using namespace atlas;
using S = Split_integer;
using V = std::vector<long>;
std::mt19937 gen;
long R(long a, long b) { return a >= b ? a : a + long(gen() % (unsigned long)(b - a + 1)); }
std::ostream& O = std::cout;
bool first_step;
void put(const V& v) { O << '['; for (size_t i = 0; i < v.size(); ++i) O << (i ? "," : "") << v[i]; O << ']'; }
long A(S c) { return c.e(); } long B(S c) { return c.s(); }
long A(long c) { return c; } long B(long) { return 0; }
long A(int c) { return c; } long B(int) { return 0; }
template<typename It> void seq(It i, It e) { bool f = true; O << '['; for (; i != e; ++i) { O << (f ? "[" : ",[") << i->first << ',' << A(i->second) << ',' << B(i->second) << ']'; f = false; } O << ']'; }
void begin(const char* kind, int dir, int regs) { O << "{\"kind\":\"" << kind << "\",\"dir\":" << dir << ",\"regs\":" << regs << ",\"ex\":[],\"img\":[],\"sc\":[],\"ht\":[],\"steps\":["; first_step = true; }
void end() { O << "]}\n" << std::flush; }
void head(const char* op, const V& a, const V& r) { O << (first_step ? "" : ",") << "{\"op\":\"" << op << "\",\"a\":"; put(a); O << ",\"r\":"; put(r); O << ",\"o\":["; first_step = false; }
void none() { O << "],\"v\":[]}"; }
template<typename P> void show(int r, const P& p) { O << '[' << r + 1 << ','; seq(p.begin(), p.end()); O << "]],\"v\":[" << r + 1 << ','; seq(p.rbegin(), p.rend()); O << "]}"; }
template<typename P> long most(const P& p) { long m = 0; for (auto it = p.begin(); it != p.end(); ++it) m = std::max(m, std::abs(A(it->second)) + std::abs(B(it->second))); return m; }
template<typename C> C coef() { return C(R(-3, 3)); }
template<> S coef<S>() { switch (R(0, 5)) { case 0: { int a = R(-2, 2); return S(a, a); } case 1: { int a = R(-2, 2); return S(a, -a); } case 2: return S(R(0, 1) ? 1 : -1); case 3: return S(0, R(0, 1) ? 1 : -1); default: return S(R(-3, 3), R(-2, 2)); } }
#define STEP(op, r, ...) { head(op, V{__VA_ARGS__}, {}); show(r, b[r]); }
#define SEE(op, res, ...) { V rr res; head(op, V{__VA_ARGS__}, rr); none(); }

// the variant using std::map
template<typename P, typename C> struct Maps
{ std::vector<P> b; virtual ~Maps() {}
  template<typename Cmp> void run(const char* kind, int dir, int len, Cmp cmp)
  { begin(kind, dir, 4); b.assign(4, P(cmp)); long top = R(0, 1) ? 12 : 60;
    for (int m = 0; m < len; ++m)
    { int r = R(0, 3), q = R(0, 3), t = R(0, 3); long k = R(0, top); C c = coef<C>(); P& x = b[r]; long mm = 0; for (auto& p : b) mm = std::max(mm, most(p));
      if (mm > 20000) { for (int j = 0; j < 4; ++j) { b[j].clear(); STEP("null", j, j + 1); } continue; }
      switch (R(0, 17))
      { case 0: x.clear(); STEP("null", r, r + 1); break;
	case 1: x = P(int(k), c, cmp); head("null", {r + 1}, {}); none(); STEP("add", r, r + 1, r + 1, k, A(c), B(c)); break;
	case 2: x = P(int(k), cmp); head("null", {r + 1}, {}); none(); STEP("add", r, r + 1, r + 1, k, 1, 0); break;
	case 3: case 4: x.add_term(int(k), c); STEP("add", r, r + 1, r + 1, k, A(c), B(c)); break;
	case 5: x += int(k); STEP("add", r, r + 1, r + 1, k, 1, 0); break;
	case 6: x -= int(k); STEP("add", r, r + 1, r + 1, k, -1, 0); break;
	case 7: case 8: if (r != q or R(0, 1)) { if (r == q and (c == C(-1) or c == C(0))) c = C(1); if (r == q) { P y = x; am(x, y, c); } else am(x, b[q], c); STEP("addm", r, r + 1, r + 1, q + 1, A(c), B(c)); } break;
	case 9: if (r != q) { x += b[q]; STEP("addm", r, r + 1, r + 1, q + 1, 1, 0); } break;
	case 10: if (r != q) { x -= b[q]; STEP("addm", r, r + 1, r + 1, q + 1, -1, 0); } break;
	case 11: x = b[q]; STEP("copy", r, r + 1, q + 1); break;
	case 12: { const P& y = x; C v = y[int(k)]; SEE("coef", ({A(v), B(v)}), r + 1, k); break; }
	case 13: SEE("zero", ({x.is_zero()}), r + 1); SEE("size", ({(long)x.size()}), r + 1); break;
	case 14: { std::vector<std::pair<int, C> > v; V a{r + 1, r + 1}; std::map<int, bool> seen; for (int i = R(0, 20); i-- > 0;) { int kk = R(0, top); C cc = coef<C>(); if (cc != C(0) and not seen[kk]) { seen[kk] = true; v.emplace_back(kk, cc); a.insert(a.end(), {kk, A(cc), B(cc)}); } }
	    x = P(v.begin(), v.end(), cmp); head("null", {r + 1}, {}); none(); head("list", a, {}); show(r, x); break; }
	default: extra(r, q, t, c); break;
      }
    }
    end(); }
  virtual void am(P& x, const P& y, C c) { static_cast<free_abelian::Free_Abelian<int, C, typename P::key_compare>&>(x).add_multiple(y, c); }
  virtual void extra(int, int, int, C) {}
};
struct Ring : Maps<free_abelian::Monoid_Ring<int, long>, long>
{ void extra(int r, int q, int, long c) override
  { long d = R(0, 1) ? 0 : R(-4, 6); if (r == q) return; long hi = 0; for (auto& t : b[q]) hi = std::max(hi, std::abs((long)t.first)); if (hi > 150) return; b[r].add_multiple(b[q], c, int(d)); STEP("shadd", r, r + 1, q + 1, d, c, 0); } };

// the variant using sorted vectors; register 5 has integer coefficients
template<typename Cmp> void light(const char* kind, int dir, int len)
{ using P = free_abelian::Free_Abelian_light<int, S, Cmp>; using Q = free_abelian::Free_Abelian_light<int, int, Cmp>; Cmp cmp;
  begin(kind, dir, 5); std::vector<P> b(4); Q y; long top = R(0, 2) ? R(0, 1) ? 100 : 30 : 8; bool grow = R(0, 1);
  for (int m = 0; m < len; ++m)
  { int r = R(0, 3), q = R(0, 3); long k = R(0, top); S c = coef<S>(); P& x = b[r]; long mm = 0; for (auto& p : b) mm = std::max(mm, most(p));
    if (mm > 20000) { for (int j = 0; j < 4; ++j) { b[j].clear(); STEP("null", j, j + 1); } continue; }
    switch (R(0, 27))
    { case 0: if (grow and R(0, 5)) break; x.clear(); STEP("null", r, r + 1); break;
      case 1: if (grow and R(0, 5)) break; { int kk = k; x = R(0, 1) ? P(kk, c) : P(int(k), c, cmp); } head("null", {r + 1}, {}); none(); STEP("add", r, r + 1, r + 1, k, A(c), B(c)); break;
      case 2: if (grow and R(0, 5)) break; { int kk = k; x = R(0, 1) ? P(kk) : P(int(k)); } head("null", {r + 1}, {}); none(); STEP("add", r, r + 1, r + 1, k, 1, 0); break;
      case 3: case 4: case 5: { int kk = k; if (R(0, 1)) x.add_term(kk, c); else x.add_term(int(k), c); STEP("add", r, r + 1, r + 1, k, A(c), B(c)); break; }
      case 6: { int kk = k; if (R(0, 1)) x += kk; else x += int(k); STEP("add", r, r + 1, r + 1, k, 1, 0); break; }
      case 7: { int kk = k; if (R(0, 1)) x -= kk; else x -= int(k); STEP("add", r, r + 1, r + 1, k, -1, 0); break; }
      case 8: case 9: x.add_multiple(b[q], c); STEP("addm", r, r + 1, r + 1, q + 1, A(c), B(c)); break;
      case 10: { P z = b[q].copy(); x.add_multiple(std::move(z), c); STEP("addm", r, r + 1, r + 1, q + 1, A(c), B(c)); break; }
      case 11: if (R(0, 1)) x += b[q]; else { P z = b[q].copy(); x += std::move(z); } STEP("addm", r, r + 1, r + 1, q + 1, 1, 0); break;
      case 12: if (R(0, 1)) x -= b[q]; else { P z = b[q].copy(); x -= std::move(z); } STEP("addm", r, r + 1, r + 1, q + 1, -1, 0); break;
      case 13: if (r != q) { x = b[q].copy(); STEP("copy", r, r + 1, q + 1); } break;
      case 14: { const P& z = x; S v = z[int(k)]; SEE("coef", ({A(v), B(v)}), r + 1, k); break; }
      case 15: SEE("zero", ({x.is_zero()}), r + 1); SEE("size", ({(long)x.count_terms()}), r + 1); SEE("bound", ({(long)x.size()}), r + 1); break;
      case 16: SEE("eq", ({x == b[q]}), r + 1, q + 1); { P z = b[q].copy(); int e = R(0, top); z.add_term(e, c); z.add_term(e, -c); SEE("eq", ({b[q] == z}), q + 1, q + 1); } break;
      case 17: x.clear_coefficient(int(k)); STEP("put", r, r + 1, k, 0, 0); break;
      case 18: x.set_coefficient(int(k), c); STEP("put", r, r + 1, k, A(c), B(c)); break;
      case 19: { auto it = x.begin(); for (int i = R(0, 12); i-- > 0 and not it.has_ended();) ++it; if (it.has_ended()) break; long kk = it->first; if (R(0, 1)) { x.erase(it); STEP("put", r, r + 1, kk, 0, 0); } else { it->second = c; STEP("put", r, r + 1, kk, A(c), B(c)); } break; }
      case 20: x *= c; STEP("mul", r, r + 1, r + 1, A(c), B(c)); break;
      case 21: x.map_coefficents([c](S v) { return v * c; }); STEP("mul", r, r + 1, r + 1, A(c), B(c)); break;
      case 22: { P z = b[q].copy(); x = std::move(z).flatten(); STEP("copy", r, r + 1, q + 1); break; }
      case 23: { typename P::poly v; V a{r + 1, r + 1}; std::map<int, bool> seen; bool sorted = R(0, 1); for (int i = R(0, 30); i-- > 0;) { int kk = R(0, top); if (not seen[kk]) { seen[kk] = true; v.emplace_back(kk, coef<S>()); } }
	  if (sorted) std::sort(v.begin(), v.end(), [&](const std::pair<int, S>& s, const std::pair<int, S>& t) { return cmp(s.first, t.first); });
	  for (auto& t : v) a.insert(a.end(), {t.first, A(t.second), B(t.second)});
	  P z(std::move(v), not sorted); if (R(0, 1)) { x = std::move(z); head("null", {r + 1}, {}); none(); } else x += std::move(z);
	  head("list", a, {}); show(r, x); break; }
      case 24: { int cc = R(-3, 3); y.add_term(int(k), cc); head("add", {5, 5, k, cc, 0}, {}); show(4, y); break; }
      case 25: x.add_multiple(y, c); STEP("addm", r, r + 1, r + 1, 5, A(c), B(c)); break;
      case 26: x = P::convert(y); STEP("copy", r, r + 1, 5); break;
      case 27: if (not x.is_zero()) { const P& z = x; auto t = z.front(); head("first", {r + 1}, {t.first, A(t.second), B(t.second)}); show(r, x); } break;
    }
  }
  end(); }

int main(int argc, char** argv)
{ unsigned seed = atoi(argv[1]); int runs = atoi(argv[2]), len = atoi(argv[3]);
  for (int run = 0; run < runs; ++run)
  { gen.seed(seed * 100003u + run);
    switch (run % 6)
    { case 0: { Maps<free_abelian::Free_Abelian<int, S>, S> M; M.run("map", 1, len, std::less<int>()); break; }
      case 1: { Maps<free_abelian::Free_Abelian<int, long, std::greater<int> >, long> M; M.run("map>", -1, len, std::greater<int>()); break; }
      case 2: { Ring M; M.run("ring", 1, len, std::less<int>()); break; }
      case 5: light<std::greater<int> >("light>", -1, len); break;
      default: light<std::less<int> >("light", 1, len); break;
    }
  }
}
