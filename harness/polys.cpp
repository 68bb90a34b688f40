// records histories of polynomial operations, for Polys.tla
// usage: polys SEED RUNS LEN       output: one JSON history per line
#include <iostream>
#include <sstream>
#include <random>
#include <algorithm>
#include "Atlas.h"
#include "polynomials.h"
#include "hashtable.h"
#include "error.h"
using namespace atlas;
using polynomials::Polynomial; using polynomials::Safe_Poly;
using V = std::vector<long>;
std::mt19937 gen;
long R(long a, long b) { return a >= b ? a : a + long(gen() % (unsigned long)(b - a + 1)); }
bool first_step;
std::ostream& O = std::cout;
void put(const V& v) { O << '['; for (size_t i = 0; i < v.size(); ++i) O << (i ? "," : "") << v[i]; O << ']'; }
void step(const char* op, const V& a, const V& r, const std::string& s = "")
{ O << (first_step ? "" : ",") << "{\"op\":\"" << op << "\",\"a\":"; put(a); O << ",\"r\":"; put(r); if (s != "") O << ",\"s\":\"" << s << '"'; O << '}'; first_step = false; if (getenv("FLUSHOPS")) O << std::flush; }
void begin(const char* kind, long par) { O << "{\"kind\":\"" << kind << "\",\"par\":" << par << ",\"steps\":["; first_step = true; }
void end() { O << "]}\n" << std::flush; }
V cat(V a, const V& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
long scale = 1; // values are recorded divided by it
template<typename P> V obs(const P& p)
{ V r; for (auto c : p) r.push_back((long)c % scale ? -77 : (long)c / scale); return r; }

using IP = Polynomial<int>;
IP mk(const V& v) { IP p; for (size_t i = 0; i < v.size(); ++i) if (v[i] != 0) p += IP(i, (int)v[i]); return p; }
V rpoly(long deg, long m, bool neg) { V v; for (long i = R(0, deg); i-- > 0;) v.push_back(R(0, 3) ? R(neg ? -m : 0, m) : 0); if (v.size() and v.back() == 0) v.back() = 1; return v; }
V sgn(bool b) { return {b}; }
void ip(int len)
{ begin("int", 0);
  IP b[3]; std::vector<IP> pool; hashtable::HashTable<polynomials::PolEntry<int>, unsigned int> H(pool);
  for (int m = 0; m < len; ++m)
  { int r = R(0, 2), q = R(0, 2), p = R(0, 2); IP& x = b[r]; long d = R(0, 5), c = R(-3, 3);
    long big = 0; for (auto t : x) big = std::max(big, std::abs((long)t));
    if (big > 2000 or x.size() > 24) { V v = rpoly(6, 5, true); x = mk(v); step("new", cat({r}, v), obs(x)); continue; }
    switch (R(0, 24))
    { case 0: case 1: case 2: { V v = rpoly(R(0, 3) ? 5 : 9, R(0, 1) ? 1 : 9, true); x = mk(v); step("new", cat({r}, v), obs(x)); break; }
      case 3: x = IP((int)c); step("const", {r, c}, obs(x)); break;
      case 4: if (c) { x = IP((unsigned)d, (int)c); step("mono", {r, d, c}, obs(x)); } break;
      case 5: if (R(0, 1)) x = IP((unsigned)d, b[q]); else x = IP((unsigned)d, IP(b[q])); step("shift", {r, d, q}, obs(x)); break;
      case 6: x += b[q]; step("add", {r, r, q}, obs(x)); break;
      case 7: x -= b[q]; step("sub", {r, r, q}, obs(x)); break;
      case 8: x.subtract_from(b[q]); step("sub", {r, q, r}, obs(x)); break;
      case 9: x *= (int)c; step("times", {r, r, c}, obs(x)); break;
      case 10: if (b[q].size() + x.size() < 26) { x *= b[q]; step("mul", {r, r, q}, obs(x)); } break;
      case 11: x = b[p] + b[q]; step("add", {r, p, q}, obs(x)); break;
      case 12: x = b[p] - b[q]; step("sub", {r, p, q}, obs(x)); break;
      case 13: if (b[q].size() + b[p].size() < 26) { x = b[p] * b[q]; step("mul", {r, p, q}, obs(x)); } break;
      case 14: x = -b[q]; step("times", {r, q, -1}, obs(x)); break;
      case 15: x = b[q] * (int)c; step("times", {r, q, c}, obs(x)); break;
      case 16: { long k = R(0, 2) ? R(1, 3) : R(-2, 2); bool ex = R(0, 2); if (ex and k) { x *= (int)k; step("times", {r, r, k}, obs(x)); }
	  bool err = false; try { x /= (int)k; } catch (std::runtime_error&) { err = true; } step("div", {r, k}, err ? V{-1} : cat({0}, obs(x))); if (err) { x = IP(); step("const", {r, 0}, {}); } break; }
      case 17: step("rel", {r, q}, {x == b[q], x != b[q], compare(x, b[q]), x.is_zero(), (long)x.size(), (long)x.degree_less_than(d), x.multi_term()}); step("dlt", {r, d}, sgn(x.degree_less_than(d))); break;
      case 18: { V e; for (long i = 0; i < (long)x.size() + 2; ++i) e.push_back(x.coef(i)); for (size_t i = 0; i < x.size(); ++i) e.push_back(((const IP&)x)[i]); step("coef", {r}, e); break; }
      case 19: { long dd = (long)x.size() + R(-1, 2); if (dd < 0) dd = 0; long cc = R(-1, 1); if (dd + 1 >= (long)x.size() and big < 100) step("uprem", {r, cc, dd}, {x.up_remainder((int)cc, (unsigned)dd)}); break; }
      case 20: case 21: { if (R(0, 1) and x.size() < 20) { IP y = x; x += IP(1u, y); step("upto1", {r}, obs(x)); } if (x.is_zero()) break; long dd = (long)x.degree() + (R(0, 1) ? 0 : R(0, 2)); long rem = x.factor_by_1_plus_q((unsigned)dd); step("fac", {r, 1, dd}, cat({rem}, obs(x))); break; }
      case 22: { if (x.is_zero()) break; long dd = (long)x.degree() + R(0, 2); long k = R(1, std::min(dd + 1, 4l)); if (R(0, 1) and x.size() < 20) { IP y = x; x += IP((unsigned)k, y); step("uptok", {r, k}, obs(x)); dd = x.degree() + R(0, 1); }
	  long rem = x.factor_by_1_plus_q_to_the((unsigned)k, (unsigned)dd); step("fac", {r, k, dd}, cat({rem}, obs(x))); break; }
      case 23: { std::ostringstream o; x.print(o, "q"); step("print", {r}, {}, o.str()); break; }
      case 24: { auto k = R(0, 1) ? H.match(polynomials::PolEntry<int>(x)) : H.find(polynomials::PolEntry<int>(x)); step("match", {r}, {(long)H.size()}); k = H.match(polynomials::PolEntry<int>(x)); step("found", {r}, {(long)k, (long)H.size()}); break; }
    }
  }
  end();
}

template<typename C> Safe_Poly<C> mks(const V& v)
{ Safe_Poly<C> p; for (size_t i = 0; i < v.size(); ++i) if (v[i] != 0) p.safeAdd(Safe_Poly<C>((unsigned)i, (C)(v[i] * scale))); return p; }
template<typename C> void sp(int len, long lim)
{ begin("safe", lim);
  using P = Safe_Poly<C>;
  P b[3]; std::vector<P> pool; hashtable::HashTable<polynomials::SafePolEntry<C>, unsigned int> H(pool);
  for (int m = 0; m < len; ++m)
  { int r = R(0, 2), q = R(0, 2); P& x = b[r]; const P& y = b[q]; long d = R(0, 2) ? R(0, 3) : 0, c = R(0, 3) ? R(0, 4) : R(0, lim);
    if (scale > 1) c = std::min(c, 4000l);
    long ceil = std::min(R(0, 2) ? 9l : R(0, 3) ? lim / 3 : lim, lim);
    if (x.size() > 14) { V v = rpoly(4, 5, false); x = mks<C>(v); step("new", cat({r}, v), obs(x)); continue; }
    switch (R(0, 14))
    { case 0: case 1: { V v = rpoly(6, ceil, false); x = mks<C>(v); step("new", cat({r}, v), obs(x)); break; }
      case 2: { long t = R(0, lim); x = P((C)(t * scale)); step("const", {r, t}, obs(x)); break; }
      case 3: case 4: case 5: case 6: { bool err = false, plain = R(0, 1); if (plain) c = 1; try { if (plain) { if (d) x.safeAdd(y, d); else x.safeAdd(y); } else x.safeAdd(y, d, (C)c); } catch (error::NumericOverflow&) { err = true; }
	  step("sadd", {r, q, d, c}, err ? V{-1} : cat({0}, obs(x))); if (err) { x = P(); step("const", {r, 0}, {}); } break; }
      case 7: case 8: case 9: { bool ok = y.is_zero() or y.size() + d <= x.size(), plain = R(0, 1); if (plain) c = 1; // only when the result has no negative coefficients
	  for (size_t i = 0; ok and i < y.size(); ++i) { unsigned long t = (unsigned long)y[i] * c; ok = t <= x[i + d]; }
	  if (not ok) { // make it so
	    bool err = false; try { x.safeAdd(y, d, (C)c); } catch (error::NumericOverflow&) { err = true; }
	    step("sadd", {r, q, d, c}, err ? V{-1} : cat({0}, obs(x))); if (err) { x = P(); step("const", {r, 0}, {}); break; }
	    if (r == q) break; }
	  if (plain) { if (d) x.safeSubtract(y, d); else x.safeSubtract(y); } else x.safeSubtract(y, d, (C)c);
	  step("ssub", {r, q, d, c}, obs(x)); break; }
      case 10: { long k = R(1, 5); bool err = false; P z; try { z.safeAdd(x, 0, (C)k); } catch (error::NumericOverflow&) { err = true; } if (err) break; x = z; step("stimes", {r, r, k}, obs(x)); x.safeDivide((C)k); step("sdiv", {r, k}, obs(x)); break; }
      case 11: case 12: { V Q = rpoly(6, std::min(ceil, lim / 2), false); long deg = (long)Q.size() - 1; V v(Q); v.push_back(0); for (size_t i = 0; i < Q.size(); ++i) v[i + 1] += Q[i];
	  bool mu = Q.size() and R(0, 1); if (Q.empty()) v.clear(); long delta = mu ? 2 * deg + 1 : 2 * deg + 1 + R(1, 4); if (mu) v.pop_back(); if (Q.empty()) delta = R(1, 5);
	  x = mks<C>(v); step("new", cat({r}, v), obs(x)); x.safe_quotient_by_1_plus_q((unsigned)delta); step("quot", {r, delta}, obs(x)); break; }
      case 13: step("rel", {r, q}, {x == y, x != y, compare(x, y), x.is_zero(), (long)x.size(), (long)x.degree_less_than(d), x.multi_term()}); step("dlt", {r, d}, sgn(x.degree_less_than(d))); break;
      case 14: { auto k = R(0, 1) ? H.match(polynomials::SafePolEntry<C>(x)) : H.find(polynomials::SafePolEntry<C>(x)); step("match", {r}, {(long)H.size()}); k = H.match(polynomials::SafePolEntry<C>(x)); step("found", {r}, {(long)k, (long)H.size()}); break; }
    }
  }
  end();
}
int main(int argc, char** argv)
{ unsigned seed = atoi(argv[1]); int runs = atoi(argv[2]), len = atoi(argv[3]);
  for (int i = 0; i < runs; ++i)
  { gen.seed(seed * 1000003u + i);
    scale = 1; ip(len);
    switch (i % 3) { case 0: sp<unsigned char>(len, 255); break; case 1: sp<unsigned short>(len, 65535); break; case 2: scale = 1l << 20; sp<unsigned int>(len, 4095); break; }
  }
}
