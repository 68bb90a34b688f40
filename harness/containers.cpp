// records histories of operations on the library containers, for Containers.tla
// usage: containers SEED RUNS LEN KINDS...      output: one JSON history per line
#include <iostream>
#include <sstream>
#include <random>
#include <functional>
#include <cstring>
#include "Atlas.h"
#include "bits.h"
#include "bitset.h"
#include "bitmap.h"
#include "sl_list.h"
#include "hashtable.h"
#include "partition.h"
#include "permutations.h"
#include "poset.h"
#include "preorder.h"
#include "graph.h"
#include "matrix.h"
#include "permutations.cpp"
using namespace atlas;
using V = std::vector<long>;
std::mt19937 gen;
long R(long a, long b) { return a >= b ? a : a + long(gen() % (unsigned long)(b - a + 1)); } // in [a,b]
// in [a,b], often at an end or near a word boundary
long E(long a, long b) { long k = R(0, 5); return k == 0 ? a : k == 1 ? b : k < 4 ? std::min(b, std::max(a, 64 * R(a / 64, b / 64 + 1) + (k == 2 ? 0 : R(-1, 1)))) : R(a, b); }
bool first_step;
std::ostream& O = std::cout;
void put(const V& v) { O << '['; for (size_t i = 0; i < v.size(); ++i) O << (i ? "," : "") << v[i]; O << ']'; }
void step(const char* op, const V& a, const V& r)
{ O << (first_step ? "" : ",") << "{\"op\":\"" << op << "\",\"a\":"; put(a); O << ",\"r\":"; put(r); O << '}'; first_step = false; if (getenv("FLUSHOPS")) O << std::flush; }
void begin(const char* kind, long par) { O << "{\"kind\":\"" << kind << "\",\"par\":" << par << ",\"steps\":["; first_step = true; }
void end() { O << "]}\n" << std::flush; }
V cat(V a, const V& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
template<typename C> V list(const C& c) { V r; for (auto x : c) r.push_back(x); return r; }

// ------------------------------------------------------------------ bit maps
using BM = bitmap::BitMap;
V members(const BM& b) { V r; for (auto it = b.begin(); it(); ++it) r.push_back(*it); return r; }
V bmobs(const BM& b) { return cat({(long)b.capacity(), (long)b.size(), b.empty(), b.full()}, members(b)); }
long capgen() { static const long c[] = {0, 1, 2, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 191, 192, 200}; return R(0, 3) ? c[R(0, 15)] : R(0, 200); }
V wordbits(unsigned long w) { V r; for (int i = 0; i < 64; ++i) if (w >> i & 1) r.push_back(i); return r; }
void bm(int len)
{ begin("bm", 0);
  BM b[4];
  for (int n = 0; n < len; ++n)
  { int r = R(0, 3), q = R(0, 3), p = R(0, 3);
    BM& x = b[r]; long c = x.capacity();
    long i = c ? E(0, c - 1) : 0;
    if (c == 0 and R(0, 2)) { long k = capgen(); x = BM(k); step("new", {r, k}, bmobs(x)); continue; }
    switch (R(0, 36))
    {
    case 0: { long k = capgen(); x = BM(k); step("new", {r, k}, bmobs(x)); break; }
    case 1: { long k = capgen(); std::vector<unsigned> e; if (k) for (int j = R(0, 20); j-- > 0;) e.push_back(R(0, k - 1));
	if (R(0, 1)) x = BM(k, e); else x = BM(k, e.begin(), e.end()); step("newv", cat({r, k}, list(e)), bmobs(x)); break; }
    case 2: case 3: case 4: if (c) { x.insert(i); step("ins", {r, i}, bmobs(x)); } break;
    case 5: if (c) { x.remove(i); step("rem", {r, i}, bmobs(x)); } break;
    case 6: if (c) { x.flip(i); step("flip", {r, i}, bmobs(x)); } break;
    case 7: if (c) { bool v = R(0, 1), t = x.set_to(i, v); step("setto", {r, i, v}, cat({t}, bmobs(x))); } break;
    case 8: if (c) { long v = R(0, 5); bool t = x.set_mod2(i, v); step("set2", {r, i, v}, cat({t}, bmobs(x))); } break;
    case 9: x.fill(); step("fill", {r}, bmobs(x)); break;
    case 10: x.reset(); step("reset", {r}, bmobs(x)); break;
    case 11: case 12: { long s = E(0, c), e = R(0, 3) ? E(s, c) : E(0, c); x.fill(s, e); step("fillr", {r, s, e}, bmobs(x)); break; }
    case 13: { long s = E(0, c), e = R(0, 3) ? E(s, c) : E(0, c); x.clear(s, e); step("clearr", {r, s, e}, bmobs(x)); break; }
    case 14: { long k = R(0, 1) ? capgen() : std::max(0l, c + R(-3, 3)); x.set_capacity(k); step("cap", {r, k}, bmobs(x)); break; }
    case 15: for (int j = R(1, 3); j-- > 0;) { bool v = R(0, 1); x.extend_capacity(v); step("ext", {r, v}, bmobs(x)); } break;
    case 16: x.take_complement(); step("compl", {r}, bmobs(x)); break;
    case 17: x = ~b[q]; step("not", {r, q}, bmobs(x)); break;
    case 18: if (b[q].capacity() <= c) { bool t = x &= b[q]; step("and", {r, q}, cat({t}, bmobs(x))); } break;
    case 19: if (b[q].capacity() <= c) { x |= b[q]; step("or", {r, q}, bmobs(x)); } break;
    case 20: if (b[q].capacity() <= c) { x ^= b[q]; step("xor", {r, q}, bmobs(x)); } break;
    case 21: if (b[q].capacity() <= c) { x.andnot(b[q]); step("andnot", {r, q}, bmobs(x)); } break;
    case 22: if (b[q].capacity() <= b[p].capacity()) { if (R(0, 1)) x = b[p] & b[q]; else x = BM(b[p]) & b[q]; step("and3", {r, p, q}, bmobs(x)); } break;
    case 23: if (b[q].capacity() <= b[p].capacity()) { if (R(0, 1)) x = b[p] | b[q]; else x = BM(b[p]) | b[q]; step("or3", {r, p, q}, bmobs(x)); } break;
    case 24: if (b[q].capacity() <= b[p].capacity()) { if (R(0, 1)) x = b[p] ^ b[q]; else x = BM(b[p]) ^ b[q]; step("xor3", {r, p, q}, bmobs(x)); } break;
    case 25: { long m = -1; for (long j = 0; j < c; ++j) if (x.isMember(j)) m = j; long lim = m < 0 ? c : c - 1 - m; // nothing may be shifted out
	long d = E(0, lim); x <<= d; step("shl", {r, d}, bmobs(x)); break; }
    case 26: { long d = E(0, c); x >>= d; step("shr", {r, d}, bmobs(x)); break; }
    case 27: x = b[q]; step("assign", {r, q}, bmobs(x)); break;
    case 28: x.swap(b[q]); step("swap", {r, q}, bmobs(x)); break;
    case 29: if (c) { long w = R(0, 3) ? R(0, 12) : R(0, 64), s = E(0, c - 1); w = std::min(std::min(w, c - s), 64 - (s & 63)); unsigned long src = gen();
	x.setRange(s, w, src); step("setr", cat({r, s, w}, wordbits(src)), bmobs(x)); } break;
    case 30: { V e; for (long j = 0; j < c + 3; ++j) e.push_back(x.isMember(j)); step("mem", {r}, e); break; }
    case 31: { long k = R(0, 40); step("front", {r, k, i}, {(long)x.front(), (long)x.n_th(k), (long)x.position(R(0, 5) ? i : c)}); if (x.any()) step("last", {r}, {(long)bitmap::last(x)}); break; }
    case 32: { size_t k = E(0, c); long k0 = k; bool ok = x.back_up(k); step("back", {r, k0}, {ok, (long)k}); break; }
    case 33: if (c) { long w = 1l << R(0, 5); long s = R(0, (c - 1) / w) * w; step("range", {r, s, w}, wordbits(x.range(s, w))); } break;
    case 34: { V e; for (auto it = x.begin(); it(); ++it) { e.push_back(*it); if (*it % 2) x.remove(*it); } step("sweep", {r}, cat(e, bmobs(x))); break; }
    case 35: { bool le = b[q].capacity() <= c; step("rel", {r, q}, {le ? x.contains(b[q]) : -1, x.disjoint(b[q]), b[q].capacity() == x.capacity() ? x == b[q] : -1, b[q].capacity() == x.capacity() ? x != b[q] : -1}); break; }
    case 36: { V e; auto it = x.begin(); while (it != x.end()) { auto jt = it++; e.push_back(*jt); } step("iter", {r}, e); break; }
    }
  }
  end();
}

// ------------------------------------------------------------------ bit sets
template<unsigned n> V bsl(const bitset::BitSet<n>& b) { V r; for (auto it = b.begin(); it(); ++it) r.push_back(*it); return r; }
template<unsigned n> V bsobs(const bitset::BitSet<n>& b) { return cat({(long)b.count(), b.any(), b.none()}, bsl(b)); }
template<unsigned n> void bs(int len)
{ using S = bitset::BitSet<n>;
  begin("bs", n);
  S b[3];
  for (int m = 0; m < len; ++m)
  { int r = R(0, 2), q = R(0, 2), p = R(0, 2); S& x = b[r]; long i = R(0, n - 1);
    long lim = R(0, 2) ? R(0, n) : 32;
    switch (R(0, 27))
    {
    case 0: case 1: { unsigned long w = gen() ^ ((unsigned long)gen() << 32); if (n < 64) w &= 0xFFFFFFFFul; if (R(0, 3) == 0) w = 1ul << i; x = S(w); step("new", cat({r}, wordbits(w)), bsobs(x)); break; }
    case 2: x.set(i); step("ins", {r, i}, bsobs(x)); break;
    case 3: x.reset(i); step("rem", {r, i}, bsobs(x)); break;
    case 4: x.flip(i); step("flip", {r, i}, bsobs(x)); break;
    case 5: { bool v = R(0, 1); x.set(i, v); step("setto", {r, i, v}, bsobs(x)); break; }
    case 6: x.reset(); step("reset", {r}, bsobs(x)); break;
    case 7: case 8: x.fill(lim); step("fill", {r, lim}, bsobs(x)); break;
    case 9: if (R(0, 1)) x.complement(lim); else { const S y = x; x = y.complement(lim); } step("compl", {r, lim}, bsobs(x)); break;
    case 10: x.truncate(lim); step("trunc", {r, lim}, bsobs(x)); break;
    case 11: if (q == r) break; x.slice(b[q]); step("slice", {r, q}, bsobs(x)); break;
    case 12: if (q == r) break; x.unslice(b[q]); step("unslice", {r, q}, bsobs(x)); break;
    case 13: case 14: { long d = R(0, 3) ? R(0, n) : R(n - 1, n + 5); if (R(0,5) == 0) d = 32; x <<= d; step("shl", {r, d}, bsobs(x)); break; }
    case 15: case 16: { long d = R(0, 3) ? R(0, n) : R(n - 1, n + 5); if (R(0,5) == 0) d = 32; x >>= d; step("shr", {r, d}, bsobs(x)); break; }
    case 17: x ^= b[q]; step("xor", {r, q}, bsobs(x)); break;
    case 18: if (R(0, 1)) { x = b[p] & b[q]; step("and3", {r, p, q}, bsobs(x)); } else { x &= b[q]; step("and3", {r, r, q}, bsobs(x)); } break;
    case 19: if (R(0, 1)) { x = b[p] | b[q]; step("or3", {r, p, q}, bsobs(x)); } else { x |= b[q]; step("or3", {r, r, q}, bsobs(x)); } break;
    case 20: x = b[p] ^ b[q]; step("xor3", {r, p, q}, bsobs(x)); break;
    case 21: if (R(0, 1)) { x = b[p] - b[q]; step("sub3", {r, p, q}, bsobs(x)); } else { x.andnot(b[q]); step("sub3", {r, r, q}, bsobs(x)); } break;
    case 22: x = ~b[q]; step("compl3", {r, q}, bsobs(x)); break;
    case 23: x.swap(b[q]); step("swap", {r, q}, bsobs(x)); break;
    case 24: step("q", {r, i}, {x.test(i), x[i], (long)x.position(i), x.any() ? (long)x.firstBit() : -1, (long)x.lastBit()}); break;
    case 25: step("rel", {r, q}, {x == b[q], x != b[q], x < b[q], x.any(b[q]), x.contains(b[q]), x.scalarProduct(b[q]), x.dot(b[q])}); break;
    case 26: if (x.any()) { long k = R(0, x.count() - 1); V e; unsigned j = 0; for (auto it = x.begin(); it != x.end(); it++) if (j++ == k) e.push_back(*it); step("nth", {r, k}, e); } break;
    case 27: step("word", {r}, wordbits(x.to_ulong())); break;
    }
  }
  unsigned long w = gen() ^ ((unsigned long)gen() << 32); w = R(0, 3) ? w & gen() & gen() : 1ul << R(0, 63); if (R(0, 9) == 0) w = 0;
  step("bits", wordbits(w), {(long)bits::bitCount(w), (long)bits::firstBit(w), (long)bits::lastBit(w)});
  end();
}

// ------------------------------------------------------------------ lists
using SL = containers::sl_list<long>; using PL = containers::simple_list<long>;
template<typename L> V lobs(const L& l)
{ V r; for (auto it = l.wcbegin(); not l.at_end(it); ++it) r.push_back(*it); return r; }
V full(const SL& l) // content by strong iterators up to |end()|, and the size field
{ V r{(long)l.size()}; for (auto it = l.begin(); it != l.end(); ++it) r.push_back(*it); return r; }
V full(const PL& l) { V r{(long)containers::length(l)}; for (auto it = l.begin(); not l.at_end(it); ++it) r.push_back(*it); return r; }
template<typename L> typename L::iterator at(L& l, long k) { auto it = l.begin(); while (k-- > 0) ++it; return it; }
template<typename L, typename It> long idx(L& l, It p) { long k = 0; auto it = l.cbegin(); while (it != p) { if (l.at_end(it)) return -1; ++it; ++k; } return k; }
void extra(SL* b, int r, int q, long v, long k, long n)
{ SL& x = b[r];
  switch (R(0, 9))
  {
  case 0: case 1: case 2: { long t = R(0, 1) ? x.push_back(v) : x.emplace_back(v); step("pushb", {r, v}, cat({t}, full(x))); break; }
  case 3: if (q != r) { auto p = x.append(std::move(b[q])); long i = idx(x, p); step("append", {r, q}, cat({i}, cat(full(x), full(b[q])))); } break;
  case 4: { V w; for (int j = R(0, 4); j-- > 0;) w.push_back(R(0, 9)); auto p = x.append(w.begin(), w.end()); step("appendv", cat({r}, w), cat({idx(x, p)}, full(x))); break; }
  case 5: if (q != r) { auto p = x.prepend(std::move(b[q])); step("prepend", {r, q}, cat({idx(x, p)}, cat(full(x), full(b[q])))); } break;
  case 6: { long a = R(0, n), e = R(a, n); typename SL::const_iterator to = at(x, e); x.sort(at(x, a), to); step("sortr", {r, a, e}, cat({idx(x, to)}, full(x))); break; }
  case 7: { x = SL(x.undress()); step("same", {r}, full(x)); break; }
  case 8: { long a = R(0, n), e = R(a, n); typename SL::const_iterator to = at(x, e); x.sort(at(x, a), to, std::greater<long>()); step("sortrg", {r, a, e}, cat({idx(x, to)}, full(x))); break; }
  case 9: { // merge two disjoint increasing ranges of x
      long c[4]; for (auto& t : c) t = R(0, n); std::sort(c, c + 4); bool rev = R(0, 1);
      typename SL::const_iterator t1 = at(x, c[1]); x.sort(at(x, c[0]), t1); typename SL::const_iterator t3 = at(x, c[3]); x.sort(at(x, c[2]), t3);
      step("sort2", {r, c[0], c[1], c[2], c[3]}, full(x));
      auto p = rev ? x.merge(at(x, c[2]), at(x, c[3]), at(x, c[0]), at(x, c[1])) : x.merge(at(x, c[0]), at(x, c[1]), at(x, c[2]), at(x, c[3]));
      step("merger", {r, c[0], c[1], c[2], c[3], rev}, cat({idx(x, p)}, full(x))); break; }
  }
}
void extra(PL* b, int r, int q, long v, long k, long n)
{ PL& x = b[r];
  switch (R(0, 3))
  {
  case 0: { V w; for (int j = R(0, 4); j-- > 0;) w.push_back(R(0, 9)); auto p = x.prepend(w.begin(), w.end()); step("prependv", cat({r}, w), cat({idx(x, p)}, full(x))); break; }
  case 1: if (q != r) { auto p = x.prepend(std::move(b[q])); step("prepend", {r, q}, cat({idx(x, p)}, cat(full(x), full(b[q])))); } break;
  case 2: step("single", {r}, {x.empty(), x.singleton()}); break;
  case 3: { SL t(std::move(x)); V w = full(t); x = t.undress(); step("same", {r}, w); break; }
  }
}
template<typename L> void sl(int len, const char* kind)
{ begin(kind, 0);
  L b[3];
  for (int m = 0; m < len; ++m)
  { int r = R(0, 2), q = R(0, 2); L& x = b[r]; long n = lobs(x).size(), v = R(0, 9), k = R(0, n);
    if (n > 25) { x.resize(5); step("resize", {r, 5}, full(x)); continue; }
    switch (R(0, 33))
    {
    case 0: case 1: if (R(0, 1)) x.push_front(v); else x.emplace_front(v); step("pushf", {r, v}, full(x)); break;
    case 2: if (n) { x.pop_front(); step("popf", {r}, full(x)); } break;
    case 3: case 4: { auto p = R(0, 1) ? x.insert(at(x, k), v) : x.emplace(at(x, k), v); step("insert", {r, k, v}, cat({idx(x, p)}, full(x))); break; }
    case 5: { long c = R(0, 3); auto p = x.insert(at(x, k), (unsigned long)c, v); step("insertn", {r, k, c, v}, cat({idx(x, p)}, full(x))); break; }
    case 6: { V w; for (int j = R(0, 4); j-- > 0;) w.push_back(R(0, 9)); auto p = x.insert(at(x, k), w.begin(), w.end()); step("insertv", cat({r, k}, w), cat({idx(x, p)}, full(x))); break; }
    case 7: case 8: if (k < n) { auto p = x.erase(at(x, k)); step("erase", {r, k}, cat({idx(x, p)}, full(x))); } break;
    case 9: { long e = R(k, n); auto p = x.erase(at(x, k), at(x, e)); step("eraser", {r, k, e}, cat({idx(x, p)}, full(x))); break; }
    case 10: { long c = R(0, 6); x.assign((unsigned long)c, v); step("assignn", {r, c, v}, full(x)); break; }
    case 11: case 12: { V w; for (int j = R(0, 8); j-- > 0;) w.push_back(R(0, 9)); if (R(0, 1)) x.assign(w.begin(), w.end()); else if (R(0, 1)) x = L(w.begin(), w.end()); else x.move_assign(w.begin(), w.end()); step("assignv", cat({r}, w), full(x)); break; }
    case 13: { long c = R(0, 8); x.resize(c); step("resize", {r, c}, full(x)); break; }
    case 14: { long c = R(0, 8); x.resize(c, v); step("resizev", {r, c, v}, full(x)); break; }
    case 15: x.reverse(); step("rev", {r}, full(x)); break;
    case 16: case 17: { long e = R(k, n); auto p = x.reverse(at(x, k), at(x, e)); step("revr", {r, k, e}, cat({idx(x, p)}, full(x))); break; }
    case 18: x.remove(v); step("remove", {r, v}, full(x)); break;
    case 19: x.remove_if([](long t) { return t % 2 != 0; }); step("remodd", {r}, full(x)); break;
    case 20: x.unique(); step("uniq", {r}, full(x)); break;
    case 21: x.unique([](long s, long t) { return s <= t; }); step("uniqle", {r}, full(x)); break;
    case 22: case 23: x.sort(); step("sort", {r}, full(x)); break;
    case 24: if (q != r) { x.sort(); step("sort", {r}, full(x)); b[q].sort(); step("sort", {q}, full(b[q])); x.merge(b[q]); step("merge", {r, q}, cat(full(x), full(b[q]))); } break;
    case 25: if (q != r) { auto p = x.splice(at(x, k), b[q]); step("splice", {r, k, q}, cat({idx(x, p)}, cat(full(x), full(b[q])))); } break;
    case 26: { long nq = lobs(b[q]).size(); if (nq == 0) break; long i = R(0, nq - 1); auto p = x.splice(at(x, k), b[q], at(b[q], i)); step("splice1", {r, k, q, i}, cat({idx(x, p)}, cat(full(x), full(b[q])))); break; }
    case 27: case 28: { long nq = lobs(b[q]).size(); long i = R(0, nq), e = R(i, nq); if (q == r and k > i and k < e) break;
	auto p = x.splice(at(x, k), b[q], at(b[q], i), at(b[q], e)); step("splicer", {r, k, q, i, e}, cat({idx(x, p)}, cat(full(x), full(b[q])))); break; }
    case 29: { if (R(0, 1)) x = b[q]; else x = L(b[q]); step("copy", {r, q}, cat(full(x), full(b[q]))); break; }
    case 30: if (q != r) { x = std::move(b[q]); b[q].clear(); step("move", {r, q}, cat(full(x), full(b[q]))); } break;
    case 31: if (R(0, 1)) x.swap(b[q]); else std::swap(x, b[q]); step("swap", {r, q}, cat(full(x), full(b[q]))); break;
    case 32: x.clear(); step("clear", {r}, full(x)); break;
    case 33: { V t; for (auto y : x.to_vector()) t.push_back(y); step("vec", {r}, t); if (n) step("ends", {r}, {x.front()}); break; }
    }
    if (R(0, 1)) extra(b, r, q, v, R(0, n), lobs(x).size());
  }
  end();
}
void sq(int len)
{ begin("sq", 0);
  containers::stack<long> s; containers::queue<long> q;
  for (int m = 0; m < len; ++m)
  { long v = R(0, 99);
    switch (R(0, 6))
    { case 0: case 1: s.push(v); step("spush", {v}, {(long)s.top(), s.empty()}); break;
      case 2: if (not s.empty()) { long t = s.top(); s.pop(); step("spop", {}, {t, s.empty()}); } break;
      case 3: case 4: q.push(v); step("qpush", {v}, {(long)q.front(), (long)q.size(), q.empty()}); break;
      case 5: if (not q.empty()) { long t = q.front(); q.pop(); step("qpop", {}, {t, (long)q.size(), q.empty()}); } break;
      case 6: if (not q.empty()) { SL d{1, 2}; auto p = d.begin(); ++p; q.pop_splice_to(d, p); step("qsplice", {}, cat(full(d), {(long)q.size()})); } break;
    }
  }
  end();
}

// ------------------------------------------------------------------ hash tables
struct Entry
{ long v; Entry(long v = 0) : v(v) {}
  using Pooltype = std::vector<Entry>;
  size_t hashCode(size_t m) const { return (v % 5 == 0 ? v : v % 3 * 5 + m - 2) & (m - 1); } // many collisions, also at the end of the table
  bool operator!=(const Entry& e) const { return v != e.v; }
};
using HT = hashtable::HashTable<Entry, unsigned int>;
void ht(int len)
{ begin("ht", 0);
  std::vector<Entry> pool[2]; HT h[2] = {HT(pool[0], R(0, 3)), HT(pool[1], 3)};
  long range = R(0, 1) ? 12 : 60;
  for (int m = 0; m < len; ++m)
  { int r = R(0, 1); long v = R(0, range); HT& x = h[r];
    switch (R(0, 9))
    { case 0: case 1: case 2: case 3: { long k = R(0, 1) ? x.match(Entry(v)) : [&] { const Entry e(v); return x.match(e); }(); step("match", {r, v}, {k, (long)x.size()}); break; }
      case 4: case 5: case 6: { auto k = x.find(Entry(v)); step("find", {r, v}, {k == HT::empty ? -1 : (long)k, (long)x.size()}); break; }
      case 7: { V t; for (auto i = x.begin(); i != x.end(); ++i) t.push_back(x[i].v); step("all", {r}, t); break; }
      case 8: if (R(0, 1)) { bool in = false; for (auto& e : pool[r]) in = in or e.v == v; if (in) break; pool[r].push_back(Entry(v)); x.reconstruct(); step("recon", {r, v}, {(long)x.size()}); } break;
      case 9: if (R(0, 2) == 0) { h[0].swap(h[1]); step("swap", {}, {(long)h[0].size(), (long)h[1].size()}); } break;
    }
  }
  end();
}

// ------------------------------------------------------------------ partitions
V ptobs(const partition::Partition& p)
{ V r{(long)p.size(), (long)p.classCount()};
  for (long i = 0; i < p.size(); ++i) r.push_back(p.class_of(i));
  for (long c = 0; c < p.classCount(); ++c) r.push_back(p.classRep(c));
  for (auto s : p.class_sizes()) r.push_back(s);
  for (long c = 0; c < p.classCount(); ++c) r.push_back(p.classSize(c));
  if (p.size() > 0)
    for (partition::PartitionIterator it(p); it(); ++it) { r.push_back(it->second - it->first); for (auto jt = it->first; jt != it->second; ++jt) r.push_back(*jt); }
  return r; }
struct Act { const std::vector<std::vector<unsigned long>>& g; unsigned long operator()(unsigned i, unsigned long x) const { return g[i][x]; } };
permutations::Permutation rperm(long n) { permutations::Permutation p(n, 1); for (long i = n; i-- > 1;) std::swap(p[i], p[R(0, i)]); return p; }
void pt(int len)
{ begin("pt", 0);
  for (int m = 0; m < len / 4; ++m)
  { long n = R(0, 3) ? R(1, 20) : R(0, 90);
    switch (R(0, 3))
    { case 0: { std::vector<unsigned long> f; for (long i = 0; i < n; ++i) f.push_back(R(0, 7) * 11); step("values", list(f), ptobs(partition::Partition(f))); break; }
      case 1: { std::vector<unsigned long> f; long c = R(1, 6); if (n < c) break; for (long i = 0; i < n; ++i) f.push_back(i < c ? i : R(0, c - 1)); for (long i = n; i-- > 1;) std::swap(f[i], f[R(0, i)]);
	  step("numbered", list(f), ptobs(partition::Partition(f, tags::UnnormalizedTag()))); break; }
      case 2: { std::vector<std::vector<unsigned long>> g(R(0, 3)); for (auto& p : g) { p = permutations::Permutation(n, 1); for (int j = R(0, 5); j-- > 0 and n > 1;) std::swap(p[R(0, n - 1)], p[R(0, n - 1)]); }
	  V a{n}; for (auto& p : g) a = cat(a, list(p)); step("orbits", a, ptobs(partition::orbits(Act{g}, g.size(), n))); break; }
      case 3: { partition::Partition p(n); V a{n}; if (n == 0) break; long c = R(1, std::min(n, 5l)); auto o = rperm(n);
	  for (long i = 0; i < n; ++i) { long cl = i < c ? i : R(0, c - 1); if (i < c) p.new_class(o[i]); else p.addToClass(cl, o[i]); a.push_back(o[i]); a.push_back(cl); }
	  step("built", a, ptobs(p)); break; }
    }
  }
  end();
}

// ------------------------------------------------------------------ permutations
void pm(int len)
{ begin("pm", 0);
  using permutations::Permutation;
  for (int m = 0; m < len / 2; ++m)
  { long n = R(0, 3) ? R(0, 9) : R(0, 70); Permutation p = rperm(n); if (R(0, 5) == 0) p = Permutation(n, 1); V P = cat({n}, list(p));
    std::vector<int> v; for (long i = 0; i < n; ++i) v.push_back(R(0, 9));
    std::vector<unsigned int> u; if (n) for (int i = R(0, 8); i-- > 0;) u.push_back(R(0, n - 1));
    switch (R(0, 14))
    { case 0: step("inv", P, list(Permutation(p, -1))); break;
      case 1: step("pull", cat(P, list(v)), list(p.pull_back(v))); break;
      case 2: { auto w = v; p.permute(w); step("permute", cat(P, list(v)), list(w)); break; }
      case 3: step("renum", cat(P, list(u)), list(p.renumbering(u))); break;
      case 4: { auto w = u; p.renumber(w); step("renum", cat(P, list(u)), list(w)); break; }
      case 5: { auto w = u; w.push_back(77); w.insert(w.begin(), 77); auto w0 = w; p.renumber(w, 77u); step("renumx", cat(P, list(w0)), list(w)); break; }
      case 6: { BM b(n); for (auto i : u) b.insert(i); step("renumb", cat(P, list(u)), members(p.renumbering(b))); break; }
      case 7: step("sign", P, {p.is_identity(), p.is_negative(), permutations::sign(p)}); break;
      case 8: step("fixed", P, members(fixed_points(p))); break;
      case 9: { long k = R(0, n), s = R(0, n - k); Permutation q = rperm(k), r = p; compose(r, q, s); step("compose", cat(cat(P, {s}), list(q)), list(r)); break; }
      case 10: step("std", list(v), list(permutations::standardization(v.begin(), v.end(), std::less<int>()))); break;
      case 11: { std::vector<unsigned int> a; for (auto x : v) a.push_back(x); std::vector<unsigned int> st; auto q = permutations::standardization(a, 10, &st); step("stdb", list(a), cat(list(q), list(st))); break; }
      case 12: if (n <= constants::RANK_MAX) { bitset::BitSet<constants::RANK_MAX> f; for (auto i : u) f.set(i); auto w = f; p.permute_bits(w); step("bitsp", cat(P, list(u)), bsl(w)); step("bitsq", cat(P, list(u)), bsl(p.pull_back(f))); } break;
      case 13: if (n <= 6) { matrix::PID_Matrix<int> M(n, n); V a = P; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a.push_back(M(i, j) = R(-9, 9));
	  auto A = M, B = M; p.conjugate(A); p.inv_conjugate(B); V r; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r.push_back(A(i, j)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r.push_back(B(i, j)); step("conj", a, r); } break;
      case 14: if (n <= 6) { long k = R(0, 4); matrix::PID_Matrix<int> M(k, n), N(n, k); V a = cat(P, {k}); for (int i = 0; i < k; ++i) for (int j = 0; j < n; ++j) a.push_back(N(j, i) = M(i, j) = R(-9, 9));
	  permutations::pull_back_columns(M, p); N = N.transposed(); permutations::pull_back_columns(N, p); N = N.transposed(); V r; for (int i = 0; i < k; ++i) for (int j = 0; j < n; ++j) r.push_back(M(i, j)); for (int i = 0; i < k; ++i) for (int j = 0; j < n; ++j) r.push_back(N(j, i)); step("pullm", a, r); } break;
    }
  }
  end();
}

// ------------------------------------------------------------------ posets and preorders
V below(const poset::Poset& p) { V r{(long)p.size()}; for (long i = 0; i < p.size(); ++i) { V e = members(p.below(i)); r.push_back(e.size()); r = cat(r, e); } return r; }
V graph_list(const graph::OrientedGraph& g) { V r{(long)g.size()}; for (long i = 0; i < g.size(); ++i) { auto e = list(g.edgeList(i)); std::sort(e.begin(), e.end()); r.push_back(e.size()); r = cat(r, e); } return r; }
void po(int len)
{ begin("po", 0);
  poset::Poset p(0);
  for (int m = 0; m < len; ++m)
  { long n = p.size();
    switch (R(0, 13))
    { case 0: { long k = R(0, 9) ? R(0, 12) : R(0, 70); p = poset::Poset(k); step("new", {k}, below(p)); break; }
      case 1: case 2: { long k = R(1, R(0, 5) ? 14 : 70); std::vector<poset::Poset::EltList> h(k); V a{k}; for (long i = 0; i < k; ++i) { BM s(i); if (i) for (int j = R(0, 3); j-- > 0;) s.insert(R(std::max(0l, i - 9), i - 1)); for (auto x : s) { h[i].push_back(x); a.push_back(x); a.push_back(i); } }
	  p = poset::Poset(h); step("hasse", a, below(p)); step("ncompH", a, {(long)poset::n_comparable_from_Hasse(h)}); break; }
      case 3: { long k = R(1, 12); std::vector<poset::Poset::Link> l; V a{k}; for (int i = 1; i < k; ++i) for (int j = R(0, 2); j-- > 0;) { unsigned t = R(0, i - 1); l.emplace_back(t, i); a.push_back(t); a.push_back(i); }
	  p = poset::Poset(k, l); step("hasse", a, below(p)); break; }
      case 4: { SL c; V a; if (n) for (int j = R(0, 3); j-- > 0;) { long t = R(0, n - 1); c.push_back(t); a.push_back(t); } p.new_max(c); step("max", a, below(p)); break; }
      case 5: { long k = n + R(0, 2); p.resize(k); step("resize", {k}, below(p)); break; }
      case 6: if (n) { p = poset::Poset(p, tags::DualTag()); step("dual", {}, below(p)); } break;
      case 7: if (n) { long x = R(0, n - 1); step("above", {x}, members(p.above(x))); step("covers", {x}, cat(cat(members(p.covered_by(x)), {-1}), members(p.covers_of(x)))); } break;
      case 8: { BM s(n); if (n) for (int j = R(0, 8); j-- > 0;) s.insert(R(0, n - 1)); step("extrema", members(s), cat(cat(members(p.maxima(s)), {-1}), members(p.minima(s)))); break; }
      case 9: step("graph", {}, graph_list(p.hasseDiagram())); break;
      case 10: if (n) { long x = R(0, n - 1); step("graphto", {x}, graph_list(p.hasseDiagram(x))); } break;
      case 11: step("ncomp", {}, {(long)p.n_comparable()}); break;
      case 12: if (n) for (int j = 0; j < 4; ++j) { long x = R(0, n - 1), y = R(0, n - 1); step("le", {x, y}, {p.lesseq(x, y)}); } break;
      case 13: { poset::Poset q(0); q.swap(p); p = q; step("eq", {}, {p == q}); break; }
    }
  }
  end();
}
void pr(int len)
{ begin("pr", 0);
  for (int m = 0; m < len / 3; ++m)
  { long n = R(0, 4) ? R(0, 9) : R(0, 70), d = R(0, 2); std::vector<std::vector<unsigned int>> e(n); V a{n};
    std::vector<bool> pick; for (long i = 0; i < n; ++i) for (int j = R(0, d); j-- > 0;) { long t = R(0, 2) ? R(0, n - 1) : R(std::max(0l, i - 3), std::min(n - 1, i + 3)); e[i].push_back(t); a.push_back(i); a.push_back(t); }
    preorder::Preorder p(e.begin(), e.end());
    if (R(0, 2) == 0) { p = p.reversed(); p.closure(); V r; for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (p.relates(i, j)) { r.push_back(j); r.push_back(i); } step("rclosure", a, r); continue; }
    p.closure(); V r; for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (p.relates(i, j)) { r.push_back(i); r.push_back(j); }
    step("closure", a, r);
    V c; for (auto& l : p.cliques()) { V t = list(l.to_vector()); c.push_back(t.size()); c = cat(c, t); } step("cliques", a, c);
  }
  end();
}

int main(int argc, char** argv)
{ unsigned seed = atoi(argv[1]); int runs = atoi(argv[2]), len = atoi(argv[3]);
  for (int k = 4; k < argc; ++k)
    for (int i = 0; i < runs; ++i)
    { gen.seed(seed * 1000003u + k * 7919u + i);
      std::string s = argv[k];
      if (s == "bm") bm(len); else if (s == "bs") { if (i % 3) bs<2 * constants::RANK_MAX>(len); else bs<32>(len); }
      else if (s == "sl") sl<SL>(len, "sl"); else if (s == "pl") sl<PL>(len, "sl"); else if (s == "sq") sq(len); else if (s == "ht") ht(len);
      else if (s == "pt") pt(len); else if (s == "pm") pm(len); else if (s == "po") po(len); else if (s == "pr") pr(len); else return 2; }
}
