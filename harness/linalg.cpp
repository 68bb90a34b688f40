// records questions to the linear algebra functions with their answers, for LinAlg.tla and F2.tla
// usage: linalg SEED N       output: one JSON record per line
#include <iostream>
#include <random>
#include <algorithm>
#include <vector>
#include "Atlas.h"
#include "bitvector.h"
#include "subquotient.h"
#include "matrix.h"
#include "matreduc.h"
#include "lattice.h"
#include "bigint.h"
using namespace atlas;
using M = int_Matrix; using W = int_Vector;
using V = std::vector<long>;
std::mt19937 gen;
long R(long a, long b) { return a >= b ? a : a + long(gen() % (unsigned long)(b - a + 1)); }
std::ostream& O = std::cout;
template<typename T> void list(const T& v) { O << '['; bool f = true; for (auto x : v) { O << (f ? "" : ",") << (long)x; f = false; } O << ']'; }
// a matrix as [rows, columns...]
void mat(const M& A) { O << "{\"r\":" << A.n_rows() << ",\"c\":["; for (unsigned j = 0; j < A.n_columns(); ++j) { O << (j ? "," : ""); list(A.column(j)); } O << "]}"; }
void rec(const char* op) { O << "{\"op\":\"" << op << '"'; }
void f(const char* n, const M& A) { O << ",\"" << n << "\":"; mat(A); }
template<typename T> void f(const char* n, const std::vector<T>& v) { O << ",\"" << n << "\":"; list(v); }
void f(const char* n, long x) { O << ",\"" << n << "\":" << x; }
void end() { O << "}\n"; if (getenv("FLUSHOPS")) O << std::flush; }
long big(const arithmetic::big_int& b) { return b.convert<int>(); }

M rmat(unsigned m, unsigned n)
{ M A(m, n, 0); long top = R(0, 3) == 0 ? 9 : R(1, 4), dens = R(0, 3);
  for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < n; ++j) A(i, j) = R(0, 3) < dens ? 0 : R(-top, top);
  if (m > 1 and R(0, 3) == 0) { unsigned i = R(0, m - 1), k = R(0, m - 1); long c = R(-2, 2); for (unsigned j = 0; j < n; ++j) A(i, j) = c * A(k, j); }
  if (n > 1 and R(0, 3) == 0) { unsigned i = R(0, n - 1), k = R(0, n - 1); long c = R(-2, 2); for (unsigned j = 0; j < m; ++j) A(j, i) = c * A(j, k); }
  if (R(0, 5) == 0 and m == n) { A = M(m, m, 0); for (unsigned i = 0; i < m; ++i) { A(i, i) = 2; if (i) { A(i - 1, i) = -1; A(i, i - 1) = R(0, 4) ? -1 : -2; } } }
  if (R(0, 4) == 0) for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < n; ++j) A(i, j) = i == j ? (long)std::vector<long>{1, 2, 3, 4, 6, 10, 0}[R(0, 6)] : 0;
  return A; }
W rvec(unsigned m, long t) { W v(m, 0); for (auto& x : v) x = R(0, 2) ? R(-t, t) : 0; return v; }
M unimod(unsigned n, unsigned ops) { M A(n); if (n > 1) while (ops-- > 0) { unsigned i = R(0, n - 1), j = R(0, n - 1); if (i != j) { if (R(0, 3)) A.columnOperation(i, j, R(-1, 1)); else { A.swapColumns(i, j); A.columnMultiply(i, -1); } } } return A; }

void integer()
{ unsigned m = R(0, 9) ? R(1, 4) : R(0, 5), n = R(0, 9) ? R(1, 4) : R(0, 5);
  switch (R(0, 13))
  { case 0: { W v = rvec(R(0, 6), R(1, 30)); bool flip = false; long g = matreduc::gcd(v, static_cast<M*>(nullptr), flip); rec("gcd"); f("v", v); f("d", g); end();
      M C; flip = false; unsigned dest = v.size() and R(0, 1) ? R(0, v.size() - 1) : 0; g = matreduc::gcd(v, &C, flip, dest); rec("bezout"); f("v", v); f("d", g); f("C", C); f("s", flip ? -1 : 1); f("dest", dest); end(); break; }
    case 1: case 2: { M A = rmat(m, n), E = A, C; bool flip = R(0, 1); auto p = matreduc::column_echelon(E, C, flip); std::vector<long> piv(p.begin(), p.end()); rec("echelon"); f("A", A); f("E", E); f("C", C); f("piv", piv); f("s", flip ? -1 : 1); end();
      W b = R(0, 1) ? A * rvec(n, 3) : rvec(m, 6); if (R(0, 2) == 0) { long c = R(2, 4); for (auto& x : b) if (x % c != 0) c = 1; for (auto& x : b) x /= c; }
      rec("esolve"); f("A", A); f("E", E); f("b", b); try { arithmetic::big_int fac; W x = matreduc::echelon_solve(E, p, b, fac); f("x", x); f("f", big(fac)); } catch (std::runtime_error&) { f("x", W()); f("f", 0); } end(); break; }
    case 3: case 4: { M A = rmat(m, n), P, C; auto d = matreduc::diagonalise(A, P, C); rec("diag"); f("A", A); f("R", P); f("C", C); f("d", d); end(); break; }
    case 5: { M A = rmat(m, n); std::vector<int> d; M B = matreduc::adapted_basis(A, d); rec("adapted"); f("A", A); f("B", B); f("d", d); end(); break; }
    case 6: { M A = rmat(m, n); std::vector<int> d; M B = matreduc::Smith_basis(A, d); rec("smith"); f("A", A); f("B", B); f("d", d); end(); break; }
    case 7: { M A = rmat(m, n); rec("kernel"); f("A", A); f("K", lattice::kernel(A)); end(); break; }
    case 8: { M A = rmat(m, m); int l = R(-3, 3); if (m and R(0, 2) == 0) { A = unimod(m, 5); l = R(0, 1) ? 1 : -1; } rec("eigen"); f("A", A); f("l", l); f("K", lattice::eigen_lattice(A, l)); end(); break; }
    case 9: { M A = rmat(m, n); rec("saturate"); f("A", A); f("S", lattice::row_saturate(A)); end();
      auto P = lattice::perp(A); rec("perp"); f("A", A); M K(m, P.size()); for (unsigned j = 0; j < P.size(); ++j) K.set_column(j, P[j]); f("K", K); end(); break; }
    case 10: { M A = R(0, 2) ? rmat(m, m) : unimod(m, 12); arithmetic::big_int d; M B = R(0, 1) ? matrix::inverse(A, d) : A.inverse(d); rec("inverse"); f("A", A); f("B", B); f("f", big(d)); end();
      rec("integral"); f("A", A); try { M C = A.inverse(); f("B", C); f("ok", 1); } catch (std::runtime_error&) { f("B", M()); f("ok", 0); } end(); break; }
    case 11: { M A = rmat(m, n); W b = R(0, 2) ? A * rvec(n, 3) : rvec(m, 6); if (R(0, 2) == 0) { long c = R(2, 3); for (auto& x : b) if (x % c != 0) c = 1; for (auto& x : b) x /= c; }
      bool h = matreduc::has_solution(A, b); rec("solve"); f("A", A); f("b", b); f("has", h); try { W x = matreduc::find_solution(A, b); f("x", x); f("ok", 1); } catch (std::runtime_error&) { f("x", W()); f("ok", 0); } end(); break; }
    case 12: { unsigned r = R(1, 5); bool up = true; matrix::Matrix<int> T(r); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < i; ++j) (up ? T(j, i) : T(i, j)) = R(-3, 3); if (R(0, 5) == 0) { if (r > 1 and R(0, 1)) (up ? T(r - 1, 0) : T(0, r - 1)) = 0; else T(R(0, r - 1), 0) += 0; }
      M A(T); rec("triangular"); f("A", A); f("B", M(matrix::inverse_upper_triangular(T))); end(); break; }
    case 13: { unsigned r = R(1, 4); M B = rmat(r, r); W x = rvec(r, 4); arithmetic::big_int d; M I = B.inverse(d); if (d.is_zero()) break; WeightList b, w, res; for (unsigned j = 0; j < r; ++j) b.push_back(B.column(j)); M X(r, 0u, 0);
      { std::vector<W> xs; for (int k = R(0, 3); k-- > 0;) { W y = rvec(r, 4); xs.push_back(y); w.push_back(B * y); } X = M(xs, r); }
      lattice::baseChange(w.begin(), w.end(), std::back_inserter(res), b.begin(), b.end()); rec("base"); f("A", B); M Y(res, r); f("X", X); f("Y", Y); end(); break; }
  }
}

// ---- vectors over the field of two elements: as lists of positions
template<unsigned d> V bv(const BitVector<d>& v) { V r; for (unsigned i = 0; i < v.size(); ++i) if (v[i]) r.push_back(i); if (v.data().count() != r.size()) r.push_back(-1); return r; }
template<unsigned d> V bs(const BitSet<d>& s) { V r; for (auto it = s.begin(); it(); ++it) r.push_back(*it); return r; }
using BV = SmallBitVector; using BL = SmallBitVectorList; using BM = BinaryMap; using Sub = SmallSubspace; using Quo = SmallSubquotient;
void f(const char* n, const BV& v) { O << ",\"" << n << "\":"; list(bv(v)); }
void f(const char* n, const BL& L) { O << ",\"" << n << "\":["; for (size_t i = 0; i < L.size(); ++i) { O << (i ? "," : ""); list(bv(L[i])); } O << ']'; }
void f(const char* n, const BM& A) { O << ",\"" << n << "\":{\"r\":" << A.n_rows() << ",\"c\":["; for (unsigned j = 0; j < A.n_columns(); ++j) { O << (j ? "," : ""); list(bv(A.column(j))); } O << "]}"; }
BV rbv(unsigned n) { BV v(n); long den = R(1, 4); for (unsigned i = 0; i < n; ++i) if (R(0, 4) < den) v.set(i); return v; }
BL rlist(unsigned n, unsigned k) { BL L; while (k-- > 0) { BV v = rbv(n); if (L.size() and R(0, 3) == 0) { v = L[R(0, L.size() - 1)]; if (R(0, 1)) v += L[R(0, L.size() - 1)]; } L.push_back(v); } return L; }
BV comb(const BL& L, unsigned n) { BV v(n); for (auto& x : L) if (R(0, 1)) v += x; return v; }
void sub(const char* n, const Sub& s) { f(n, s.basis()); std::string t = std::string(n) + "s"; f(t.c_str(), bs(s.support())); t = std::string(n) + "n"; f(t.c_str(), V{(long)s.rank(), (long)s.dimension()}); }
void binary()
{ const unsigned top = constants::RANK_MAX; unsigned n = R(0, 5) ? R(1, 7) : R(0, 1) ? top : R(8, top), k = R(0, 5) ? R(0, 6) : std::min<unsigned>(n, 12), m = R(0, 5) ? R(1, 6) : std::min<unsigned>(top, n + 2);
  switch (R(0, 12))
  { case 0: { BL L = rlist(n, k); BM A(L, n); rec("image"); f("A", A); f("L", A.image()); f("n", n); end(); rec("bkernel"); f("A", A); f("L", A.kernel()); f("n", n); end();
      BL rows; for (unsigned i = 0; i < n; ++i) rows.push_back(A.row(i)); BM T = A; T.transpose(); rec("transposed"); f("A", A); f("B", T); f("L", rows); end(); break; }
    case 1: { BM A(rlist(n, k), n); rec("section"); f("A", A); f("B", A.section()); end(); break; }
    case 2: { BM A(rlist(n, k), n); BM B(rlist(k, R(0, 5)), k); BM C = A; C *= B; rec("product"); f("A", A); f("B", B); f("C", C); end(); BM D(rlist(n, k), n), S = A; S += D; rec("sum"); f("A", A); f("B", D); f("C", S); end();
      BV v = rbv(k), w = rbv(n); rec("act"); f("A", A); f("v", v); f("w", w); f("av", A * v); f("wa", A.right_act(w)); f("wb", w * A); end(); break; }
    case 3: { BL L = rlist(n, k); Sub s(L, n); rec("subspace"); f("L", L); f("n", n); sub("S", s); end(); Sub t(BM(L, n)); rec("subspace"); f("L", L); f("n", n); sub("S", t); end();
      rec("perpendicular"); f("L", L); f("n", n); f("P", s.basis_perp()); f("ps", bs(s.support_perp())); end(); break; }
    case 4: { BL L = rlist(n, k); Sub s(L, n); BV v = R(0, 1) ? comb(L, n) : rbv(n); BL two; two.push_back(v); two.push_back(comb(L, n)); rec("member"); f("L", L); f("n", n); f("v", v); f("in", s.contains(v)); f("all", s.contains(two)); f("rep", s.representative(v)); BV w = v; s.mod_reduce(w); f("red", w); if (s.contains(v)) { f("co", s.toBasis(v)); f("back", s.fromBasis(s.toBasis(v))); } else { f("co", V()); f("back", v); } end(); break; }
    case 5: { BL L = rlist(n, k); Sub s(L, n); BM A(rlist(m, n), m); s.apply(A); rec("applied"); f("L", L); f("A", A); sub("S", s); end(); break; }
    case 6: case 7: { BL L = rlist(n, k), D; for (int j = R(0, 3); j-- > 0;) D.push_back(comb(L, n)); Quo q(L, D, n); BV v = comb(L, n), c = rbv(q.dimension());
      rec("quotient"); f("L", L); f("D", D); f("n", n); f("dim", q.dimension()); f("size", q.dimension() < 20 ? q.size() : 0); f("rank", q.rank()); f("sup", bs(q.support())); f("bits", bs(q.significantBits())); f("B", q.basis()); f("v", v); f("red", q.mod_image(v)); f("co", q.toBasis(v)); f("c", c); f("ext", q.fromBasis(c)); f("cc", q.toBasis(q.fromBasis(c))); end();
      BM A(rlist(m, n), m); Quo t = q; t.apply(A); rec("qapplied"); f("L", L); f("D", D); f("A", A); f("n", n); sub("S", t.space()); sub("T", t.denominator()); f("sup", bs(t.support())); end();
      BL dl, dd; for (auto& x : L) dl.push_back(A * x); for (auto& x : D) dd.push_back(A * x); for (int j = R(0, 2); j-- > 0;) dl.push_back(rbv(m)); { BV u = comb(dl, m); if (R(0, 1)) dd.push_back(u); } Quo dst(dl, dd, m);
      rec("qmap"); f("L", L); f("D", D); f("DL", dl); f("DD", dd); f("A", A); f("n", n); f("m", m); f("F", subquotient::subquotientMap(q, dst, A)); end(); break; }
    case 8: { BL L = rlist(n, k); BV v = R(0, 1) ? comb(L, n) : rbv(n); BitSet<constants::RANK_MAX> c; c.set(R(0, 3)); auto before = c; bool e = bitvector::combination_exists(L, v, c); rec("combine"); f("L", L); f("v", v); f("n", n); f("in", e); f("c", bs(c)); f("old", bs(before)); end(); break; }
    case 9: { unsigned u = R(1, 6), q = R(1, 7); std::vector<BinaryEquation> eq; V all; BL lhs; V rhs; BV x = rbv(u); bool force = R(0, 1); for (unsigned i = 0; i < q; ++i) { BV a = rbv(u); bool r = force ? a.dot(x) : R(0, 1); lhs.push_back(a); if (r) rhs.push_back(i); eq.push_back(bitvector::make_equation(a, r)); }
      BV sol(0); bool e = bitvector::solvable(eq, sol); rec("solvable"); f("L", lhs); f("rhs", rhs); f("u", u); f("ok", e); if (e) { f("x", sol); f("xs", sol.size()); } else { f("x", V()); f("xs", u); } end(); break; }
    case 10: { BL L = rlist(n, k); BitSet<constants::RANK_MAX> t; BL G = L; bitvector::Gauss_Jordan(t, G); rec("gauss"); f("L", L); f("G", G); f("t", bs(t)); f("n", n); end();
      std::vector<BitVector<constants::RANK_MAX> > a, b; std::vector<size_t> fa, fb; for (auto& v : L) { bitvector::normalSpanAdd(a, fa, v); bitvector::spanAdd(b, fb, v); } rec("spanadd"); f("L", L); f("a", BL(a)); f("b", BL(b)); f("fa", V(fa.begin(), fa.end())); f("fb", V(fb.begin(), fb.end())); f("n", n); end(); break; }
    case 11: { BV v = rbv(n), w = rbv(n); W z(n, 0); for (auto& x : z) x = R(-5, 5); BV zz(z); rec("vectors"); f("v", v); f("w", w); f("n", n); f("sum", v + w); f("dif", v - w); f("dot", v.dot(w)); f("first", v.nonZero() ? (long)v.firstBit() : -1); f("count", v.count()); f("zero", v.isZero()); f("eq", v == w); f("z", z); f("zz", zz); f("lift", bitvector::lift(v));
      BV p = v; p &= w; f("and", p); BV s = v; s.slice(w.data()); f("slice", s); f("sn", s.size()); BV u = rbv(w.count()); f("u", u); u.unslice(w.data(), n); f("unslice", u); f("un", u.size()); BV q = v; bool bit = R(0, 1); if (n < top) q.pushBack(bit); f("bit", bit and n < top); f("push", q); f("pn", q.size() - (n < top)); end(); break; }
    case 12: { M Z = rmat(R(1, 5), R(1, 5)); BM A(Z); rec("reduce"); f("Z", Z); f("A", A); BV v = rbv(Z.n_rows()); unsigned j = R(0, Z.n_columns() - 1); A.addToColumn(j, v); A.addColumn(v); unsigned i = R(0, Z.n_rows() - 1), l = R(0, Z.n_columns() - 1); bool b = R(0, 1); A.set(i, l, b); f("v", v); f("j", j); f("i", i); f("l", l); f("b", b); f("B", A); end(); break; }
  }
}
int main(int argc, char** argv)
{ unsigned seed = atoi(argv[1]); int n = atoi(argv[2]);
  for (int run = 0; run < n; ++run) { gen.seed(seed * 100003u + run); if (run % 2) integer(); else binary(); }
  O << std::flush; }
