// Random histories of sparse matrices, dense factorisations, direct and iterative solves, against dense arithmetic.
// Loaded into a Python process; linked with the libraries of the simulator's build.
#include "CompressedMatrix.hh"
#include "DenseMatrix.hh"
#include "MKLPardisoPreconditioner.hh"
#include "BlockPreconditioner.hh"
#include "DirectLinearSolver.hh"
#include "IterativeLinearSolver.hh"
#include "gmres.hh"
#include "BlasHeaders.hh"
#include "MathEnum.hh"
#include "Float128.hh"
#include <memory>
#include <random>
#include <string>
#include <sstream>
#include <map>
#include <set>
#include <cstring>
#include <cmath>
#include <complex>

using namespace dsMath;
typedef std::complex<long double> LC;

namespace {
std::mt19937_64 rng;
double uni(double a, double b) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(rng); }
int pick(int n) { return static_cast<int>(rng() % n); }

std::map<std::string, long> counts;
struct Bad { std::string key, msg; };
std::vector<Bad> bad;
std::string where;

void fail(const std::string &key, const std::string &msg) { if (bad.size() < 20) bad.push_back({key, where + ": " + msg}); }
bool check(bool ok, const char *key, const std::string &msg) { ++counts["checks"]; if (!ok) fail(key, msg); return ok; }
std::string str(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }

template <typename T> double real_of(const T &x) { return static_cast<double>(x); }

template <typename T> struct Eps;
template <> struct Eps<double> { static long double v() { return 2.3e-16L; } };
template <> struct Eps<float128> { static long double v() { return 1e-33L; } };

// values that add without rounding
double exact() { return std::ldexp(static_cast<double>(pick(2001) - 1000), -pick(4)); }

struct Dense
{
  int n;
  std::vector<double> re, im;
  std::set<std::pair<int, int>> slots;
  explicit Dense(int n_) : n(n_), re(n_ * n_), im(n_ * n_) {}
};

template <typename T> bool well_formed(CompressedMatrix<T> &m, const Dense &d)
{
  const IntVec_t &ap = m.GetAp(), &ai = m.GetAi();
  const bool csc = m.GetCompressionType() == CompressionType::CCM;
  const bool cpx = m.GetMatrixType() == MatrixType::COMPLEX;
  if (!check(static_cast<int>(ap.size()) == d.n + 1 && ap[0] == 0 && ap[d.n] == static_cast<int>(ai.size()), "pointers", "pointers of the compressed matrix")) return false;
  if (!check(m.GetAx().size() == ai.size() && (!cpx || m.GetAz().size() == ai.size()), "sizes", "as many values as indexes")) return false;
  if (!check(&m.GetRows() == (csc ? &ai : &ap) && &m.GetCols() == (csc ? &ap : &ai), "storage", "rows and columns of the storage")) return false;
  std::vector<double> re(d.n * d.n), im(d.n * d.n);
  std::set<std::pair<int, int>> seen;
  for (int i = 0; i < d.n; ++i)
  {
    if (!check(ap[i] <= ap[i + 1], "pointers", "pointers decrease")) return false;
    for (int k = ap[i]; k < ap[i + 1]; ++k)
    {
      if (!check(ai[k] >= 0 && ai[k] < d.n, "range", "index out of range")) return false;
      if (!check(k == ap[i] || ai[k] > ai[k - 1], "order", "indexes of a column or row not increasing")) return false;
      int r = csc ? ai[k] : i, c = csc ? i : ai[k];
      re[r * d.n + c] = real_of(m.GetAx()[k]);
      if (cpx) im[r * d.n + c] = real_of(m.GetAz()[k]);
      seen.insert({r, c});
    }
  }
  bool ok = true;
  for (int i = 0; i < d.n * d.n; ++i)
  {
    ok = check(re[i] == d.re[i] && im[i] == d.im[i], "sum", "entry " + std::to_string(i / d.n) + "," + std::to_string(i % d.n) + " is " + str(re[i]) + "," + str(im[i]) + " and not the accumulated " + str(d.re[i]) + "," + str(d.im[i])) && ok;
    if (!ok) return false;
  }
  for (const auto &s : d.slots) if (!check(seen.count(s), "missing", "an accumulated entry is missing")) return false;
  if (cpx)
  {
    const auto &z = m.GetComplex();
    for (size_t k = 0; k < z.size(); ++k)
      if (!check(z[k].real() == m.GetAx()[k] && z[k].imag() == m.GetAz()[k], "complex", "complex value differs from its parts")) return false;
  }
  return true;
}

template <typename T, typename V> void products(CompressedMatrix<T> &m, const Dense &d, bool cpx)
{
  typedef std::vector<V> Vec;
  for (int t = 0; t < 2; ++t)
  {
    Vec x(d.n), y;
    std::vector<std::complex<double>> xd(d.n);
    for (int i = 0; i < d.n; ++i)
    {
      double a = exact(), b = cpx ? exact() : 0.0;
      if constexpr (std::is_same<V, T>::value) x[i] = static_cast<T>(a);
      else x[i] = V(static_cast<T>(a), static_cast<T>(b));
      xd[i] = {a, b};
    }
    if (pick(2)) y.resize(pick(3 * d.n + 1));
    if (t == 0) m.Multiply(x, y); else m.TransposeMultiply(x, y);
    if (!check(static_cast<int>(y.size()) == d.n, "product", "size of a product")) return;
    for (int i = 0; i < d.n; ++i)
    {
      std::complex<double> s = 0;
      for (int j = 0; j < d.n; ++j)
      {
        std::complex<double> a = t == 0 ? std::complex<double>(d.re[i * d.n + j], cpx ? d.im[i * d.n + j] : 0) : std::complex<double>(d.re[j * d.n + i], cpx ? d.im[j * d.n + i] : 0);
        s += a * xd[j];
      }
      double gr, gi = 0;
      if constexpr (std::is_same<V, T>::value) gr = real_of(y[i]);
      else { gr = real_of(y[i].real()); gi = real_of(y[i].imag()); }
      if (!check(gr == s.real() && (gi == s.imag() || !cpx), t ? "transpose-product" : "product", "product " + str(gr) + "," + str(gi) + " and not " + str(s.real()) + "," + str(s.imag()))) return;
    }
    ++counts[t ? "transposed_products" : "products"];
  }
}

// accumulation, finalisation, clearing and entries outside of the pattern, in any order
template <typename T> void accumulate()
{
  int n = 1 + pick(pick(4) ? 12 : 60);
  bool cpx = pick(2), csc = pick(2);
  CompressedMatrix<T> m(n, cpx ? MatrixType::COMPLEX : MatrixType::REAL, csc ? CompressionType::CCM : CompressionType::CRM);
  Dense d(n);
  std::vector<int> last_ap, last_ai;
  int rounds = 1 + pick(5);
  double density = uni(0, 4);
  for (int r = 0; r < rounds; ++r)
  {
    int sub = 1 + pick(3);
    for (int q = 0; q < sub; ++q)
    {
      int k = static_cast<int>(density * n * uni(0, 1));
      for (int i = 0; i < k; ++i)
      {
        int a = pick(n), b = pick(n);
        double v = pick(12) ? exact() : 0.0;
        if (cpx && pick(2))
        {
          double w = pick(5) ? exact() : 0.0;
          if (pick(2)) { m.AddEntry(a, b, ComplexDouble_t<T>(static_cast<T>(v), static_cast<T>(w))); d.re[a * n + b] += v; d.im[a * n + b] += w; if (v != 0 || w != 0) d.slots.insert({a, b}); }
          else { m.AddImagEntry(a, b, static_cast<T>(w)); d.im[a * n + b] += w; if (w != 0) d.slots.insert({a, b}); }
        }
        else
        {
          m.AddEntry(a, b, static_cast<T>(v));
          d.re[a * n + b] += v;
          if (v != 0) d.slots.insert({a, b});
          if (pick(8) == 0) { m.AddEntry(a, b, static_cast<T>(-d.re[a * n + b])); d.re[a * n + b] = 0; ++counts["cancelled"]; }
        }
      }
      m.Finalize();
      if (!well_formed(m, d)) return;
      bool same = last_ap == m.GetAp() && last_ai == m.GetAi();
      if (m.GetSymbolicStatus() == SymbolicStatus_t::SAME_SYMBOLIC)
      {
        check(same, "symbolic", "the pattern changed and is said to be the same");
        ++counts["same_symbolic"];
      }
      else ++counts["new_symbolic"];
      last_ap = m.GetAp(); last_ai = m.GetAi();
      ++counts["finalised"];
      if (cpx) products<T, ComplexDouble_t<T>>(m, d, true);
      else products<T, T>(m, d, false);
    }
    if (r + 1 < rounds)
    {
      if (pick(6) == 0) { for (int i = 0; i < n; ++i) { int a = pick(n), b = pick(n); double v = exact(); m.AddEntry(a, b, static_cast<T>(v)); } ++counts["cleared_unfinished"]; m.ClearMatrix(); m.Finalize(); last_ap = m.GetAp(); last_ai = m.GetAi(); }
      m.ClearMatrix();
      std::fill(d.re.begin(), d.re.end(), 0.0); std::fill(d.im.begin(), d.im.end(), 0.0);
      ++counts["cleared"];
    }
  }
}

long double mag(const LC &x) { return std::abs(x); }

// residual of x in A x = b (or its transpose) against the size of its terms
template <typename A, typename B> bool solves(const std::vector<A> &a, int n, bool trans, const std::vector<B> &x, const std::vector<B> &b, long double eps, const char *key)
{
  auto lc = [](const auto &v) { typedef typename std::decay<decltype(v)>::type W; if constexpr (std::is_same<W, double>::value || std::is_same<W, float128>::value) return LC(static_cast<long double>(static_cast<double>(v)), 0);
                                else return LC(static_cast<long double>(static_cast<double>(v.real())), static_cast<long double>(static_cast<double>(v.imag()))); };
  (void)eps;
  long double worst = 0;
  std::vector<long double> xm(n);
  long double xmax = 0, amax = 0;
  for (int i = 0; i < n; ++i) { LC v = lc(x[i]); if (!std::isfinite(v.real()) || !std::isfinite(v.imag())) return check(false, key, "the solution is not finite"); xmax = std::max(xmax, mag(v)); }
  for (int i = 0; i < n; ++i)
  {
    LC s = -lc(b[i]);
    long double t = mag(lc(b[i]));
    for (int j = 0; j < n; ++j) { LC v = lc(trans ? a[j * n + i] : a[i * n + j]); s += v * lc(x[j]); amax = std::max(amax, mag(v)); }
    t += amax * xmax * n;
    worst = std::max(worst, mag(s) / (t + 1e-300L));
  }
  return check(worst <= eps, key, "relative residual " + str(static_cast<double>(worst)) + " of a solution of " + std::to_string(n) + " equations");
}

template <typename T> void random_system(std::vector<T> &a, int n, double density, double dominance)
{
  a.assign(n * n, T(0));
  for (int i = 0; i < n * n; ++i) if (uni(0, 1) * n < density)
  {
    if constexpr (std::is_same<T, double>::value) a[i] = uni(-1, 1); else a[i] = T(uni(-1, 1), uni(-1, 1));
  }
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  if (dominance == 0) std::shuffle(p.begin(), p.end(), rng);
  for (int i = 0; i < n; ++i) a[i * n + p[i]] += (dominance > 0 ? dominance : 3.0) * (pick(2) ? 1 : -1);
}

// direct solver: real, complex, transposed, factored again with the same and other patterns
template <typename T> void direct()
{
  int n = 1 + pick(pick(3) ? 10 : 40);
  bool cpx = pick(2), trans = pick(2);
  std::unique_ptr<Preconditioner<T>> held(new MKLPardisoPreconditioner<T>(n, trans ? PEnum::TransposeType_t::TRANS : PEnum::TransposeType_t::NOTRANS));
  Preconditioner<T> &pre = *held;
  CompressedMatrix<T> m(n, cpx ? MatrixType::COMPLEX : MatrixType::REAL, cpx ? pre.GetComplexMatrixCompressionType() : pre.GetRealMatrixCompressionType());
  DirectLinearSolver<T> solver;
  double density = uni(0, 4);
  int rounds = 1 + pick(4);
  std::vector<double> ar;
  std::vector<std::complex<double>> ac;
  for (int r = 0; r < rounds; ++r)
  {
    bool singular = pick(8) == 0;
    random_system(ar, n, density, 0);
    random_system(ac, n, density, 0);
    if (singular)
    {
      int k = pick(n);
      for (int i = 0; i < n; ++i) { if (pick(2)) ar[k * n + i] = 0; else ar[i * n + k] = 0; }
      bool row = pick(2);
      for (int i = 0; i < n; ++i) { ar[row ? k * n + i : i * n + k] = 0; ac[row ? k * n + i : i * n + k] = 0; }
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    {
      if (cpx) m.AddEntry(i, j, ComplexDouble_t<T>(static_cast<T>(ac[i * n + j].real()), static_cast<T>(ac[i * n + j].imag())));
      else m.AddEntry(i, j, static_cast<T>(ar[i * n + j]));
    }
    m.Finalize();
    int solves_per = 1 + pick(2);
    bool ok = true;
    for (int s = 0; s < solves_per && ok; ++s)
    {
      if (cpx)
      {
        ComplexDoubleVec_t<T> b(n), x(pick(2) ? n : 0);
        for (auto &v : b) v = ComplexDouble_t<T>(static_cast<T>(uni(-1, 1)), static_cast<T>(uni(-1, 1)));
        auto b0 = b;
        ok = s ? pre.LUSolve(x, b) : (trans ? solver.NoiseSolve(m, pre, x, b) : solver.ACSolve(m, pre, x, b));
        if (ok) { check(b == b0, "rhs", "the right hand side changed"); solves(ac, n, trans, x, b, 1e-13L, "complex-solve"); }
      }
      else
      {
        DoubleVec_t<T> b(n), x(pick(2) ? n : 0);
        for (auto &v : b) v = static_cast<T>(uni(-1, 1));
        auto b0 = b;
        ok = s ? pre.LUSolve(x, b) : solver.Solve(m, pre, x, b);
        if (ok) { check(b == b0, "rhs", "the right hand side changed"); solves(ar, n, trans, x, b, 1e-13L, "solve"); }
      }
      ++counts[cpx ? (trans ? "complex_transposed" : "complex_solves") : (trans ? "real_transposed" : "real_solves")];
    }
    check(!singular || !ok, "singular", "a singular matrix was solved");
    if (singular) ++counts["singular"];
    m.ClearMatrix();
    if (!ok) break;
  }
}

// dense factorisation in both precisions
template <typename T> void dense()
{
  int n = 1 + pick(8);
  bool singular = pick(6) == 0;
  std::vector<T> a(n * n);
  for (auto &v : a) v = static_cast<T>(pick(19) - 9) / static_cast<T>(1 + pick(7));
  for (int i = 0; i < n; ++i) a[i * n + (i * 7 + 3) % n] += static_cast<T>(0);
  for (int i = 0; i < n; ++i) a[i * n + i] += static_cast<T>(pick(2) ? 10 : -10);
  if (pick(2)) for (int i = 0; i < n; ++i) std::swap(a[0 * n + i], a[(n - 1) * n + i]);
  if (singular) { int k = pick(n); for (int i = 0; i < n; ++i) a[i * n + k] = 0; }
  RealDenseMatrix<T> m(n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = a[i * n + j];
  bool ok = m.LUFactor();
  check(ok == !singular, "dense-singular", singular ? "a singular dense matrix was factored" : "a regular dense matrix was not factored");
  if (singular) { ++counts["dense_singular"]; return; }
  for (int s = 0; s < 2; ++s)
  {
    std::vector<T> b(n), x;
    for (auto &v : b) v = static_cast<T>(pick(19) - 9);
    x = b;
    if (!check(m.Solve(x.data()), "dense-solve", "a dense solve failed")) return;
    T worst = 0;
    for (int i = 0; i < n; ++i)
    {
      T r = -b[i], t = b[i] < 0 ? -b[i] : b[i];
      for (int j = 0; j < n; ++j) { T p = a[i * n + j] * x[j]; r += p; t += p < 0 ? -p : p; }
      if (r < 0) r = -r;
      if (t > 0 && r / t > worst) worst = r / t;
    }
    long double lim = std::is_same<T, double>::value ? 1e-13L : 1e-30L;
    check(static_cast<long double>(real_of(worst)) <= lim, "dense-solve", "relative residual " + str(real_of(worst)) + " of a dense solve");
    ++counts[std::is_same<T, double>::value ? "dense_double" : "dense_extended"];
  }
}

// the iterative solver, and the method alone with a direct preconditioner of another matrix
void iterative()
{
  int n = 1 + pick(pick(3) ? 15 : 45);
  bool block = pick(2);
  std::vector<double> a;
  random_system(a, n, uni(0, 4), 4.5);
  CompressedMatrix<double> m(n, MatrixType::REAL, CompressionType::CCM);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.AddEntry(i, j, a[i * n + j]);
  m.Finalize();
  DoubleVec_t<double> b(n), x(n);
  for (auto &v : b) v = pick(4) ? uni(-1, 1) : 0.0;
  bool zero = pick(12) == 0;
  if (zero) std::fill(b.begin(), b.end(), 0.0);
  zero = true;
  for (auto v : b) zero = zero && v == 0.0;
  if (block)
  {
    std::unique_ptr<Preconditioner<double>> held(new BlockPreconditioner<double>(n, PEnum::TransposeType_t::NOTRANS));
    Preconditioner<double> &pre = *held;
    IterativeLinearSolver<double> solver;
    for (int r = 0; r < 2; ++r)
    {
      std::fill(x.begin(), x.end(), 0.0);
      bool ok = solver.Solve(m, pre, x, b);
      if (check(ok, "iterative", "a diagonally dominant system was not solved") && !zero) solves(a, n, false, x, b, 1e-8L, "iterative");
      for (auto v : x) if (!check(std::isfinite(v) && (!zero || std::abs(v) < 1e-10), "iterative", "a value that is not finite, or not zero without a right hand side")) break;
      ++counts["iterative"];
      m.ClearMatrix();
      random_system(a, n, uni(0, 4), 4.5);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.AddEntry(i, j, a[i * n + j]);
      m.Finalize();
    }
  }
  else
  {
    std::unique_ptr<Preconditioner<double>> held(new MKLPardisoPreconditioner<double>(n, PEnum::TransposeType_t::NOTRANS));
    Preconditioner<double> &pre = *held;
    CompressedMatrix<double> p(n, MatrixType::REAL, pre.GetRealMatrixCompressionType());
    bool same = pick(4) == 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i == j || same) p.AddEntry(i, j, a[i * n + j]);
    p.Finalize();
    if (!check(pre.LUFactor(&p), "iterative", "the preconditioner was not factored")) return;
    if (pick(2)) for (auto &v : x) v = uni(-1, 1);
    int restart = 2 + pick(60), iter = restart * (1 + pick(20));
    double tol = 1e-12;
    int ret = GMRES(m, x, b, pre, restart, iter, tol);
    if (ret == 0) { if (!zero) solves(a, n, false, x, b, 1e-10L, "gmres"); else for (auto v : x) check(std::abs(v) < 1e-10, "gmres", "the solution of a system without right hand side is not zero"); ++counts["gmres_converged"]; check(tol <= 1e-12, "gmres", "converged with a residual above the tolerance"); }
    else { check(restart < n, "gmres", "GMRES did not converge in as many iterations as unknowns"); ++counts["gmres_unconverged"]; }
    for (auto v : x) if (!check(std::isfinite(v), "gmres-finite", "GMRES gave a value that is not finite")) break;
    ++counts["gmres"];
  }
  if (zero) ++counts["zero_rhs"];
}
}

extern "C" const char *linalg_run(unsigned long seed, int n, const char *only)
{
  static std::string out;
  out.clear(); bad.clear(); counts.clear();
  static bool loaded = false;
  if (!loaded)
  {
    std::string err;
    auto r = MathLoader::LoadMathLibraries(err);
    if (r != MathLoader::LoaderMessages_t::MKL_LOADED) { out = "{\"error\": \"math libraries\"}"; return out.c_str(); }
    loaded = true;
  }
  const char *names[] = {"accumulate", "accumulate128", "direct", "direct128", "dense", "dense128", "iterative"};
  for (int i = 0; i < n; ++i)
  {
    int k = i % 7;
    if (only && *only && std::string(only) != names[k]) continue;
    rng.seed(seed * 1000003ul + i);
    where = std::string(names[k]) + "#" + std::to_string(i);
    try
    {
      switch (k)
      {
        case 0: accumulate<double>(); break;
        case 1: accumulate<float128>(); break;
        case 2: direct<double>(); break;
        case 3: direct<float128>(); break;
        case 4: dense<double>(); break;
        case 5: dense<float128>(); break;
        case 6: iterative(); break;
      }
    }
    catch (const std::exception &e) { fail("exception", e.what()); }
    catch (...) { fail("exception", "an exception that is not a std::exception"); }
    ++counts[names[k]];
  }
  std::ostringstream o;
  o << "{\"counts\": {";
  bool first = true;
  for (auto &c : counts) { o << (first ? "" : ", ") << "\"" << c.first << "\": " << c.second; first = false; }
  o << "}, \"bad\": [";
  first = true;
  for (auto &b : bad)
  {
    std::string t;
    for (char ch : b.msg) { if (ch == '"' || ch == '\\') t += '\\'; if (ch >= 32) t += ch; else t += ' '; }
    o << (first ? "" : ", ") << "[\"" << b.key << "\", \"" << t << "\"]";
    first = false;
  }
  o << "]}";
  out = o.str();
  return out.c_str();
}
