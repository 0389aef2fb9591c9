// Stand-in for BLAS/LAPACK/MKL PARDISO: the symbols that src/math/BlasHeaders.cc loads at run time.
// Sparse LU is Eigen's; PARDISO's own argument checks are made strict so misuse is seen.
#include <Eigen/Sparse>
#include <Eigen/SparseLU>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
typedef std::complex<double> Z;

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace {
template <typename T> void getrf(int m, int n, T *a, int lda, int *ipiv, int *info)
{
  *info = 0;
  int mn = m < n ? m : n;
  for (int j = 0; j < mn; ++j)
  {
    int p = j; double best = std::abs(a[j + size_t(j)*lda]);
    for (int i = j + 1; i < m; ++i)
      if (std::abs(a[i + size_t(j)*lda]) > best) { best = std::abs(a[i + size_t(j)*lda]); p = i; }
    ipiv[j] = p + 1;
    if (best == 0.0) { if (!*info) *info = j + 1; continue; }
    if (p != j) for (int k = 0; k < n; ++k) std::swap(a[j + size_t(k)*lda], a[p + size_t(k)*lda]);
    for (int i = j + 1; i < m; ++i) a[i + size_t(j)*lda] /= a[j + size_t(j)*lda];
    for (int k = j + 1; k < n; ++k)
    {
      T f = a[j + size_t(k)*lda];
      if (f != T(0)) for (int i = j + 1; i < m; ++i) a[i + size_t(k)*lda] -= a[i + size_t(j)*lda]*f;
    }
  }
}
template <typename T> void getrs(char tr, int n, int nrhs, const T *a, int lda, const int *ipiv, T *b, int ldb, int *info)
{
  *info = 0;
  for (int r = 0; r < nrhs; ++r)
  {
    T *x = b + size_t(r)*ldb;
    if (tr == 'N' || tr == 'n')
    {
      for (int i = 0; i < n; ++i) std::swap(x[i], x[ipiv[i]-1]);
      for (int i = 0; i < n; ++i) for (int k = 0; k < i; ++k) x[i] -= a[i + size_t(k)*lda]*x[k];
      for (int i = n; i-- > 0;) { for (int k = i+1; k < n; ++k) x[i] -= a[i + size_t(k)*lda]*x[k]; x[i] /= a[i + size_t(i)*lda]; }
    }
    else
    {
      for (int i = 0; i < n; ++i) { for (int k = 0; k < i; ++k) x[i] -= a[k + size_t(i)*lda]*x[k]; x[i] /= a[i + size_t(i)*lda]; }
      for (int i = n; i-- > 0;) for (int k = i+1; k < n; ++k) x[i] -= a[k + size_t(i)*lda]*x[k];
      for (int i = n; i-- > 0;) std::swap(x[i], x[ipiv[i]-1]);
    }
  }
}

// Blue-sky givens rotation: a*c + b*s = r, as BLAS rotg (a is overwritten with r)
void rotg(double *a, double *b, double *c, double *s)
{
  double r = std::hypot(*a, *b);
  if (r == 0.0) { *c = 1; *s = 0; *a = 0; *b = 0; return; }
  if (std::abs(*a) > std::abs(*b)) { if (*a < 0) r = -r; } else if (*b < 0) r = -r;
  *c = *a/r; *s = *b/r; *a = r; *b = 0;
}

template <typename T> struct Fact {
  int n = 0;
  std::vector<int> ia, ja;
  std::vector<T> a;
  Eigen::SparseMatrix<T, Eigen::RowMajor, int> m;
  Eigen::SparseLU<Eigen::SparseMatrix<T, Eigen::ColMajor, int>, Eigen::COLAMDOrdering<int>> lu, lut;
};
struct Handle {
  std::unique_ptr<Fact<double>> d;
  std::unique_ptr<Fact<Z>> z;
  bool analyzed = false, factored = false;
  std::vector<int> ia, ja;
};

[[noreturn]] void misuse(const std::string &w)
{
  fprintf(stderr, "MATHLIB-MISUSE: %s\n", w.c_str());
  fflush(stderr);
  abort();
}

template <typename T> bool factor(std::unique_ptr<Fact<T>> &f, int n, const T *a, const int *ia, const int *ja)
{
  f.reset(new Fact<T>);
  f->n = n;
  // Eigen does not return for a matrix without entries
  if (ia[n] == 0) return false;
  f->a.assign(a, a + ia[n]);
  std::vector<Eigen::Triplet<T>> t;
  for (int i = 0; i < n; ++i)
    for (int k = ia[i]; k < ia[i+1]; ++k)
      t.emplace_back(i, ja[k], a[k]);
  f->m.resize(n, n);
  f->m.setFromTriplets(t.begin(), t.end());
  Eigen::SparseMatrix<T, Eigen::ColMajor, int> c(f->m), ct(f->m.transpose());
  c.makeCompressed(); ct.makeCompressed();
  f->lu.compute(c);
  if (f->lu.info() != Eigen::Success) return false;
  f->lut.compute(ct);
  return f->lut.info() == Eigen::Success;
}
template <typename T> bool solve(Fact<T> &f, bool trans, const T *b, T *x)
{
  Eigen::Map<const Eigen::Matrix<T, Eigen::Dynamic, 1>> B(b, f.n);
  Eigen::Matrix<T, Eigen::Dynamic, 1> X = trans ? f.lut.solve(B) : f.lu.solve(B);
  // one step of iterative refinement
  Eigen::Matrix<T, Eigen::Dynamic, 1> R = trans ? (B - f.m.transpose()*X).eval() : (B - f.m*X).eval();
  X += trans ? f.lut.solve(R) : f.lu.solve(R);
  for (int i = 0; i < f.n; ++i) x[i] = X[i];
  return true;
}
}

EXPORT void dgetrf_(int *m, int *n, double *a, int *lda, int *ipiv, int *info) { getrf(*m, *n, a, *lda, ipiv, info); }
EXPORT void zgetrf_(int *m, int *n, Z *a, int *lda, int *ipiv, int *info) { getrf(*m, *n, a, *lda, ipiv, info); }
EXPORT void dgetrs_(char *t, int *n, int *nrhs, double *a, int *lda, int *ipiv, double *b, int *ldb, int *info) { getrs(*t, *n, *nrhs, a, *lda, ipiv, b, *ldb, info); }
EXPORT void zgetrs_(char *t, int *n, int *nrhs, Z *a, int *lda, int *ipiv, Z *b, int *ldb, int *info) { getrs(*t, *n, *nrhs, a, *lda, ipiv, b, *ldb, info); }
EXPORT void drotg_(double *a, double *b, double *c, double *s) { rotg(a, b, c, s); }
EXPORT void zrotg_(Z *a, Z *b, double *c, Z *s)
{
  double na = std::abs(*a);
  if (na == 0.0) { *c = 0; *s = Z(1, 0); *a = *b; return; }
  double norm = std::hypot(na, std::abs(*b));
  Z alpha = *a/na;
  *c = na/norm; *s = alpha*std::conj(*b)/norm; *a = alpha*norm;
}

#ifndef NO_PARDISO
EXPORT void mkl_get_version_string(char *s, int l)
{
  const char *v = "verif stand-in for MKL PARDISO";
  memset(s, ' ', l);
  memcpy(s, v, strlen(v));
}

// faults asked for by a monitor: the given phase fails with the given error after some calls; and the calls made
static int fail_phase = 0, fail_after = 0, fail_error = -4;
static long calls_made[64];
EXPORT void verif_fail(int phase, int after, int error) { fail_phase = phase; fail_after = after; fail_error = error; }
EXPORT long verif_calls(int phase) { return phase == -1 ? calls_made[63] : calls_made[phase]; }

EXPORT void PARDISO(void *pt, const int *maxfct, const int *mnum, const int *mtype, const int *phase, const int *n,
                    const void *a, const int *ia, const int *ja, int *, const int *nrhs, int *iparm,
                    const int *, void *b, void *x, int *error)
{
  Handle **hp = reinterpret_cast<Handle **>(pt);
  *error = 0;
  ++calls_made[*phase == -1 ? 63 : *phase & 63];
  if (*phase == fail_phase && fail_after-- <= 0)
  {
    // some errors leave the result as it was
    if (*phase == 33 && fail_error % 2) for (int i = 0; i < *n; ++i) static_cast<double *>(x)[i] = 1e3;
    *error = fail_error;
    return;
  }
  if (*phase == -1) { delete *hp; *hp = nullptr; return; }
  if (!*hp) { if (*phase != 11) misuse("phase without analysis"); *hp = new Handle; }
  Handle &h = **hp;
  if (iparm[34] != 1) misuse("one based indexing");
  if (*mtype != 11 && *mtype != 13) misuse("mtype");
  if (*nrhs != 1 || *maxfct != 1 || *mnum != 1) misuse("nrhs, maxfct or mnum");
  if (*phase == 11 || *phase == 22)
  {
    // CSR well-formedness, as iparm[26] (matrix checker) would do
    if (ia[0] != 0) misuse("ia[0]");
    for (int i = 0; i < *n; ++i)
    {
      if (ia[i+1] < ia[i]) misuse("ia decreases");
      for (int k = ia[i]; k < ia[i+1]; ++k)
      {
        if (ja[k] < 0 || ja[k] >= *n) misuse("column out of range");
        if (k > ia[i] && ja[k] <= ja[k-1]) misuse("columns not increasing");
      }
    }
    std::vector<int> via(ia, ia + *n + 1), vja(ja, ja + ia[*n]);
    if (*phase == 11) { h.ia = via; h.ja = vja; h.analyzed = true; h.factored = false; return; }
    if (!h.analyzed) misuse("factorization without analysis");
    if (h.ia != via || h.ja != vja) misuse("numerical factorization with a pattern other than the analyzed one");
    bool ok = *mtype == 11 ? factor(h.d, *n, static_cast<const double *>(a), ia, ja)
                           : factor(h.z, *n, static_cast<const Z *>(a), ia, ja);
    h.factored = ok;
    if (!ok) *error = -4;
    return;
  }
  if (*phase == 33)
  {
    if (!h.factored) misuse("solve without factorization");
    // the solve phase takes the matrix as well, for iterative refinement
    if (!std::equal(h.ia.begin(), h.ia.end(), ia) || !std::equal(h.ja.begin(), h.ja.end(), ja)) misuse("solve with a pattern other than the factored one");
    if (*mtype == 11 ? memcmp(h.d->a.data(), a, h.d->a.size()*sizeof(double)) : memcmp(static_cast<const void *>(h.z->a.data()), a, h.z->a.size()*sizeof(Z)))
      misuse("solve with values other than the factored ones");
    bool trans = iparm[11] == 2;
    if (*mtype == 11) solve(*h.d, trans, static_cast<const double *>(b), static_cast<double *>(x));
    else solve(*h.z, trans, static_cast<const Z *>(b), static_cast<Z *>(x));
    return;
  }
  misuse("phase");
}
#endif
