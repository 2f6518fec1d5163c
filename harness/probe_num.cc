// Exhaustive enumeration of inputs of the truncation, of the eigensolvers and of the binning, with oracles of its own.
// Usage: probe_num trunc|eig|bins SIZE PART PARTS  -- prints "VIOL key | text" lines and a final "DONE count" line.
#include <map>
#include "mpi_single.hpp"
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <memory>
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
#include <nrg-general.hpp>
using namespace NRG;
using cd = std::complex<double>;
static FILE *OUT;
static long part, parts, counter, evals, nviol, states;
static int SIZE;
static void viol(const std::string &key, const std::string &text) { static std::map<std::string, int> n; nviol++; if (n[key]++ < 10) { std::fprintf(OUT, "VIOL %s | %s\n", key.c_str(), text.c_str()); std::fflush(OUT); } }
template <typename V> static std::string list(const V &v) { std::ostringstream o; o.precision(17); o << '['; bool f = true; for (const auto &x : v) { if (!f) o << ' '; f = false; o << x; } o << ']'; return o.str(); }

// ------------------------------------------------------------------ truncation
static const int NSTEP = 4;
struct Opt { size_t keep; double keepenergy; size_t keepmin; double safeguard; size_t sgmax; int last; std::string keepall; int absolute; double fixeps; int N = 2; bool lastall = false; };
static std::string str(const Opt &o) {
  std::ostringstream s; s << "keep=" << o.keep << " keepenergy=" << o.keepenergy << " keepmin=" << o.keepmin << " safeguard=" << o.safeguard << " safeguardmax=" << o.sgmax
    << " lastall=" << o.lastall << " step=" << o.N << '/' << NSTEP << " keepall=" << o.keepall << " absolute=" << o.absolute << " fixeps=" << o.fixeps; return s.str();
}
using Spec = std::vector<std::vector<double>>;
template <scalar S> void trunc_case(Params &P, const Opt &o, const Spec &sp, const std::vector<int> &extra) {
  evals++;
  Step step{P, RUNTYPE::NRG};
  step.set(o.N);
  const double u = o.absolute ? P.SCALE(int(step.ndx()) + 1) : 1.0;
  // the oracle: energies from the lowest one, near-degenerate ones identified with the lowest of their cluster
  double egs = 1e300; for (const auto &v : sp) for (auto x : v) egs = std::min(egs, x);
  std::vector<double> all; for (const auto &v : sp) for (auto x : v) all.push_back(x - egs);
  std::sort(all.begin(), all.end());
  std::map<double, double> rep; double c0 = all[0];
  for (auto x : all) { if (x - c0 >= o.fixeps) c0 = x; rep[x] = c0; }
  for (auto &x : all) x = rep[x];
  const size_t n = all.size(); size_t base;
  bool every = o.keepall == "even" ? step.ndx() % 2 == 0 : o.keepall == "odd" ? step.ndx() % 2 == 1 : false;
  if (o.keepall == "1,2") every = step.ndx() == 1 || step.ndx() == 2;
  if (o.keepall == "3") every = step.ndx() == 3;
  if (o.keepenergy <= 0) base = o.keep;
  else { size_t c = 1; for (auto x : all) if (x <= o.keepenergy * u) c++; base = std::max(o.keepmin, std::min(o.keep, c)); base = std::min(base, o.keep); }
  if (every || base >= n) base = n;
  else if (o.safeguard > 0) { const size_t b0 = base; while (base < n && base - b0 < o.sgmax && all[base] - all[base - 1] <= o.safeguard) base++; }
  const double cmax = all[base - 1];
  bool notenough = false; std::vector<size_t> want;
  for (size_t i = 0; i < sp.size(); i++) {
    size_t k = 0; for (auto x : sp[i]) if (rep[x - egs] <= cmax) k++;
    if (o.last) k = sp[i].size();
    want.push_back(k);
    if (extra[i] && k == sp[i].size() && rep[sp[i].back() - egs] != cmax) notenough = true;
  }
  // the solver
  DiagInfo<S> d; std::vector<Invar> inv; bool thrown = false; std::string exc;
  Stats<S> *st = nullptr;
  static Stats<S> stats(P, {}, 0.0); st = &stats;
  for (size_t i = 0; i < sp.size(); i++) {
    Invar I(int(i), int(i % 3) + 1); inv.push_back(I);
    RawEigen<S> raw(sp[i].size(), sp[i].size() + extra[i]);
    for (size_t j = 0; j < sp[i].size(); j++) { raw.val[j] = sp[i][j]; for (size_t k = 0; k < sp[i].size() + extra[i]; k++) raw.vec(j, k) = j == k ? 1 : 0; }
    d[I] = NRG::Eigen<S>(std::move(raw), step);
  }
  const auto mult = [](const Invar &I) { return size_t(I.getqn(1)); };
  try {
    initialize_diag_energy_reference(P, *st, d);
    fix_diag_splittings(d, P);
    truncate_prepare(step, d, mult, P);
  } catch (NotEnough &) { thrown = true; }
  catch (std::exception &e) { exc = e.what(); for (auto &c : exc) if (c == '\n') c = ' '; }
  const auto where = [&] { std::ostringstream s; s << str(o) << " spectra"; for (size_t i = 0; i < sp.size(); i++) s << ' ' << list(sp[i]) << '+' << extra[i]; return s.str(); };
  if (!exc.empty()) { viol("exception", exc.substr(0, 150) + " with " + where()); return; }
  if (thrown != notenough) { viol("notenough", std::string(thrown ? "more states are demanded although the kept ones are certain: " : "kept states are not certain, more should be computed: ") + where()); return; }
  std::ostringstream bad; bad.precision(17);
  for (size_t i = 0; i < sp.size(); i++) {
    const auto &e = d.at(inv[i]);
    if (e.getnrkept() != want[i]) { bad << "subspace " << i << " keeps " << e.getnrkept() << " states instead of " << want[i]; break; }
    for (size_t j = 0; j < sp[i].size(); j++) if (e.values.corr(j) != rep[sp[i][j] - egs]) bad << "energy " << j << " of subspace " << i << " is " << e.values.corr(j);
    if (e.getnrdiscarded() != sp[i].size() - want[i] || e.getnrall() != sp[i].size() || e.getdim() != sp[i].size() + extra[i]) bad << "numbers of states of subspace " << i;
    const size_t b = o.N == NSTEP - 1 ? 0 : want[i];   // in the last step all states count as discarded
    if (e.Krange().size() != b || (b && *e.Krange().begin() != 0) || e.Drange().size() != sp[i].size() - b || (b < sp[i].size() && size_t(*e.Drange().begin()) != b)) bad << "kept/discarded ranges of subspace " << i;
    if (e.kept().size() != want[i] || e.discarded().size() != sp[i].size() - want[i] || e.all().size() != sp[i].size() || e.stored().size() != sp[i].size()) bad << "ranges of subspace " << i;
    if (size_t(std::distance(e.value_corr_kept().begin(), e.value_corr_kept().end())) != want[i]) bad << "kept energies of subspace " << i;
    StoredEigen<S> s{e, o.N == NSTEP - 1};
    if (s.kept() != want[i] || s.total() != sp[i].size() + extra[i] || s.min() != b || s.max() != s.total()) bad << "stored dimensions of subspace " << i;
  }
  if (!thrown && bad.str().empty()) {
    truncate_stats ts(d, mult); size_t a = 0, am = 0, k = 0, km = 0;
    for (size_t i = 0; i < sp.size(); i++) { const size_t m = i % 3 + 1; a += sp[i].size() + extra[i]; am += m * (sp[i].size() + extra[i]); k += want[i]; km += m * want[i]; }
    if (ts.nrall != a || ts.nrallmult != am || ts.nrkept != k || ts.nrkeptmult != km) bad << "statistics of the truncation";
    d.truncate_perform();
    for (size_t i = 0; i < sp.size(); i++) if (d.at(inv[i]).getnrstored() != want[i] || d.size_subspace(inv[i]) != want[i]) bad << "stored states of subspace " << i << " after the truncation";
  }
  if (!bad.str().empty()) viol("kept", bad.str() + " with " + where());
}
static void set(Params &P, const Opt &o) {
  P.keep = o.keep; P.keepenergy = o.keepenergy; P.keepmin = o.keepmin; P.safeguard = o.safeguard; P.safeguardmax = o.sgmax; P.keepall = o.keepall;
  P.absolute = bool(o.absolute); P.fixeps = o.fixeps; P.lastall = o.lastall;
}
static void run_trunc() {
  Invar::invdim = 2; Invar::qntype = {additive, additive};
  Params P; P.symtype = std::string("QS"); P.set_channels_and_combs(1); P.Nmax = NSTEP; P.Lambda = 4.0;
  const double g = 1.0 / 64;
  // (dyadic numbers: all differences are exact)
  std::vector<std::vector<double>> alph = {{0, 0.25, 0.25 + g / 2, 0.25 + 1.5 * g, 0.25 + 2.5 * g, 1}, {-1, -0.5, -0.5 + g, 0.5}};
  const int maxn[2] = {SIZE ? 8 : 5, SIZE ? 9 : 6};
  for (int a = 0; a < 2; a++) {
    const auto &A = alph[a];
    // spectra: up to three subspaces, each an ascending multiset
    std::vector<Spec> specs;
    std::function<void(Spec &, int)> grow = [&](Spec &s, int left) {
      if (!s.empty()) specs.push_back(s);
      if (s.size() == 3 || left == 0) return;
      std::function<void(std::vector<double> &, size_t, int)> add = [&](std::vector<double> &v, size_t from, int l) {
        if (!v.empty()) { s.push_back(v); Spec t = s; if (s.size() < 2 || s[s.size() - 2].size() >= v.size()) grow(t, l); s.pop_back(); }
        if (l == 0) return;
        for (size_t i = from; i < A.size(); i++) { v.push_back(A[i]); add(v, i, l - 1); v.pop_back(); }
      };
      std::vector<double> v; add(v, 0, left);
    };
    Spec s; grow(s, maxn[a]);
    std::vector<Opt> opts;
    for (size_t keep : {2, 3, 4, 6})
      for (double ke : {-1.0, 0.25, 0.26, 1.0})
        for (size_t km : {0, 2, 3}) {
          if (ke <= 0 && km) continue;
          if (km > keep) continue;
          for (double sg : {0.0, g, g / 2})
            for (size_t sm : {0, 1, 2, 200}) {
              if (sg == 0 && sm) continue;
              for (double fe : {1e-15, 0.75 * g}) opts.push_back({keep, ke, km, sg, sm, 0, "", 0, fe});
            }
        }
    for (size_t keep : {2, 4}) for (double ke : {-1.0, 0.25}) for (double sg : {0.0, g}) {
      opts.push_back({keep, ke, 0, sg, 200, 1, "", 0, 1e-15, NSTEP - 1, true});
      opts.push_back({keep, ke, 0, sg, 200, 0, "", 0, 1e-15, NSTEP - 1, false});
      for (int N : {0, 2}) opts.push_back({keep, ke, 0, sg, 200, 0, "", 0, 1e-15, N, true});
      opts.push_back({keep, ke, 0, sg, 200, 0, "", 1, 1e-15});
      for (const char *ka : {"even", "odd", "1,2", "3"}) for (int N = 0; N < NSTEP; N++) opts.push_back({keep, ke, 0, sg, 200, 0, ka, 0, 1e-15, N});
    }
    // near-degenerate dense spectra are explored with all settings, the others with every third one
    for (size_t io = 0; io < opts.size(); io++) {
      if (counter++ % parts != part) continue;
      set(P, opts[io]);
      for (size_t is = 0; is < specs.size(); is++) {
        const auto &sp = specs[is];
        size_t tot = 0; for (auto &v : sp) tot += v.size();
        if (int(tot) > maxn[a] - (SIZE ? 2 : 1) && (io + is) % 3) continue;
        states++;
        for (int m = 0; m < (1 << sp.size()); m++) for (int by : {1, 2}) {
          if ((tot > 4 && m && (is + m) % 3) || (!m && by == 2) || (tot > 3 && m && int(is + m) % 2 == by - 1)) continue;
          std::vector<int> ex; for (size_t i = 0; i < sp.size(); i++) ex.push_back((m >> i) & 1 ? by : 0);
          if ((io + is) % 2) trunc_case<double>(P, opts[io], sp, ex); else trunc_case<cd>(P, opts[io], sp, ex);
        }
      }
    }
  }
}

// ------------------------------------------------------------------ eigensolvers
// eigenvalues by Jacobi rotations of the real symmetric matrix (a Hermitian one is embedded, all values appear twice)
static std::vector<double> jacobi(std::vector<std::vector<double>> a) {
  const size_t n = a.size();
  double s = 0; for (auto &r : a) for (auto x : r) s = std::max(s, std::abs(x));
  if (s == 0) return std::vector<double>(n, 0.0);
  for (auto &r : a) for (auto &x : r) x /= s;
  for (int sweep = 0; sweep < 60; sweep++) {
    double off = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) off += a[i][j] * a[i][j];
    if (off < 1e-28) break;
    for (size_t p = 0; p < n; p++) for (size_t q = p + 1; q < n; q++) {
      if (a[p][q] == 0) continue;
      const double th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), sn = t * c;
      for (size_t k = 0; k < n; k++) { const double x = a[k][p], y = a[k][q]; a[k][p] = c * x - sn * y; a[k][q] = sn * x + c * y; }
      for (size_t k = 0; k < n; k++) { const double x = a[p][k], y = a[q][k]; a[p][k] = c * x - sn * y; a[q][k] = sn * x + c * y; }
    }
  }
  std::vector<double> v(n); for (size_t i = 0; i < n; i++) v[i] = a[i][i] * s;
  std::sort(v.begin(), v.end()); return v;
}
static cd cj(cd x) { return std::conj(x); }
static double cj(double x) { return x; }
template <scalar S> using M = std::vector<std::vector<S>>;
static std::vector<double> spectrum(const M<double> &h) { return jacobi(h); }
static std::vector<double> spectrum(const M<cd> &h) {
  const size_t n = h.size(); M<double> a(2 * n, std::vector<double>(2 * n));
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { a[i][j] = a[n + i][n + j] = h[i][j].real(); a[i][n + j] = -h[i][j].imag(); a[n + i][j] = h[i][j].imag(); }
  auto v = jacobi(a); std::vector<double> r; for (size_t i = 0; i < v.size(); i += 2) r.push_back(v[i]); return r;
}
// What the library routine itself does with the matrix, called directly: 1 = it reports that it cannot deliver (then the solver has to
// raise an error), 2 = it delivers vectors that are no eigenvectors without any report, 0 = it delivers.
static long refused = 0;
template <scalar S> int library(const M<S> &h, size_t want, bool index_range, double tol) {
  lapack_int n = lapack_int(h.size()), il = 1, iu = lapack_int(want), mm = 0, info = 0, lwork = 200 * n, lrwork = 200 * n, liwork = 50 * n;
  char jobz = 'V', range = index_range ? 'I' : 'A', uplo = 'L'; double vl = 0, vu = 0, abstol = 0;
  std::vector<double> w(n), rwork(lrwork); std::vector<lapack_int> iwork(liwork), supp(2 * n); std::vector<S> z(n * n), a(n * n), work(lwork);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i * n + j] = h[i][j];
  if constexpr (std::is_same_v<S, double>)
    LAPACK_dsyevr(&jobz, &range, &uplo, &n, a.data(), &n, &vl, &vu, &il, &iu, &abstol, &mm, w.data(), z.data(), &n, supp.data(), work.data(), &lwork, iwork.data(), &liwork, &info);
  else
    LAPACK_zheevr(&jobz, &range, &uplo, &n, (lapack_complex_double *)a.data(), &n, &vl, &vu, &il, &iu, &abstol, &mm, w.data(), (lapack_complex_double *)z.data(), &n, supp.data(), (lapack_complex_double *)work.data(), &lwork, rwork.data(), &lrwork, iwork.data(), &liwork, &info);
  if (info > 0) return 1;
  for (int k = 0; k < mm; k++) {
    for (int j = 0; j < n; j++) { S s{}; for (int i = 0; i < n; i++) s += z[k * n + i] * h[i][j]; if (!(std::abs(s - w[k] * z[k * n + j]) <= 10 * tol)) return 2; }
    for (int l = 0; l <= k; l++) { S s{}; for (int i = 0; i < n; i++) s += cj(z[l * n + i]) * z[k * n + i]; if (!(std::abs(s - S(l == k)) <= 1e-11)) return 2; }
  }
  return 0;
}
template <scalar S> void eig_case(const M<S> &h, const std::vector<double> *know, const std::string &desc) {   // h: full Hermitian matrix
  const size_t n = h.size();
  states++;
  const auto ev = know ? *know : spectrum(h);
  double norm = 0; for (auto x : ev) norm = std::max(norm, std::abs(x));
  const double tol = 1e-11 * std::max(1.0, std::sqrt(double(n))) * norm;
  std::vector<std::pair<std::string, double>> runs;
  const std::vector<double> ratios = {1.0, 0.999, 0.67, 0.5, 0.34, 0.01};
  if constexpr (std::is_same_v<S, double>) { runs = {{"dsyev", 1.0}, {"dsyevd", 1.0}, {"default", 0.5}}; for (auto r : ratios) runs.emplace_back("dsyevr", r); }
  else { runs = {{"zheev", 1.0}, {"zheevd", 1.0}, {"default", 0.5}}; for (auto r : ratios) runs.emplace_back("zheevr", r); }
  for (const auto &[name, ratio] : runs) for (int saveram = 0; saveram < 2; saveram++) {
    evals++;
    Matrix_traits<S> m(n, n);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) m(i, j) = j >= i ? h[i][j] : S(0);
    DiagParams DP; DP.diag = name; DP.diagratio = ratio; DP.saveram = saveram; DP.logall = false;
    const auto where = [&] {
      std::ostringstream o; o.precision(17); o << name << " ratio=" << ratio << " saveram=" << saveram << ' ' << desc;
      if (n <= 6) { o << " matrix"; for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) o << ' ' << h[i][j]; }
      return o.str();
    };
    RawEigen<S> r;
    try { r = diagonalise(m, DP, -1); }
    catch (std::exception &e) {
      const size_t k = std::min<size_t>(n, std::max<size_t>(1, size_t(std::ceil(ratio * double(n) - 1e-12))));
      if (std::string(name).ends_with("evr") && library(h, k, ratio != 1.0, tol) == 1) { refused++; continue; }
      std::string x = e.what(); for (auto &c : x) if (c == '\n') c = ' '; viol("exception", x.substr(0, 120) + " with " + where()); continue; }
    const bool partial = name == "dsyevr" || name == "zheevr";
    const size_t want = partial ? std::min<size_t>(n, std::max<size_t>(1, size_t(std::ceil(ratio * double(n) - 1e-12)))) : n;
    std::ostringstream bad; bad.precision(17);
    if (r.getnrcomputed() != want || r.getdim() != n || r.val.size() != want) bad << "returns " << r.getnrcomputed() << " eigenpairs of length " << r.getdim() << " instead of " << want << " of length " << n;
    else {
      for (size_t k = 0; k < want && bad.str().empty(); k++) {
        if (!std::isfinite(r.val[k]) || !(std::abs(r.val[k] - ev[k]) <= tol)) { bad << "eigenvalue " << k << " is " << r.val[k] << " instead of " << ev[k]; break; }
        if (k && r.val[k] < r.val[k - 1]) { bad << "eigenvalues " << k - 1 << ", " << k << " are not ascending"; break; }
        for (size_t j = 0; j < n; j++) {
          S s{}; for (size_t i = 0; i < n; i++) s += r.vec(k, i) * h[i][j];
          if (!(std::abs(s - r.val[k] * r.vec(k, j)) <= 10 * tol)) { bad << "eigenvector " << k << " violates the eigenvalue equation by " << std::abs(s - r.val[k] * r.vec(k, j)) << ' '; break; }
        }
        for (size_t l = 0; l <= k; l++) {
          S s{}; for (size_t i = 0; i < n; i++) s += cj(r.vec(l, i)) * r.vec(k, i);
          if (!(std::abs(s - S(l == k)) <= 1e-11)) { bad << "eigenvectors " << l << ", " << k << " have overlap " << std::abs(s); break; }
        }
      }
    }
    if (!bad.str().empty()) {
      std::ostringstream key; key << name;
      if (partial && n <= 6 && library(h, want, ratio != 1.0, tol) == 2) key << ": the library call with an index range delivers vectors that are no eigenvectors";
      viol(key.str(), bad.str() + ": " + where());
    }
  }
}
template <scalar S> void eig_enum(size_t n, const std::vector<double> &dg, const std::vector<S> &off) {
  const size_t no = n * (n - 1) / 2; double tot = std::pow(dg.size(), n) * std::pow(off.size(), no);
  for (long c = 0; c < long(tot + 0.5); c++) {
    if (counter++ % parts != part) continue;
    long x = c; M<S> h(n, std::vector<S>(n));
    for (size_t i = 0; i < n; i++) { h[i][i] = dg[x % dg.size()]; x /= dg.size(); }
    for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { h[i][j] = off[x % off.size()]; h[j][i] = cj(h[i][j]); x /= off.size(); }
    eig_case<S>(h, nullptr, "");
  }
}
// structured matrices of larger dimension
template <scalar S> void eig_struct() {
  const std::vector<size_t> sizes = SIZE ? std::vector<size_t>{5, 6, 7, 8, 12, 16, 20, 25, 26, 27, 32, 33, 48, 64, 65, 100} : std::vector<size_t>{5, 8, 20, 26, 33, 50};
  for (auto n : sizes) for (int fam = 0; fam < 9; fam++) for (double sc : {1.0, 1e-12, 1e12}) {
    if (sc != 1.0 && n > 33) continue;
    if (counter++ % parts != part) continue;
    M<S> h(n, std::vector<S>(n));
    auto put = [&](size_t i, size_t j, S x) { h[i][j] = x; h[j][i] = cj(x); };
    S ph = 1.0; if constexpr (std::is_same_v<S, cd>) ph = cd(0.6, 0.8);
    for (size_t i = 0; i < n; i++) switch (fam) {
      case 0: put(i, i, double((i * 7) % 4)); break;                                                           // diagonal, degenerate, unordered
      case 1: put(i, i, std::abs(double(i) - double(n - 1) / 2)); if (i + 1 < n) put(i, i + 1, ph); break;      // Wilkinson: pairs of nearly equal eigenvalues
      case 2: put(i, i, 0.0); if (i + 1 < n) put(i, i + 1, ph * std::pow(2.0, -double(i) / 2)); break;          // Wilson chain
      case 3: for (size_t j = i; j < n; j++) put(i, j, i == j ? S(1.0) : (i < n / 2 && j >= n / 2) ? ph : S(1.0)); break; // rank one, phases
      case 4: put(i, i, double(i % (n / 2))); if (i % (n / 2) + 1 < n / 2 && i < 2 * (n / 2)) put(i, i + 1, ph * 0.5); break; // two equal blocks
      case 5: for (size_t j = i; j < n; j++) put(i, j, (i == j ? S(1.0) : ph) / double(i + j + 1)); break;      // Hilbert
      case 6: put(i, n - 1 - i, i == n - 1 - i ? S(1.0) : i < n - 1 - i ? ph : cj(ph)); break;                  // antidiagonal
      case 7: put(i, i, std::pow(10.0, -double(i % 16))); if (i) put(0, i, ph * 1e-9); break;                   // graded arrow
      case 8: for (size_t j = i; j < n; j++) put(i, j, i == j ? S(double((i * i) % 11)) : ((i * 31 + j * 17) % 5 == 0 ? ph * double(int((i + 2 * j) % 7) - 3) : S(0))); break; // sparse
    }
    if (fam == 3) for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) put(i, j, (i < n / 2 ? S(1) : cj(ph)) * (j < n / 2 ? S(1) : ph));
    for (auto &r : h) for (auto &x : r) x *= sc;
    eig_case<S>(h, nullptr, "n=" + std::to_string(n) + " family " + std::to_string(fam) + " scale " + std::to_string(std::log10(sc)));
  }
}
// names of routines that do not exist, or belong to the other number field: no result may be delivered
template <scalar S> void eig_bad() {
  std::vector<std::string> names; if constexpr (std::is_same_v<S, double>) names = {"zheev", "zheevd", "zheevr"}; else names = {"dsyev", "dsyevd", "dsyevr"};
  for (auto x : {"nonsense", "", "cuda", "cuda_dsyevd", "cuda_zheevd", "DSYEV"}) names.push_back(x);
  for (const auto &name : names) for (size_t n : {1, 2, 5}) {
    if (counter++ % parts != part) continue;
    evals++;
    Matrix_traits<S> m(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) m(i, j) = i == j ? S(double(i)) : j > i ? S(0.25) : S(0);
    DiagParams DP; DP.diag = name; DP.diagratio = 1.0; DP.logall = false;
    bool got = false;
    try { auto d = diagonalise(m, DP, -1); got = d.val.size() > 0; } catch (std::exception &) {}
    if (got) viol("name", "the routine name '" + name + "' is accepted for " + (std::is_same_v<S, double> ? "real" : "complex") + " matrices");
  }
}
static void run_eig() {
  eig_bad<double>(); eig_bad<cd>();
  const std::vector<double> a = {0, 1, -1, 0.5, 2};
  for (size_t n : {1, 2, 3}) eig_enum<double>(n, SIZE && n == 3 ? std::vector<double>{0, 1, -1, 0.5, 2, 1e-9, 1e9} : a, a);
  eig_enum<double>(4, {0, 1, -1}, SIZE ? std::vector<double>{0, 1, -1} : std::vector<double>{0, 1});
  if (!SIZE) eig_enum<double>(4, {0, 1}, {0, 1, -1});
  eig_enum<double>(5, {0, 1}, {0, 1});
  if (SIZE) { eig_enum<double>(4, {0, 1, 0.5}, {0, 1, -1, 0.5}); eig_enum<double>(5, {0, 1}, {0, 1, -1}); eig_enum<double>(6, {0, 1}, {0, 1}); }
  const std::vector<cd> z = {{0, 0}, {1, 0}, {0, 1}, {0, -1}, {1, 1}, {-0.5, 2}};
  for (size_t n : {1, 2, 3}) eig_enum<cd>(n, {0, 1, -1}, z);
  eig_enum<cd>(4, {0, 1}, SIZE ? std::vector<cd>{{0, 0}, {1, 0}, {0, 1}, {-1, -1}} : std::vector<cd>{{0, 0}, {1, 0}, {0, 1}});
  eig_struct<double>(); eig_struct<cd>();
}

// ------------------------------------------------------------------ binning
struct BinCfg { int bins; double emin, emax, acc, lin, di, dt; };
template <typename W> static bool close_w(W a, W b, double scale) { return std::abs(a - b) <= 1e-11 * scale; }
template <scalar S> void bins_cfg(const BinCfg &c, int depth) {
  using W = weight_traits<S>;
  Params P; P.symtype = std::string("QS"); P.set_channels_and_combs(1); P.Nmax = 8; P.Lambda = 2.0; P.T = 0.01;
  P.bins = size_t(c.bins); P.emin = c.emin; P.emax = c.emax; P.accumulation = c.acc; P.linstep = c.lin; P.discard_immediately = c.di; P.discard_trim = c.dt;
  P.savebins = true; P.broaden = false; P.reim = true;
  const double emin = c.emin > 0 ? c.emin : P.SCALE(8) / 100, emax = c.emax > 0 ? c.emax : P.SCALE(0) * 100;
  const auto cfg = [&] { std::ostringstream o; o << "bins=" << c.bins << " emin=" << c.emin << " emax=" << c.emax << " accumulation=" << c.acc << " linstep=" << c.lin << " discard_immediately=" << c.di << " discard_trim=" << c.dt; return o.str(); };
  Bins<S> empty(P);
  std::vector<double> g; for (const auto &x : empty.bins) { g.push_back(x.first); if (x.second != W{}) { viol("grid", "a new mesh is not empty: " + cfg()); return; } }
  // the mesh: ascending, positive, covers [emin, emax] with c.bins points per decade
  for (size_t i = 0; i < g.size(); i++) if (!(g[i] > 0) || (i && g[i] < g[i - 1])) { viol("grid", "mesh is not ascending and positive: " + cfg()); return; }
  if (c.acc <= 0) {
    const double l0 = std::floor(std::log10(emin)), l1 = std::ceil(std::log10(emax));
    const size_t n = size_t(std::lround((l1 - l0) * c.bins)) + 1;
    if (g.size() != n) { viol("grid", "mesh of " + std::to_string(g.size()) + " points instead of " + std::to_string(n) + ": " + cfg()); return; }
    for (size_t i = 0; i < n; i++) if (std::abs(g[i] - std::pow(10.0, l0 + double(i) / c.bins)) > 1e-12 * g[i]) { viol("grid", "mesh point " + std::to_string(i) + ": " + cfg()); return; }
  } else {
    // logarithmic about the accumulation point, linear below it, and a point at zero
    std::vector<double> w{DBL_MIN};
    for (double e = emin; e <= emax; e *= std::pow(10.0, 1.0 / c.bins)) w.push_back((emax - c.acc) / emax * e + c.acc);
    if (c.lin > 0) for (double e = c.acc; e > 0; e -= c.lin) w.push_back(e);
    std::sort(w.begin(), w.end());
    bool same = w.size() == g.size(); for (size_t i = 0; same && i < w.size(); i++) same = std::abs(w[i] - g[i]) <= 1e-12 * w[i];
    if (!same) { viol("grid", "mesh with accumulation point: " + cfg()); return; }
  }
  const size_t n = g.size();
  std::vector<double> E = {0, 1e-310, g[0], g[0] * 0.5, emin, emin * (1 - 1e-9), emin * (1 + 1e-9), g[1], (g[1] + g[2]) / 2, g[n / 2], std::sqrt(g[n / 2] * g[n / 2 + 1]), 0.9 * g[n / 2] + 0.1 * g[n / 2 - 1], g[n - 2], g[n - 1] * (1 - 1e-12), g[n - 1]};
  if (c.acc > 0) { E.push_back(c.acc); E.push_back(c.acc * 0.5); E.push_back(c.acc * (1 + 1e-6)); }
  const size_t in_range = E.size();
  E.push_back(emax * 3); E.push_back(g[n - 1] * (1 + 1e-9)); E.push_back(1e30);
  std::vector<std::pair<double, int>> ev;       // energy with sign, index
  for (size_t i = 0; i < E.size(); i++) { ev.emplace_back(E[i], i); if (E[i] > 0) ev.emplace_back(-E[i], i); }
  const std::vector<W> ws = SIZE ? std::vector<W>{1.0, -0.5, W(0.3), 1e-14, 1e-20} : std::vector<W>{1.0, -0.5, 1e-14};
  // expected contribution of one peak
  auto spread = [&](std::vector<W> &b, double e, W w) -> W {
    if (std::abs(w) < c.di * e) return W{};
    if (e >= g[n - 1]) { if (c.acc > 0 && e > g[n - 1]) return W{}; b[n - 1] += w; return w; }   // (above a mesh with accumulation point the weight is not kept, see the source)
    if (e <= g[0] || (c.acc <= 0 && e < emin)) { b[0] += w; return w; }
    size_t i = 0; while (!(g[i] <= e && e < g[i + 1])) i++;
    double f = c.acc > 0 ? (e - g[i]) / (g[i + 1] - g[i]) : std::log(e / g[i]) / std::log(g[i + 1] / g[i]);
    b[i] += W(1 - f) * w; b[i + 1] += W(f) * w; return w;
  };
  long idx = 0;
  std::function<void(std::vector<std::pair<double, W>> &)> rec = [&](std::vector<std::pair<double, W>> &seq) {
    if (!seq.empty()) {
      idx++; evals++; states++;
      std::vector<W> pos(n), neg(n); W total{}; double scale = 0;
      for (auto &[e, w] : seq) { total += e >= 0 ? spread(pos, e, w) : spread(neg, -e, w); scale += std::abs(w); }
      const auto where = [&] { std::ostringstream o; o.precision(17); o << cfg() << " peaks"; for (auto &[e, w] : seq) o << ' ' << e << '*' << w; return o.str(); };
      ChainBinning<S> cb(P); Bins<S> direct(P);
      for (auto &[e, w] : seq) { if (e >= 0) direct.add(e, w); if (idx % 2) cb.add(e, w); else cb.add(std::make_pair(e, w * W(0.5)), W(2.0)); }
      W dp{}; for (size_t i = 0; i < n; i++) { dp += direct.bins[i].second; if (direct.bins[i].first != g[i] || !close_w(direct.bins[i].second, pos[i], scale)) { std::ostringstream o; o.precision(17); o << "bin " << i << " at " << g[i] << " has weight " << direct.bins[i].second << " instead of " << pos[i] << ": " << where(); viol("bin", o.str()); return; } }
      if (!close_w(cb.total_weight(), total, scale)) { std::ostringstream o; o << "total weight " << cb.total_weight() << " instead of " << total << ": " << where(); viol("weight", o.str()); return; }
      // merging: in another object, all peaks together, then each on its own; then saved
      SpectrumRealFreq<S> sp("n", "a", "out", P);
      sp.mergeCFS(cb);
      for (size_t i = 0; i < seq.size(); i++) { ChainBinning<S> one(P); one.add(seq[i].first, seq[i].second); sp.mergeCFS(one); }   // and once more, peak by peak
      std::remove("out.bin");
      try { sp.save(); } catch (std::exception &x) { viol("save", std::string(x.what()).substr(0, 100) + ": " + where()); return; }
      FILE *f = fopen("out.bin", "rb"); std::vector<double> q; if (f) { double x; while (fread(&x, 8, 1, f) == 1) q.push_back(x); fclose(f); }
      size_t k = 0; bool ok = q.size() % 3 == 0; std::string why = "length";
      for (int s = 0; s < 2 && ok; s++) {
        const auto &b = s ? neg : pos;
        for (size_t i = 0; i < n && ok; i++) {
          const double width = i + 1 < n ? g[i + 1] - g[i] : 0; const W w = b[i] * 2.0;
          const double slack = 1e-11 * scale;
          const bool here = k + 2 < q.size() && std::abs(q[k] - (s ? -g[i] : g[i])) <= 1e-12 * g[i] && (q[k] > 0) == !s;
          const bool must = i == n - 1 || std::abs(w) >= c.dt * width + slack, may = i == n - 1 || std::abs(w) >= c.dt * width - slack;
          // (two mesh points may coincide)
          if (here && may && std::abs(W(q[k + 1]) - w) <= 2 * slack) { if (std::abs(q[k + 2]) > slack) { ok = false; why = "imaginary part"; } k += 3; }
          else if (must) { ok = false; std::ostringstream o; o.precision(17); o << "mesh point " << (s ? -g[i] : g[i]) << " with weight " << w << " is not saved"; why = o.str(); }
        }
      }
      if (ok && k != q.size()) { ok = false; why = "superfluous records"; }
      if (!ok) { viol("file", why + ": " + where()); return; }
    }
    if (int(seq.size()) == depth) return;
    for (auto &[e, i] : ev) for (auto &w : ws) {
      if (seq.empty() && counter++ % parts != part) continue;
      if (seq.size() == 1 && depth > 1 && std::abs(w) < 0.1) continue;
      if (seq.size() == 2 && (i % 3 || w != W(1.0))) continue;
      seq.emplace_back(e, w); rec(seq); seq.pop_back();
    }
  };
  std::vector<std::pair<double, W>> seq; rec(seq);
  (void)in_range;
}
// patching: factors of all steps, and their sum over the steps used
template <scalar S> void patch() {
  for (int chan : {1, 2}) for (int nn1 : {0, 1}) for (int even : {0, 1}) for (int avg : {0, 1}) for (double th : {0.0, 1.0, 4.0}) for (double goodE : {1.5, 2.0, 3.0}) for (double lam : {1.8, 2.0, 3.0, 4.0}) for (int ni : {0, 1}) {
    if (counter++ % parts != part) continue;
    Params P; P.symtype = std::string("QS"); P.set_channels_and_combs(chan); P.Nmax = 9; P.Lambda = lam; P.T = 0.01; P.bins = size_t(30); P.Ninit = size_t(ni);
    P.NN1 = bool(nn1); P.NN2even = bool(even); P.NN2avg = bool(avg); P.NNtanh = th; P.goodE = goodE; P.savebins = true; P.broaden = false; P.discard_trim = 0.0;
    Bins<S> e(P); const size_t n = e.bins.size();
    std::vector<double> sum(n), wmax(n);
    const double fac = avg ? 0.5 : 1.0, ef = (chan == 1 && !nn1) ? lam : std::sqrt(lam);
    for (int N = ni; N < 9; N++) {
      evals++; states++;
      Step step{P, RUNTYPE::DMNRG}; step.set(N);
      ChainBinning<S> cb(P); for (auto &[x, w] : e.bins) { cb.add(x, 1.0); cb.add(-x, 2.0); }
      SpectrumRealFreq<S> sp("n", "a", "outw", P); sp.mergeNN2(cb, step); std::remove("outw.bin"); sp.save();
      FILE *f = fopen("outw.bin", "rb"); std::vector<double> q; if (f) { double x; while (fread(&x, 8, 1, f) == 1) q.push_back(x); fclose(f); }
      const bool used = nn1 || avg || (even ? N % 2 == 0 : N % 2 == 1);
      const double sc = P.SCALE(N + 1), e0 = sc * goodE, ex = e0 * ef, e1 = ex * ef;
      const auto win = [&](double t) { return th > 0 ? (std::tanh(th * (t - 0.5)) + std::tanh(th * 0.5)) / (2 * std::tanh(th * 0.5)) : t; };
      if (q.size() != 4 * n) { viol("patch-file", "number of records"); return; }
      for (size_t i = 0; i < n; i++) {
        const double x = e.bins[i].first; double w = 0;
        if (used && x > e0 && x < e1) w = x <= ex ? (N == 8 ? 1.0 : win((x - e0) / (ex - e0))) : (N == ni ? 1.0 : 1 - win((x - ex) / (e1 - ex)));
        if (used && x > e0 && x < e1 && std::abs(x - ex) < 1e-9 * ex) w = 1.0;
        w *= fac; sum[i] += w;
        const double in = i == 0 || i == n - 1 ? 1.0 : 1.0;
        const double gp = q[2 * i + 1], gn = q[2 * (n + i) + 1];
        if (std::abs(gp - in * w) > 1e-9 || std::abs(gn - 2 * in * w) > 1e-9) {
          std::ostringstream o; o << "step " << N << " enters at frequency " << x << " with factors " << gp << ", " << gn / 2 << " instead of " << w << ": channels=" << chan << " NN1=" << nn1 << " NN2even=" << even << " NN2avg=" << avg << " NNtanh=" << th << " goodE=" << goodE << " Lambda=" << lam << " Ninit=" << ni;
          viol("patch", o.str()); return;
        }
      }
    }
    // no frequency counts twice; where windows of the steps used overlap, every frequency counts exactly once
    int first = -1, last = -1; for (int N = ni; N < 9; N++) if (nn1 || avg || (even ? N % 2 == 0 : N % 2 == 1)) { if (first < 0) first = N; last = N; }
    const double hi = P.SCALE(first + (avg && !nn1 ? 1 : 0) + 1) * goodE * ef, lo = P.SCALE(last - (avg && !nn1 ? 1 : 0) + 1) * goodE * ef;
    for (size_t i = 0; i < n; i++) {
      const double x = e.bins[i].first; const bool tiles = (nn1 && !avg) || (!nn1 && chan == 1);
      if (sum[i] > 1 + 1e-9 || (tiles && x > lo * (1 + 1e-9) && x < hi * (1 - 1e-9) && sum[i] < 1 - 1e-9)) {
        std::ostringstream o; o << "frequency " << x << " is counted " << sum[i] << " times: channels=" << chan << " NN1=" << nn1 << " NN2even=" << even << " NN2avg=" << avg << " NNtanh=" << th << " goodE=" << goodE << " Lambda=" << lam << " Ninit=" << ni;
        viol("patch-sum", o.str()); break;
      }
    }
  }
}
static void run_bins() {
  std::vector<BinCfg> cfgs;
  for (int b : {1, 2, 5, 10}) for (auto [mn, mx] : std::vector<std::pair<double, double>>{{-1, -1}, {1e-3, 10}, {2e-3, 7}}) for (double di : {1e-16, 0.1}) for (double dt : {1e-16, 1.0}) {
    cfgs.push_back({b, mn, mx, 0, 0, di, dt});
    if (di < 1e-3 || SIZE) for (double a : {0.01, 0.1}) for (double l : {0.0, 0.004}) cfgs.push_back({b, mn, mx, a, l, di, dt});
  }
  for (const auto &c : cfgs) { bins_cfg<double>(c, SIZE ? 3 : 2); if (c.dt < 0.5 && c.di < 0.01) bins_cfg<cd>(c, SIZE ? 2 : 1); }
  patch<double>(); patch<cd>();
}

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  SIZE = atoi(argv[2]); part = atol(argv[3]); parts = atol(argv[4]);
  OUT = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) return 2;
  std::cout.setstate(std::ios::badbit);
  const std::string w = argv[1];
  if (w == "trunc") run_trunc(); else if (w == "eig") run_eig(); else if (w == "bins") run_bins(); else return 2;
  std::fprintf(OUT, "DONE %ld %ld %ld %ld\n", evals, states, nviol, refused);
  std::fclose(OUT);
}
