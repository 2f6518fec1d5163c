// Storing and loading of iteration states under crashes and faults: every history of store/load operations up to a bound, every
// file-related system call of it as crash point or failing call, on the real classes; every truncation length of the stored files.
// Usage: state_crash SIZE PART PARTS DIR -- prints "VIOL key | text" lines and a final "DONE executions states violations calls" line.
#include <map>
#include <set>
#include "mpi_single.hpp"
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <memory>
#include <functional>
#include <sys/mman.h>
#include <nrg-general.hpp>
#include "faultinj.hpp"
using namespace NRG;
using cd = std::complex<double>;
static FILE *OUT;
static long evals = 0, states = 0, nviol = 0, counter = 0, part = 0, parts = 1, calls = 0;
static int SIZE = 0;
static void viol(const std::string &key, const std::string &text) { static std::map<std::string, int> n; nviol++; if (n[key]++ < 5) { std::fprintf(OUT, "VIOL %s | %s\n", key.c_str(), text.c_str()); std::fflush(OUT); } }

template <scalar S> S num(long i) { double x = std::sin(double(i) * 1.7) ; if constexpr (std::is_same_v<S, cd>) return cd(x, std::cos(double(i) * 0.9)); else return x; }
// eigenstates: variant v
template <scalar S> DiagInfo<S> make_diag(int v, const Step &step) {
  DiagInfo<S> d;
  if (v == 0) return d;
  const std::vector<size_t> dims = v == 1 ? std::vector<size_t>{2} : v == 2 ? std::vector<size_t>{3, 1, 40} : std::vector<size_t>{1, 2, 3};
  for (size_t k = 0; k < dims.size(); k++) {
    const size_t n = dims[k], m = k == 2 ? n - 1 : n;
    RawEigen<S> raw(m, n);
    for (size_t i = 0; i < m; i++) { raw.val[i] = double(v) + double(i * i) * 0.25 + double(k); for (size_t j = 0; j < n; j++) raw.vec(i, j) = i == j ? S(1) : S(0); }
    NRG::Eigen<S> e(std::move(raw), step);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) e.vectors.ref_m()(i, j) = num<S>(long(i * 100 + j) + v);
    e.values.set_shift(0.5 * v); e.values.set_scale(2.0 + v); e.values.set_T_shift(0.125); e.values.set_abs_GS_energy(-3.0 - v);
    std::vector<double> corr; for (size_t i = 0; i < m; i++) corr.push_back(raw.val.size() > i ? double(i) + 0.01 * double(v) : double(i)); e.values.set_corr(corr);
    for (size_t i = 0; i < m; i++) e.values.set_crit(i, double(i) * 1.5 + v);
    e.U.resize(2);
    for (size_t b = 0; b < 2; b++) { Matrix_traits<S> u(m, b + 1); for (size_t i = 0; i < m; i++) for (size_t j = 0; j <= b; j++) u(i, j) = num<S>(long(i + 7 * j + 13 * b) + v); e.U.set(b, u); }
    if (k == 0) e.truncate_prepare(m - (m > 1)); 
    if (k == 0 && v == 2) e.truncate_perform();
    d[Invar(int(k), int(k % 2) + 1)] = e;
  }
  return d;
}
template <typename M> void put_matrix(std::ostream &o, const M &m) { o << '{' << size1(m) << 'x' << size2(m); for (size_t i = 0; i < size1(m); i++) for (size_t j = 0; j < size2(m); j++) o << ' ' << m(i, j); o << '}'; }
template <scalar S> std::string print(const DiagInfo<S> &d) {
  std::ostringstream o; o.precision(17);
  for (const auto &[I, e] : d) {
    o << I << ": " << e.getnrcomputed() << ' ' << e.getdim() << ' ' << e.getnrkept() << ' ' << e.getnrstored() << ' ' << e.getnrdiscarded() << ' ' << e.Krange().size() << ' ' << e.Drange().size();
    for (auto x : e.values.all_rel()) o << ' ' << x;
    if (e.values.has_abs_G()) for (auto x : e.values.all_abs_G()) o << ' ' << x;
    if (e.values.has_abs_T()) for (auto x : e.values.all_abs_T()) o << ' ' << x;
    if (e.values.has_zero()) for (auto x : e.values.all_rel_zero()) o << ' ' << x;
    if (e.values.has_corr()) for (auto x : e.values.all_corr()) o << ' ' << x;
    if (e.values.has_crit()) for (auto x : e.values.all_crit()) o << ' ' << x;
    put_matrix(o, e.vectors.get());
    o << 'U' << e.U.size(); for (size_t i = 0; i < e.U.size(); i++) put_matrix(o, e.U.get(i));
    o << '\n';
  }
  return o.str();
}
template <scalar S> DensMatElements<S> make_rho(int v) {
  DensMatElements<S> d; if (v == 0) return d;
  const std::vector<size_t> dims = v == 1 ? std::vector<size_t>{2} : v == 2 ? std::vector<size_t>{3, 0, 45} : std::vector<size_t>{1, 2, 3};
  for (size_t k = 0; k < dims.size(); k++) { Matrix_traits<S> m(dims[k], dims[k]); for (size_t i = 0; i < dims[k]; i++) for (size_t j = 0; j < dims[k]; j++) m(i, j) = num<S>(long(i * 50 + j) + 3 * v); d[Invar(int(k), 1)] = m; }
  return d;
}
template <scalar S> std::string print(const DensMatElements<S> &d) { std::ostringstream o; o.precision(17); for (const auto &[I, m] : d) { o << I << ": "; put_matrix(o, m); o << '\n'; } return o.str(); }

// operations: S = store, L = load, R = load and remove, C = construct by loading (eigenstates only)
struct Op { char what; char kind; int N; int v; };   // kind: u = eigenstates, r = density matrix
static std::string str(const Op &o) { std::ostringstream s; s << (o.what == 'S' ? "store " : o.what == 'R' ? "load+remove " : o.what == 'C' ? "construct " : "load ") << (o.kind == 'u' ? "eigenstates " : "density matrix ") << o.N; if (o.what == 'S') s << " version " << o.v; return s.str(); }
struct Shared { int started, done[8], clean[8]; char got[8]; };   // done: 1 = success, 2 = error; got: version loaded (0..3), 9 = none of them; clean: memory unchanged after an error
static Shared *sh;
static const char *RHO = "rho";
template <scalar S> struct Env {
  Params P; std::unique_ptr<Step> step; std::map<int, std::string> pu, pr; std::map<int, DiagInfo<S>> du; std::map<int, DensMatElements<S>> dr;
  Env(const std::string &dir) {
    P.symtype = std::string("QS"); P.set_channels_and_combs(1); P.Nmax = 4; P.workdir = std::make_unique<Workdir>(dir, true);
    step = std::make_unique<Step>(P, RUNTYPE::NRG); step->set(1);
    for (int v = 0; v < 4; v++) { du[v] = make_diag<S>(v, *step); dr[v] = make_rho<S>(v); pu[v] = print(du[v]); pr[v] = print(dr[v]); }
  }
  static char which(const std::map<int, std::string> &m, const std::string &s) { for (auto &[v, t] : m) if (t == s) return char(v); return 9; }
  // one operation; returns 1/2; for loads: version obtained, and whether an error left the object alone
  int doit(const Op &o, char &got, int &clean) {
    got = 9; clean = 1;
    if (o.kind == 'u') {
      if (o.what == 'S') { try { du.at(o.v).save(size_t(o.N), P); return 1; } catch (std::exception &) { return 2; } }
      if (o.what == 'C') { try { DiagInfo<S> d(size_t(o.N), P, false); got = which(pu, print(d)); return 1; } catch (std::exception &) { return 2; } }
      DiagInfo<S> d = du.at(3);
      try { d.load(size_t(o.N), P, o.what == 'R'); got = which(pu, print(d)); return 1; } catch (std::exception &) { clean = print(d) == pu.at(3); return 2; }
    }
    if (o.what == 'S') { try { dr.at(o.v).save(size_t(o.N), P, RHO); return 1; } catch (std::exception &) { return 2; } }
    DensMatElements<S> d = dr.at(3);
    try { d.load(size_t(o.N), P, RHO, o.what == 'R'); got = which(pr, print(d)); return 1; } catch (std::exception &) { clean = print(d) == pr.at(3); return 2; }
  }
};
using File = std::pair<char, int>;
static const int NONE = -1;
static bool is_crash(const fi::Plan &p) { return p.action == "kill" || p.action == "killafter" || p.action == "torn"; }
template <scalar S> void execute(Env<S> &E, const std::vector<Op> &h, const std::vector<fi::Plan> &plans, std::vector<fi::Event> *events) {
  const std::string dir = E.P.workdir->get();
  std::filesystem::remove_all(dir); std::filesystem::create_directory(dir);
  std::memset(sh, 0, sizeof *sh); sh->started = -1;
  evals++;
  auto r = fi::run([&] { for (size_t i = 0; i < h.size(); i++) { sh->started = int(i); sh->done[i] = E.doit(h[i], sh->got[i], sh->clean[i]); } _exit(0); }, plans, dir);
  calls += long(r.events.size());
  if (events) *events = r.events;
  const auto where = [&] {
    std::ostringstream o; o << (std::is_same_v<S, cd> ? "complex" : "real"); for (size_t i = 0; i < h.size(); i++) o << (i ? ", " : ": ") << str(h[i]) << (sh->done[i] == 1 ? " [ok]" : sh->done[i] == 2 ? " [error]" : " [not finished]");
    for (auto &plan : plans) { o << "; fault " << plan.action; if (plan.action == "fail") o << ' ' << strerror(plan.err); o << " at call " << plan.at; if (plan.at < long(r.events.size())) { auto &e = r.events[size_t(plan.at)]; o << " (" << e.name << ' ' << e.path.substr(e.path.rfind('/') + 1) << ' ' << e.len << ')'; } }
    return o.str();
  };
  const bool killed = WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGKILL && r.fired && is_crash(plans.back());
  if (!killed && !(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0)) { viol("died", "the process ends abnormally: " + where()); return; }
  if (r.fired != int(plans.size())) { viol("nondeterministic", "the fault is not reached: " + where()); return; }
  // the model: what each file may contain
  std::map<File, std::set<int>> m; for (auto f : {File{'u', 0}, File{'u', 1}, File{'r', 0}}) m[f] = {NONE};
  for (size_t i = 0; i < h.size(); i++) {
    auto &f = m[{h[i].kind, h[i].N}];
    if (int(i) > sh->started) break;
    const int d = sh->done[i];
    if (h[i].what == 'S') {
      if (d == 1) f = {h[i].v}; else f.insert(h[i].v);
      if (d == 2 && plans.empty()) viol("store", "storing reports an error although nothing is wrong: " + where());
    } else {
      if (d == 1) {
        if (!f.count(sh->got[i])) { viol("load", "loading succeeds with something that was not stored: " + where()); return; }
        f = {int(sh->got[i])}; if (h[i].what == 'R') f = {NONE};
      } else if (d == 2) {
        if (!sh->clean[i]) { viol("load-memory", "a failed loading leaves changed data in memory: " + where()); return; }
        if (plans.empty() && !f.count(NONE)) { viol("load", "loading reports an error although the state is there: " + where()); return; }
      } else if (h[i].what == 'R') f.insert(NONE);
    }
  }
  // a new process looks at what is there (without faults)
  for (auto &[f, allowed] : m) {
    char got; int clean;
    const int ok = E.doit({'L', f.first, f.second, 0}, got, clean);
    const int have = ok == 1 ? got : NONE;
    if (!allowed.count(have) || !clean) {
      std::ostringstream o; o << "afterwards " << (f.first == 'u' ? "eigenstates " : "density matrix ") << f.second << ' ';
      if (have == NONE) o << "cannot be read"; else if (have == 9) o << "are something that was never stored"; else o << "are version " << have;
      o << ", expected"; for (auto x : allowed) { if (x == NONE) o << " none"; else o << " version " << x; }
      viol("after", o.str() + ": " + where()); return;
    }
  }
  states++;
}
template <scalar S> void truncations(Env<S> &E) {
  const std::string dir = E.P.workdir->get();
  for (char kind : {'u', 'r'}) for (int v = 0; v < 3; v++) {
    std::filesystem::remove_all(dir); std::filesystem::create_directory(dir);
    char got; int clean; E.doit({'S', kind, 0, v}, got, clean);
    std::string fn; for (auto &x : std::filesystem::directory_iterator(dir)) { if (!fn.empty()) { viol("files", "storing one state leaves several files"); return; } fn = x.path(); }
    if (fn.empty()) { viol("files", "storing a state leaves no file"); return; }
    std::string data; { std::ifstream f(fn, std::ios::binary); std::stringstream b; b << f.rdbuf(); data = b.str(); }
    for (size_t L = 0; L <= data.size(); L++) for (char what : {'L', 'R'}) {
      if (what == 'R' && L % 16 > 1 && L + 40 < data.size() && L > 200) continue;
      if (counter++ % parts != part) continue;
      evals++; states++;
      { std::ofstream f(fn, std::ios::binary); f.write(data.data(), std::streamsize(L)); }
      const int ok = E.doit({what, kind, 0, 0}, got, clean);
      std::ostringstream o; o << (std::is_same_v<S, cd> ? "complex " : "real ") << (kind == 'u' ? "eigenstates" : "density matrix") << " version " << v << " cut to " << L << " of " << data.size() << " bytes";
      if (L < data.size() && ok == 1) viol("truncated", "a truncated file is accepted: " + o.str());
      else if (L == data.size() && (ok != 1 || got != v)) viol("complete", "a complete file is not read back: " + o.str());
      else if (!clean) viol("truncated-memory", "a failed loading changes the data in memory: " + o.str());
      else if (ok == 2 && !std::filesystem::exists(fn)) viol("truncated-removed", "a failed loading removes the file: " + o.str());
      else if (ok == 1 && what == 'R' && std::filesystem::exists(fn)) viol("not-removed", "the file is still there after loading with removal: " + o.str());
    }
  }
}
template <scalar S> void histories(Env<S> &E, const std::vector<Op> &alphabet, int depth, int nfaults) {
  std::vector<Op> h;
  std::function<void()> rec = [&] {
    if (!h.empty() && counter++ % parts == part) {
      std::vector<fi::Plan> plans;
      std::function<void()> more = [&] {
        std::vector<fi::Event> ev; execute(E, h, plans, &ev);
        if (std::getenv("VERIF_SHOW")) for (auto &e : ev) std::fprintf(OUT, "%s %s %ld -> %ld\n", e.name.c_str(), e.path.c_str(), e.len, e.ret);
        if (int(plans.size()) == nfaults || (!plans.empty() && is_crash(plans.back()))) return;
        for (size_t i = plans.empty() ? 0 : size_t(plans.back().at) + 1; i < ev.size(); i++) for (auto &pl : fi::faults(ev[i], long(i), true, true, SIZE)) { plans.push_back(pl); more(); plans.pop_back(); }
      };
      more();
    }
    if (int(h.size()) == depth) return;
    for (auto &o : alphabet) { if (h.empty() && o.what != 'S') continue; h.push_back(o); rec(); h.pop_back(); }
  };
  rec();
}
template <scalar S> void all(const std::string &base) {
  Env<S> E(base);
  truncations(E);
  const std::vector<Op> small{{'S', 'u', 0, 1}, {'S', 'u', 0, 2}, {'S', 'u', 1, 0}, {'S', 'r', 0, 1}, {'S', 'r', 0, 2}, {'L', 'u', 0, 0}, {'R', 'u', 0, 0}, {'C', 'u', 0, 0}, {'L', 'r', 0, 0}, {'R', 'r', 0, 0}};
  histories(E, small, SIZE ? 3 : 2, 1);
  if (SIZE) histories(E, small, 2, 2);
  if (!SIZE) histories(E, std::vector<Op>{{'S', 'u', 0, 1}, {'S', 'u', 0, 2}, {'R', 'u', 0, 0}}, 3, 1);
  if (!SIZE) histories(E, std::vector<Op>{{'S', 'r', 0, 1}, {'S', 'r', 0, 2}, {'R', 'r', 0, 0}}, 3, 1);
  if (!SIZE) histories(E, std::vector<Op>{{'S', 'u', 0, 1}, {'S', 'u', 0, 2}, {'L', 'u', 0, 0}}, 2, 2);
}
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  SIZE = atoi(argv[1]); part = atol(argv[2]); parts = atol(argv[3]);
  OUT = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) return 2;
  std::cout.setstate(std::ios::badbit);
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Invar::invdim = 2; Invar::qntype = {additive, additive};
  all<double>(argv[4]); all<cd>(argv[4]);
  std::fprintf(OUT, "DONE %ld %ld %ld %ld\n", evals, states, nviol, calls);
  std::fclose(OUT);
}
