// Threaded diagonalisation on every schedule of the controlled OpenMP runtime (omp_rt.cc). The code under test is the
// program's own, compiled with -fopenmp and memory-access callbacks.
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <boost/mpi/communicator.hpp>
#define main nrg_program_main
#include "nrg.cc"
#undef main
#include "omp_rt.hpp"
#include "mpi_single.hpp"
using namespace NRG;
typedef unsigned long long u64;
struct Report {
  u64 execs = 0, states = 0; size_t depth = 0; bool complete = false; std::vector<std::pair<std::string, std::string>> fails; u64 windows = 0;
  void add() { execs++; states += omp_rt::trail.size() + 1 - std::min(omp_rt::trail.size(), omp_rt::prefix.empty() ? size_t(0) : omp_rt::prefix.size() - 1); depth = std::max(depth, omp_rt::trail.size()); if (!omp_rt::failure.empty() && fails.size() < 3) fails.push_back({omp_rt::failure, omp_rt::show()}); }
  void print() {
    auto esc = [](std::string s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c >= 32) r += c; } return r; };
    fprintf(stderr, "RESULT {\"execs\":%llu,\"states\":%llu,\"transitions\":%llu,\"accesses\":%llu,\"windows\":%llu,\"regions\":%llu,\"untracked\":%llu,\"depth\":%zu,\"complete\":%s,\"fails\":[", execs, states, omp_rt::transitions, omp_rt::accesses, windows, omp_rt::regions, omp_rt::untracked, depth, complete ? "true" : "false");
    for (size_t i = 0; i < fails.size(); i++) fprintf(stderr, "%s[\"%s\",\"%s\"]", i ? "," : "", esc(fails[i].first).c_str(), fails[i].second.c_str());
    fprintf(stderr, "]}\n");
  }
};
template <typename S> std::string bytes_of(const DiagInfo<S> &d) {
  std::ostringstream o(std::ios::binary); { boost::archive::binary_oarchive a(o); a << d.size(); for (const auto &[I, e] : d) { a << I; e.save(a); } } return o.str();
}
template <typename S> std::string difference(const DiagInfo<S> &ref, const DiagInfo<S> &got) {
  for (const auto &[I, e] : ref) {
    if (!got.count(I)) return "subspace " + I.str() + " is missing";
    const auto &g = got.at(I);
    if (g.values.size() != e.values.size()) return "subspace " + I.str() + ": " + std::to_string(g.values.size()) + " eigenvalues instead of " + std::to_string(e.values.size());
    for (size_t i = 0; i < e.values.size(); i++) if (g.values.raw(i) != e.values.raw(i)) return "subspace " + I.str() + ": eigenvalue " + std::to_string(i) + " differs";
    if (g.vectors.get().rows() != e.vectors.get().rows() || g.vectors.get().cols() != e.vectors.get().cols()) return "subspace " + I.str() + ": eigenvectors of another shape";
    if (!(g.vectors.get().array() == e.vectors.get().array()).all()) return "subspace " + I.str() + ": eigenvectors differ";
  }
  for (const auto &[I, e] : got) if (!ref.count(I)) return "subspace " + I.str() + " does not belong to the tasks";
  if (bytes_of(ref) != bytes_of(got)) return "stored attributes differ";
  return "";
}

// windows of the tasks of the first iteration, every schedule of each. wrong: one channel operator is missing, so that one
// subspace raises an error
template <typename S> void level_a(int threads, int ntasks, long maxdev, long maxexec, int windows, bool wrong, bool replay, Report &rep) {
  Params P("param", "param", std::make_unique<Workdir>(".", true), true);
  InputData<S> input(P, "data");
  auto Sym = input.Sym;
  Stats<S> stats(P, Sym->get_td_fields(), input.GS_energy);
  Step step{P, RUNTYPE::NRG}; step.init();
  auto output = Output<S>(RUNTYPE::NRG, input.operators, stats, P);
  SubspaceStructure sub{input.diag, Sym.get()};
  TaskList tl{sub, false};
  std::vector<Invar> all = tl.get();
  DiagParams dp(P, P.diagratio);
  if (wrong) for (auto &ch : input.operators.opch) for (auto &m : ch) if (!m.empty()) m.erase(m.begin());
  const int n = std::min<int>(ntasks, int(all.size())); const int last = std::max(0, int(all.size()) - n);
  rep.complete = true;
  for (int w = 0; w <= last && w < (windows ? windows : 1 << 30); w++) {
    std::vector<Invar> tasks(all.begin() + (windows ? size_t(w) * last / std::max(1, windows - 1) : w), all.begin() + (windows ? size_t(w) * last / std::max(1, windows - 1) : w) + n);
    rep.windows++;
    auto fresh = [&]() { if (P.h5raw) output.h5raw = std::make_unique<H5Easy::File>("raw.h5", H5Easy::File::Overwrite); };
    fresh();
    DiagSerial<S> ser; bool ref_throws = false; DiagInfo<S> ref;
    try { ref = ser.diagonalisations(step, input.operators.opch, input.coef, input.diag, output, tasks, dp, Sym.get(), P); } catch (std::exception &) { ref_throws = true; }
    std::map<std::string, std::string> h5; if (P.h5raw) h5 = output.h5raw->data;
    const std::string opch0 = bytes_of(input.diag);
    P.diagth = threads; omp_rt::max_threads = threads;
    if (!replay) omp_rt::prefix.clear();
    long k = 0;
    for (;;) {
      fresh(); omp_rt::reset(); omp_rt::explore = true;
      DiagOpenMP<S> eng; bool threw = false; DiagInfo<S> got;
      try { got = static_cast<DiagEngine<S> &>(eng).diagonalisations(step, input.operators.opch, input.coef, input.diag, output, tasks, dp, Sym.get(), P); } catch (std::exception &) { threw = true; }
      omp_rt::explore = false;
      if (omp_rt::failure.empty()) {
        std::string d;
        if (ref_throws != threw) d = threw ? "raises an error, the sequential code does not" : "an error raised by one subspace is lost";
        else if (!threw) d = difference(ref, got);
        if (d.empty() && !threw && P.h5raw && output.h5raw->data != h5) d = "raw.h5 differs from that of the sequential code";
        if (d.empty() && bytes_of(input.diag) != opch0) d = "the previous iteration's eigenstates have been changed";
        omp_rt::failure = d;
      }
      rep.add(); k++;
      if (replay) return;
      if (rep.fails.size() >= 3) { rep.complete = false; return; }
      if (k >= maxexec) { rep.complete = false; break; }
      if (!omp_rt::next_prefix(maxdev)) break;
    }
  }
}
// the whole program with a team of threads, in one process
int level_b(int threads, int policy) {
  omp_rt::max_threads = threads; omp_rt::policy = policy; omp_rt::explore = false; omp_rt::reset();
  static char name[] = "nrg"; static char *av[] = {name, nullptr};
  return nrg_program_main(1, av);
}
int main(int argc, char **argv) {
  setenv("OPENBLAS_NUM_THREADS", "1", 1);
  std::string line;
  { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd); }
  while (std::getline(std::cin, line)) {
    std::istringstream s(line); std::string dir, kind; int threads, a = 0, windows = 0; long maxdev = -1, maxexec = 1; std::string pre;
    s >> dir >> kind >> threads >> a >> maxdev >> maxexec >> windows >> pre;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
      if (chdir(dir.c_str())) _exit(9);
      alarm(800);
      Report rep; bool replay = false;
      if (!pre.empty()) { replay = true; std::istringstream t(pre); std::string x; while (std::getline(t, x, ',')) if (!x.empty()) omp_rt::prefix.push_back(atoi(x.c_str())); }
      try {
        if (kind == "A" || kind == "W") { if (complex_data()) level_a<std::complex<double>>(threads, a, maxdev, maxexec, windows, kind == "W", replay, rep); else level_a<double>(threads, a, maxdev, maxexec, windows, kind == "W", replay, rep); }
        else if (kind == "B") { const int rc = level_b(threads, a); rep.complete = true; if (rc && omp_rt::failure.empty()) omp_rt::failure = "exit status " + std::to_string(rc); rep.add(); }
      } catch (std::exception &e) { omp_rt::failure = std::string("error in the harness or the program: ") + e.what(); rep.add(); }
      rep.print(); fflush(nullptr); _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) fprintf(stderr, "RESULT {\"died\":%d,\"execs\":1,\"states\":1,\"transitions\":0,\"accesses\":0,\"windows\":0,\"regions\":0,\"untracked\":0,\"depth\":0,\"complete\":true,\"fails\":[]}\n", WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st));
  }
}
