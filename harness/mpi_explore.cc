// Explores all message schedules of the distributed diagonalisation. Every rank is a coroutine running the
// program's own code (master: DiagMPI or the whole main(); workers: run_nrg_slave); the message layer below decides,
// at every point where MPI leaves a choice, which answer is given, and all answers are enumerated (stateless
// depth-first search over choice sequences).
#include <ucontext.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <boost/mpi/communicator.hpp>
#define main nrg_program_main
#include "nrg.cc"
#undef main
using namespace NRG;
typedef unsigned long long u64;

// ------------------------------------------------------------------ controlled scheduler
namespace ex {
enum Mode { EAGER, RENDEZVOUS, MIXED };
struct Config { int ranks = 2; Mode mode = EAGER; int policy = 0; long maxdev = -1; long max_exec = 1000000; int slave_delay = 0; } cfg;
struct Choice { int n, taken; };
std::vector<int> prefix;
std::vector<Choice> trail;
std::string failure;
struct Msg { int src, tag; verif_mpi::Payload p; u64 id; };
struct Rank {
  ucontext_t uc; std::vector<char> stack; std::function<void()> body;
  enum St { READY, BLOCKED, POLL, DONE } st = READY;
  std::function<bool()> wake; u64 seen = 0; bool threw = false, delayed = false; std::string what;
  std::deque<Msg> box; std::deque<verif_mpi::Payload> coll; long ncoll = 0;
};
std::vector<std::unique_ptr<Rank>> R;
ucontext_t sched; int cur = -1; u64 events = 0, transitions = 0, messages = 0; bool dead = false; int delays = 0; long nones = 0;
u64 steps = 0;
void fail(const std::string &w) { if (failure.empty()) failure = w; }
int choose(int n) {
  if (n <= 1) return 0;
  const size_t k = trail.size();
  int t = k < prefix.size() ? prefix[k] : 0;
  if (t >= n) { fail("internal: choice out of range on replay (the program is not deterministic under the scheduler)"); t = 0; }
  trail.push_back({n, t}); transitions++;
  return t;
}
void to_sched() { swapcontext(&R[cur]->uc, &sched); } // after a failure the ranks are never resumed
void block(std::function<bool()> w) { Rank &r = *R[cur]; while (!w()) { r.st = Rank::BLOCKED; r.wake = w; to_sched(); } }
void others_first() { R[cur]->st = Rank::READY; to_sched(); }
void entry(unsigned lo, unsigned hi) {
  const int me = cur;
  try { R[me]->body(); } catch (std::exception &e) { R[me]->threw = true; R[me]->what = e.what(); } catch (...) { R[me]->threw = true; R[me]->what = "unknown exception"; }
  R[me]->st = Rank::DONE; events++;
  for (;;) swapcontext(&R[me]->uc, &sched);
}
std::vector<std::vector<char>> stacks;
// run one execution under the current prefix
void run(std::vector<std::function<void()>> bodies) {
  trail.clear(); failure.clear(); dead = false; delays = 0; nones = 0; events = 0; steps = 0; R.clear();
  const int n = int(bodies.size());
  if (stacks.size() < size_t(n)) stacks.resize(n, std::vector<char>(1 << 20));
  for (int i = 0; i < n; i++) {
    R.push_back(std::make_unique<Rank>());
    Rank &r = *R.back(); r.body = bodies[i];
    getcontext(&r.uc); r.uc.uc_stack.ss_sp = stacks[i].data(); r.uc.uc_stack.ss_size = stacks[i].size(); r.uc.uc_link = nullptr;
    makecontext(&r.uc, (void (*)())entry, 2, 0u, 0u);
  }
  for (;;) {
    int pick = -1; bool all_done = true;
    for (int q = 1; q <= n; q++) { // workers before the master: see DESIGN.md for why this loses no behaviour
      const int i = q % n; Rank &r = *R[i];
      if (r.st == Rank::DONE) continue;
      all_done = false;
      if (r.st == Rank::READY && i != 0) { pick = i; break; }
      if (r.st == Rank::BLOCKED && r.wake()) { pick = i; break; }
      if (r.st == Rank::POLL && r.seen != events && i != 0) { pick = i; break; }
      if (i == 0 && (r.st == Rank::READY || (r.st == Rank::POLL && r.seen != events))) { pick = i; break; }
    }
    if (all_done) break;
    if (pick < 0) for (int i = 0; i < n && pick < 0; i++) if (R[i]->st == Rank::POLL && (R[i]->delayed || false)) pick = i; // a delayed answer comes at last
    if (pick < 0 || ++steps > 2000000) {
      {
        std::string s = pick < 0 ? "deadlock:" : "no progress:";
        for (int i = 0; i < n; i++) s += " rank " + std::to_string(i) + (R[i]->st == Rank::DONE ? " done" : R[i]->st == Rank::POLL ? " polls forever" : " waits forever") + (R[i]->threw ? " (threw: " + R[i]->what + ")" : "");
        fail(s);
      }
      dead = true; break;
    }
    cur = pick; R[pick]->st = Rank::READY; R[pick]->delayed = false; swapcontext(&sched, &R[pick]->uc);
    if (dead) break;
  }
  if (!dead) {
    for (int i = 0; i < n; i++) if (!R[i]->box.empty()) fail("undelivered message: tag " + std::to_string(R[i]->box[0].tag) + " from rank " + std::to_string(R[i]->box[0].src) + " to rank " + std::to_string(i));
    for (int i = 0; i < n; i++) if (!R[i]->coll.empty()) fail("undelivered broadcast to rank " + std::to_string(i));
  }
}
std::string show_trail() { std::string s; for (auto &c : trail) s += std::to_string(c.taken) + "/" + std::to_string(c.n) + " "; return s; }
// first message of every source that matches
std::vector<int> candidates(int rank, int source, int tag) {
  std::vector<int> c; std::set<int> seen; auto &b = R[rank]->box;
  for (size_t i = 0; i < b.size(); i++)
    if ((source < 0 || b[i].src == source) && (tag < 0 || b[i].tag == tag) && seen.insert(b[i].src).second) c.push_back(int(i));
  std::sort(c.begin(), c.end(), [&](int x, int y) { return b[x].src < b[y].src; });
  return c;
}
bool next_prefix(long maxdev) {
  while (!trail.empty()) {
    long dev = 0; for (size_t i = 0; i + 1 < trail.size(); i++) dev += trail[i].taken != 0;
    auto &c = trail.back();
    if (c.taken + 1 < c.n && (maxdev < 0 || dev + 1 <= maxdev)) { c.taken++; prefix.clear(); for (auto &x : trail) prefix.push_back(x.taken); return true; }
    trail.pop_back();
  }
  return false;
}
}
namespace verif_mpi {
using namespace ex;
bool single = true; // the reference run: one process
int rank() { return single ? 0 : cur; }
int size() { return single ? 1 : int(R.size()); }
void error(const std::string &w) { if (single) throw std::runtime_error(w); fail("MPI misuse: " + w + " (rank " + std::to_string(cur) + ")"); dead = true; to_sched(); }
bool synchronous(const Payload &p) { return cfg.mode == RENDEZVOUS || (cfg.mode == MIXED && p.bytes.size() > 24); }
void send(int dest, int tag, Payload &&p) {
  if (single || dest < 0 || dest >= size()) { error("send to a rank that does not exist: " + std::to_string(dest)); return; }
  if (tag < 0) { error("negative tag"); return; }
  static u64 serial = 0; const u64 id = ++serial; const bool w = synchronous(p);
  events++; messages++;
  R[dest]->box.push_back({cur, tag, std::move(p), id});
  if (w) block([dest, id]() { for (auto &m : R[dest]->box) if (m.id == id) return false; return true; });
}
Stat recv(int source, int tag, Payload &p) {
  if (single || source >= size()) { error("recv from a rank that does not exist: " + std::to_string(source)); return {}; }
  if (source < 0) others_first();
  const int me = cur;
  block([=]() { return !candidates(me, source, tag).empty(); });
  auto c = candidates(me, source, tag);
  const int k = c[choose(int(c.size()))];
  auto &b = R[me]->box; Stat s{b[k].src, b[k].tag}; p = std::move(b[k].p); b.erase(b.begin() + k); events++;
  return s;
}
bool iprobe(int source, int tag, Stat &s) {
  if (single) return false;
  const int me = cur;
  if (source < 0 || me == 0) {
    others_first();
    auto c = candidates(me, source, tag);
    if (c.empty()) return false;
    // answers: no message visible yet, or any of the pending ones
    const int n = int(c.size()) + (nones < 60 ? 1 : 0);
    int k = choose(n);
    if (cfg.policy == 0) { if (n > int(c.size())) k--; } // default: nothing visible yet
    else if (k == int(c.size())) k = -1;                // default: first pending message visible
    if (k < 0) { nones++; events++; return false; }
    s = {R[me]->box[c[k]].src, R[me]->box[c[k]].tag}; return true;
  }
  auto c = candidates(me, source, tag);
  if (c.empty()) return false;
  if (delays < cfg.slave_delay && choose(2) == 1) { delays++; R[me]->delayed = true; return false; }
  s = {R[me]->box[c[0]].src, R[me]->box[c[0]].tag}; return true;
}
Stat probe(int source, int tag) {
  if (single) { error("probe without partner"); return {}; }
  if (source < 0) others_first();
  const int me = cur;
  block([=]() { return !candidates(me, source, tag).empty(); });
  auto c = candidates(me, source, tag);
  const int k = c[choose(int(c.size()))];
  return {R[me]->box[k].src, R[me]->box[k].tag};
}
void bcast(int root, Payload &p) {
  if (single) return;
  const int me = cur; const long k = R[me]->ncoll++;
  if (me == root) {
    for (int i = 0; i < size(); i++) if (i != me) R[i]->coll.push_back(p);
    events++;
    if (cfg.mode != EAGER) block([k, me]() { for (size_t i = 0; i < R.size(); i++) if (int(i) != me && R[i]->ncoll <= k) return false; return true; });
  } else {
    events++;
    block([me]() { return !R[me]->coll.empty(); });
    p = std::move(R[me]->coll.front()); R[me]->coll.pop_front(); events++;
  }
}
}
extern "C" int usleep(useconds_t) {
  using namespace ex;
  if (verif_mpi::single || cur < 0) return 0;
  R[cur]->st = Rank::POLL; R[cur]->seen = events; swapcontext(&R[cur]->uc, &sched);
  return 0;
}

// ------------------------------------------------------------------ reports
struct Report {
  u64 execs = 0, states = 0; size_t depth = 0; bool complete = false; std::vector<std::pair<std::string, std::string>> fails;
  void add() { execs++; states += 1 + ex::trail.size() - std::min(ex::trail.size(), ex::prefix.empty() ? 0 : ex::prefix.size() - 1); depth = std::max(depth, ex::trail.size()); if (!ex::failure.empty() && fails.size() < 3) fails.push_back({ex::failure, ex::show_trail()}); }
  void print() {
    auto esc = [](std::string s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c >= 32) r += c; } return r; };
    fprintf(stderr, "RESULT {\"execs\":%llu,\"states\":%llu,\"transitions\":%llu,\"messages\":%llu,\"depth\":%zu,\"complete\":%s,\"fails\":[", execs, states, ex::transitions, ex::messages, depth, complete ? "true" : "false");
    for (size_t i = 0; i < fails.size(); i++) fprintf(stderr, "%s[\"%s\",\"%s\"]", i ? "," : "", esc(fails[i].first).c_str(), fails[i].second.c_str());
    fprintf(stderr, "]}\n");
  }
};
template <typename S> std::string bytes_of(const DiagInfo<S> &d) {
  std::ostringstream o(std::ios::binary); { boost::archive::binary_oarchive a(o); a << d.size(); for (const auto &[I, e] : d) { a << I; e.save(a); } } return o.str();
}
template <typename S> std::string difference(const DiagInfo<S> &ref, const DiagInfo<S> &got) {
  for (const auto &[I, e] : ref) {
    if (!got.count(I)) return "subspace " + I.str() + " is missing";
    const auto &g = got.at(I);
    if (g.values.size() != e.values.size()) return "subspace " + I.str() + ": " + std::to_string(g.values.size()) + " eigenvalues instead of " + std::to_string(e.values.size());
    for (size_t i = 0; i < e.values.size(); i++) if (g.values.raw(i) != e.values.raw(i)) return "subspace " + I.str() + ": eigenvalue " + std::to_string(i) + " differs";
    if (g.vectors.get().rows() != e.vectors.get().rows() || g.vectors.get().cols() != e.vectors.get().cols()) return "subspace " + I.str() + ": eigenvectors of another shape";
    if (!(g.vectors.get().array() == e.vectors.get().array()).all()) return "subspace " + I.str() + ": eigenvectors differ";
  }
  for (const auto &[I, e] : got) if (!ref.count(I)) return "subspace " + I.str() + " does not belong to the tasks";
  if (bytes_of(ref) != bytes_of(got)) return "stored attributes differ";
  return "";
}

// ------------------------------------------------------------------ level A: one or more rounds of diagonalisations
struct ArgsA { int rounds, ntasks; bool replay; };
template <typename S> void level_a(const ArgsA &a, Report &rep) {
  verif_mpi::single = true;
  Params P("param", "param", std::make_unique<Workdir>(".", true), true);
  InputData<S> input(P, "data");
  auto Sym = input.Sym;
  Stats<S> stats(P, Sym->get_td_fields(), input.GS_energy);
  Step step{P, RUNTYPE::NRG}; step.init();
  auto output = Output<S>(RUNTYPE::NRG, input.operators, stats, P);
  SubspaceStructure sub{input.diag, Sym.get()};
  TaskList tl{sub, false};
  std::vector<Invar> all = tl.get(), tasks;
  const size_t nt = std::min<size_t>(a.ntasks, all.size());
  for (size_t i = 0; i < nt; i++) tasks.push_back(all[i * all.size() / nt]);
  const bool cplx = !std::is_same_v<S, double>;
  std::vector<DiagParams> DP;
  for (int r = 0; r < a.rounds; r++) {
    DiagParams d(P, r % 3 == 1 ? 0.4 : 1.0); d.diag = r % 3 == 0 ? "default" : r % 3 == 1 ? (cplx ? "zheevr" : "dsyevr") : (cplx ? "zheev" : "dsyev"); DP.push_back(d);
  }
  std::vector<DiagInfo<S>> ref;
  DiagSerial<S> ser;
  for (auto &d : DP) ref.push_back(ser.diagonalisations(step, input.operators.opch, input.coef, input.diag, output, tasks, d, Sym.get(), P));
  verif_mpi::single = false;
  using namespace ex;
  boost::mpi::environment env; boost::mpi::communicator comm;
  for (;;) {
    std::vector<std::function<void()>> bodies;
    bodies.push_back([&]() {
      DiagMPI<S> eng(env, comm);
      for (size_t r = 0; r < DP.size(); r++) {
        auto got = static_cast<DiagEngine<S> &>(eng).diagonalisations(step, input.operators.opch, input.coef, input.diag, output, tasks, DP[r], Sym.get(), P);
        const auto d = difference(ref[r], got);
        if (!d.empty()) fail("round " + std::to_string(r + 1) + " (" + DP[r].diag + "): " + d);
      }
    });
    for (int i = 1; i < cfg.ranks; i++) bodies.push_back([&]() { run_nrg_slave(env, comm); });
    run(bodies);
    for (size_t i = 0; i < R.size(); i++) if (R[i]->threw) fail("rank " + std::to_string(i) + " raised an error: " + R[i]->what);
    rep.add();
    if (a.replay) break;
    if (rep.fails.size() >= 3) break;
    if (long(rep.execs) >= cfg.max_exec) break;
    if (!next_prefix(cfg.maxdev)) { rep.complete = true; break; }
  }
}
// ------------------------------------------------------------------ level T: transport of matrices and eigenvectors
template <typename S> void transport(size_t r, size_t c, Report &rep) {
  using namespace ex;
  boost::mpi::environment env; boost::mpi::communicator comm;
  auto val = [&](size_t i, size_t j) { if constexpr (std::is_same_v<S, double>) return S(1.0 / (1 + i * 37 + j)) + S(double(i)); else return S(1.0 / (1 + i * 37 + j) + i, double(j) - 0.1 * i); };
  EigenMatrix<S> m(r, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m(i, j) = val(i, j);
  RawEigen<S> e(std::min(r, c), c); for (size_t i = 0; i < std::min(r, c); i++) { e.val[i] = 0.3 * i - 1.0 / 3; for (size_t j = 0; j < c; j++) e.vec(i, j) = val(j, i); }
  prefix.clear();
  std::vector<std::function<void()>> bodies;
  auto same = [](const EigenMatrix<S> &x, const EigenMatrix<S> &y) { return x.rows() == y.rows() && x.cols() == y.cols() && (x.array() == y.array()).all(); };
  bodies.push_back([&]() { struct E : DiagMPI<S> { using DiagMPI<S>::DiagMPI; }; auto eng = new DiagMPI<S>(env, comm); eng->send_matrix(1, m); eng->send_raweigen(1, e); auto back = eng->receive_matrix(1); if (!same(back, m)) fail("matrix changed on the way back"); });
  bodies.push_back([&]() {
    auto eng = new DiagMPI<S>(env, comm);
    auto g = eng->receive_matrix(0);
    if (!same(g, m)) fail("matrix of size " + std::to_string(r) + "x" + std::to_string(c) + " arrives changed");
    auto ge = eng->receive_raweigen(0);
    if (!same(ge.vec, e.vec) || ge.val != e.val) fail("eigenpairs of size " + std::to_string(e.vec.rows()) + "x" + std::to_string(c) + " arrive changed");
    eng->send_matrix(0, g);
  });
  run(bodies);
  for (size_t i = 0; i < R.size(); i++) if (R[i]->threw) fail("rank " + std::to_string(i) + " raised an error: " + R[i]->what);
  rep.add();
}

// ------------------------------------------------------------------ level B: the whole program
struct Shared { int n; int taken[4000], opts[4000]; char fail[400]; int rc[16]; u64 messages; };
std::map<std::string, std::string> files_here() {
  std::map<std::string, std::string> f; DIR *d = opendir("."); 
  while (auto *e = readdir(d)) {
    std::string n = e->d_name; struct stat st;
    if (n == "." || n == ".." || stat(n.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { f[n + "/"] = "dir"; continue; }
    std::ifstream i(n, std::ios::binary); std::stringstream s; s << i.rdbuf(); f[n] = s.str();
  }
  closedir(d); return f;
}
void wipe(const std::map<std::string, std::string> &keep) { for (auto &[n, c] : files_here()) if (!keep.count(n)) { std::error_code ec; std::filesystem::remove_all(n, ec); } }
bool close_numbers(const std::string &a, const std::string &b) {
  std::istringstream x(a), y(b); std::string s, t;
  for (;;) { const bool p = bool(x >> s), q = bool(y >> t); if (p != q) return false; if (!p) return true; if (s == t) continue;
    char *e1, *e2; const double u = strtod(s.c_str(), &e1), v = strtod(t.c_str(), &e2); if (*e1 || *e2 || !(std::abs(u - v) <= 1e-8 * std::max(std::abs(u), std::abs(v)) + 1e-12)) return false; }
}
void level_b(Report &rep, bool replay) {
  using namespace ex;
  auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const auto inputs = files_here();
  auto child = [&](bool one) {
    memset(sh, 0, sizeof(Shared));
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
      alarm(60); messages = 0;
      static char name[] = "nrg"; static char *av[] = {name, nullptr};
      verif_mpi::single = one;
      if (one) { sh->rc[0] = nrg_program_main(1, av); exit(0); }
      std::vector<std::function<void()>> bodies;
      for (int i = 0; i < cfg.ranks; i++) bodies.push_back([&, i]() { sh->rc[i] = -1; sh->rc[i] = nrg_program_main(1, av); });
      run(bodies);
      for (size_t i = 0; i < R.size(); i++) if (R[i]->threw) sh->rc[i] = 1000;
      sh->n = int(std::min<size_t>(trail.size(), 4000));
      for (int i = 0; i < sh->n; i++) { sh->taken[i] = trail[i].taken; sh->opts[i] = trail[i].n; }
      strncpy(sh->fail, failure.c_str(), sizeof(sh->fail) - 1); sh->messages = messages;
      fflush(nullptr); _exit(0);
    }
    int st; waitpid(pid, &st, 0); return st;
  };
  int st = child(true); const int ref_rc = sh->rc[0]; const int ref_st = st;
  const auto ref = files_here(); wipe(inputs);
  for (;;) {
    st = child(false);
    trail.clear(); for (int i = 0; i < sh->n; i++) trail.push_back({sh->opts[i], sh->taken[i]});
    transitions += sh->n; messages += sh->messages;
    failure = sh->fail;
    if (!WIFEXITED(st)) fail("the program was killed by signal " + std::to_string(WTERMSIG(st)));
    else for (int i = 0; i < cfg.ranks; i++) if (sh->rc[i] != ref_rc) fail("exit status of rank " + std::to_string(i) + " is " + std::to_string(sh->rc[i]) + " instead of " + std::to_string(ref_rc));
    const auto got = files_here(); wipe(inputs);
    for (auto &[n, c] : ref) if (!got.count(n)) fail("result file " + n + " is missing"); else if (got.at(n) != c && !close_numbers(got.at(n), c)) fail("result file " + n + " differs from that of a single process");
    for (auto &[n, c] : got) if (!ref.count(n)) fail("file " + n + " is left behind");
    rep.add();
    if (replay || rep.fails.size() >= 3 || long(rep.execs) >= cfg.max_exec) break;
    if (!next_prefix(cfg.maxdev)) { rep.complete = true; break; }
  }
  (void)ref_st;
}

int main(int argc, char **argv) {
  std::string line;
  { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd); }
  struct rlimit { long a, b; };
  while (std::getline(std::cin, line)) {
    std::istringstream s(line); std::string dir, kind; int mode; s >> dir >> kind >> ex::cfg.ranks >> mode >> ex::cfg.policy >> ex::cfg.maxdev >> ex::cfg.max_exec >> ex::cfg.slave_delay;
    ex::cfg.mode = ex::Mode(mode);
    int a = 0, b = 0; std::string pre; s >> a >> b >> pre;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
      if (chdir(dir.c_str())) _exit(9);
      Report rep; ex::transitions = ex::messages = 0; ex::prefix.clear();
      bool replay = false;
      if (!pre.empty()) { replay = true; std::istringstream t(pre); std::string x; while (std::getline(t, x, ',')) if (!x.empty()) ex::prefix.push_back(atoi(x.c_str())); }
      try {
        if (kind == "A") { if (complex_data()) level_a<std::complex<double>>({a, b, replay}, rep); else level_a<double>({a, b, replay}, rep); }
        else if (kind == "B") level_b(rep, replay);
        else if (kind == "T") {
          verif_mpi::single = false;
          std::vector<std::pair<size_t, size_t>> sz;
          for (int r = 0; r <= a; r++) for (int c = 0; c <= a; c++) sz.push_back({r, c});
          for (int k = 1; k <= b; k *= 2) { sz.push_back({k, k}); sz.push_back({1, k}); sz.push_back({k, 3}); sz.push_back({k - 1, k + 1}); }
          for (auto [r, c] : sz) { transport<double>(r, c, rep); transport<std::complex<double>>(r, c, rep); }
          rep.complete = true;
        }
      } catch (std::exception &e) { ex::failure = std::string("error in the harness or the program: ") + e.what(); rep.add(); rep.fails.push_back({ex::failure, ""}); }
      rep.print(); fflush(nullptr); _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) fprintf(stderr, "RESULT {\"execs\":0,\"states\":0,\"transitions\":0,\"messages\":0,\"depth\":0,\"complete\":false,\"fails\":[[\"crashed: status %d\",\"\"]]}\n", st);
  }
}
