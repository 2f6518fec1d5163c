// Runs the program's own main() in a forked child for every job directory named on stdin.
// Reply per job: "<exit status or -signal>". The child's stdout+stderr go to DIR/log.
#include "mpi_single.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#define main nrg_program_main
#include "nrg.cc"
#undef main
#include "faultinj.hpp"
// "@at:action:errno,...;prefix;file for the events" as first word: the job runs with these faults (see faultinj.hpp), log in DIR.log
static fi::Result faulty(const std::string &spec, const std::function<void()> &job, unsigned limit) {
  std::vector<std::string> w; std::stringstream ss(spec.substr(1)); std::string x;
  while (std::getline(ss, x, ';')) w.push_back(x);
  std::vector<fi::Plan> plans; std::stringstream ps(w.at(0));
  while (std::getline(ps, x, ',')) { std::vector<std::string> q; std::stringstream qs(x); std::string y; while (std::getline(qs, y, ':')) q.push_back(y); plans.push_back({atol(q.at(0).c_str()), q.at(1), atoi(q.at(2).c_str())}); }
  auto r = fi::run(job, plans, w.at(1), limit);
  std::ofstream f(w.at(2)); f << r.fired << '\n';
  for (auto &e : r.events) f << e.kind << '\t' << e.name << '\t' << e.path << '\t' << e.len << '\t' << e.ret << '\n';
  return r;
}
int main(int argc, char **argv) {
  std::string line;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  const char *lim = getenv("VERIF_JOB_SECONDS");
  while (std::getline(std::cin, line)) {
    // "dir" or "dir\targ\targ..."
    std::vector<std::string> w; std::stringstream ss(line); std::string x;
    while (std::getline(ss, x, '\t')) w.push_back(x);
    fflush(nullptr);
    std::string faults; if (!w[0].empty() && w[0][0] == '@') { faults = w[0]; w.erase(w.begin()); }
    const auto job = [&] {
      if (chdir(w[0].c_str())) _exit(250);
      int n = open("/dev/null", O_RDONLY); dup2(n, 0);
      int l = open(faults.empty() ? "log" : (w[0] + ".log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(l, 1); dup2(l, 2); close(l);
      struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
      alarm(lim ? atoi(lim) : 60);
      std::vector<char *> av; static char name[] = "nrg"; av.push_back(name);
      for (size_t i = 1; i < w.size(); i++) av.push_back(w[i].data());
      av.push_back(nullptr);
      exit(nrg_program_main(int(av.size()) - 1, av.data()));
    };
    int st = 0;
    if (!faults.empty()) st = faulty(faults, job, lim ? unsigned(atoi(lim)) : 60).status;
    else { const pid_t pid = fork(); if (pid == 0) job(); waitpid(pid, &st, 0); }
    printf("%d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)); fflush(stdout);
  }
}
