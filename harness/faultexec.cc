// Runs programs under the fault injector. One job per line, tab-separated:
// "at:action:errno,...;prefix;events file;limit", cwd, stdin file (or -), stdout+stderr base name, program, arguments...
// Reply: "<exit status or -signal> <faults fired>". Standard output goes to BASE.out (inside the prefix: its writes are file operations), standard error to BASE.err.
#include "faultinj.hpp"
#include <sys/resource.h>
#include <fstream>
#include <iostream>
#include <sstream>
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::vector<std::string> w, s; std::stringstream ss(line); std::string x;
    while (std::getline(ss, x, '\t')) w.push_back(x);
    std::stringstream sp(w.at(0)); while (std::getline(sp, x, ';')) s.push_back(x);
    std::vector<fi::Plan> plans; std::stringstream ps(s.at(0));
    while (std::getline(ps, x, ',')) { std::vector<std::string> q; std::stringstream qs(x); std::string y; while (std::getline(qs, y, ':')) q.push_back(y); plans.push_back({atol(q.at(0).c_str()), q.at(1), atoi(q.at(2).c_str())}); }
    const int in = open(w[2] == "-" ? "/dev/null" : w[2].c_str(), O_RDONLY | O_CLOEXEC);
    const int out = open((w[3] + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644), err = open((w[3] + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644);
    auto r = fi::run([&] {
      if (chdir(w[1].c_str())) _exit(250);
      dup2(in, 0); dup2(out, 1); dup2(err, 2);
      struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
      std::vector<char *> av; for (size_t i = 4; i < w.size(); i++) av.push_back(w[i].data()); av.push_back(nullptr);
      execv(av[0], av.data()); _exit(251);
    }, plans, s.at(1), atof(s.at(3).c_str()));
    close(in); close(out); close(err);
    std::ofstream f(s.at(2));
    for (auto &e : r.events) f << e.kind << '\t' << e.name << '\t' << e.path << '\t' << e.len << '\t' << e.ret << '\n';
    f.close();
    std::cout << (WIFEXITED(r.status) ? WEXITSTATUS(r.status) : -WTERMSIG(r.status)) << ' ' << r.fired << std::endl;
  }
}
