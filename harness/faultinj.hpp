// Runs a child under ptrace and enumerates its file-related system calls; one of them (or all from one on) can be made to fail, to transfer
// only part of the data, or to be the last thing the process does. Only system calls on paths below a given directory count.
#pragma once
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <cerrno>
#include <climits>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <algorithm>

namespace fi {
struct Event { std::string name, path; long len = 0, ret = 0; char kind = '?'; };   // kind: o=open w=write r=read c=close m=metadata
// actions: none; fail (this call returns the error and does nothing); full (this and all later writes fail with ENOSPC);
// part (half of the data is transferred); partfull (half is written, all later writes fail); kill (killed before); killafter; torn (half written, then killed)
struct Plan { long at = -1; std::string action; int err = EIO; };
struct Result { int status = 0, fired = 0; bool timeout = false; std::vector<Event> events; };

struct Call { const char *name; char kind; int fdarg; int patharg; int dirarg; int lenarg; };
inline const Call *lookup(long nr) {
  static const struct { long nr; Call c; } T[] = {
    {SYS_open, {"open", 'o', -1, 0, -1, -1}}, {SYS_openat, {"openat", 'o', -1, 1, 0, -1}}, {SYS_creat, {"creat", 'o', -1, 0, -1, -1}},
    {SYS_read, {"read", 'r', 0, -1, -1, 2}}, {SYS_pread64, {"pread64", 'r', 0, -1, -1, 2}}, {SYS_readv, {"readv", 'r', 0, -1, -1, -1}},
    {SYS_write, {"write", 'w', 0, -1, -1, 2}}, {SYS_pwrite64, {"pwrite64", 'w', 0, -1, -1, 2}}, {SYS_writev, {"writev", 'w', 0, -1, -1, -1}},
    {SYS_close, {"close", 'c', 0, -1, -1, -1}}, {SYS_rename, {"rename", 'm', -1, 0, -1, -1}}, {SYS_renameat, {"renameat", 'm', -1, 1, 0, -1}},
    {SYS_renameat2, {"renameat2", 'm', -1, 1, 0, -1}}, {SYS_unlink, {"unlink", 'm', -1, 0, -1, -1}}, {SYS_unlinkat, {"unlinkat", 'm', -1, 1, 0, -1}},
    {SYS_rmdir, {"rmdir", 'm', -1, 0, -1, -1}}, {SYS_mkdir, {"mkdir", 'm', -1, 0, -1, -1}}, {SYS_mkdirat, {"mkdirat", 'm', -1, 1, 0, -1}},
    {SYS_truncate, {"truncate", 'm', -1, 0, -1, -1}}, {SYS_ftruncate, {"ftruncate", 'm', 0, -1, -1, -1}}, {SYS_fsync, {"fsync", 'm', 0, -1, -1, -1}},
    {SYS_fdatasync, {"fdatasync", 'm', 0, -1, -1, -1}}, {SYS_link, {"link", 'm', -1, 0, -1, -1}}, {SYS_linkat, {"linkat", 'm', -1, 1, 0, -1}},
    {SYS_copy_file_range, {"copy_file_range", 'w', 2, -1, -1, 4}}, {SYS_sendfile, {"sendfile", 'w', 0, -1, -1, 3}}, {SYS_fallocate, {"fallocate", 'm', 0, -1, -1, -1}},
  };
  for (auto &t : T) if (t.nr == nr) return &t.c;
  return nullptr;
}
inline std::string peekstr(pid_t p, unsigned long a) {
  char b[PATH_MAX]; size_t n = 0;
  while (n < sizeof b - 1) {
    size_t want = 4096 - (a + n) % 4096; if (want > sizeof b - 1 - n) want = sizeof b - 1 - n;
    iovec l{b + n, want}, r{(void *)(a + n), want}; ssize_t k = process_vm_readv(p, &l, 1, &r, 1, 0); if (k <= 0) break;
    for (ssize_t i = 0; i < k; i++) if (!b[n + size_t(i)]) return std::string(b, n + size_t(i));
    n += size_t(k);
  }
  return std::string(b, n);
}
inline std::string link_of(const std::string &l) { char b[PATH_MAX]; ssize_t k = readlink(l.c_str(), b, sizeof b - 1); return k < 0 ? "" : std::string(b, size_t(k)); }
inline unsigned long long arg(const user_regs_struct &r, int i) { switch (i) { case 0: return r.rdi; case 1: return r.rsi; case 2: return r.rdx; case 3: return r.r10; case 4: return r.r8; } return r.r9; }
inline std::string path_of(pid_t p, const Call &c, const user_regs_struct &r) {
  const std::string pr = "/proc/" + std::to_string(p);
  if (c.fdarg >= 0) return link_of(pr + "/fd/" + std::to_string(int(arg(r, c.fdarg))));
  std::string s = peekstr(p, arg(r, c.patharg));
  if (!s.empty() && s[0] == '/') return s;
  std::string base = c.dirarg >= 0 && int(arg(r, c.dirarg)) != AT_FDCWD ? link_of(pr + "/fd/" + std::to_string(int(arg(r, c.dirarg)))) : link_of(pr + "/cwd");
  while (s.rfind("./", 0) == 0) s = s.substr(2);
  return base + "/" + s;
}
// child(): runs in the forked process (must not return; an exec is followed)
inline Result run(const std::function<void()> &child, const std::vector<Plan> &plans, const std::string &prefix, double timeout = 60) {
  Result R;
  pid_t p = fork();
  if (p == 0) { ptrace(PTRACE_TRACEME, 0, 0, 0); alarm(unsigned(timeout)); raise(SIGSTOP); child(); _exit(99); }
  int st = 0;
  waitpid(p, &st, 0);
  ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
  bool entry = true, full = false, counted = false; char now = 0; // now: what to do at the exit of this call: 'f'ail 'k'ill
  int err = 0; long deliver = 0;
  for (;;) {
    if (ptrace(PTRACE_SYSCALL, p, 0, deliver)) { if (errno != ESRCH) break; }
    deliver = 0;
    if (waitpid(p, &st, 0) < 0) break;
    if (WIFEXITED(st) || WIFSIGNALED(st)) break;
    if (!WIFSTOPPED(st)) continue;
    const int sig = WSTOPSIG(st);
    if (sig != (SIGTRAP | 0x80)) { if (sig != SIGTRAP && sig != SIGSTOP) deliver = sig; continue; }
    user_regs_struct r; if (ptrace(PTRACE_GETREGS, p, 0, &r)) continue;
    if (entry) {
      entry = false; now = 0; counted = false;
      const Call *c = lookup(long(r.orig_rax));
      if (!c) continue;
      std::string path = path_of(p, *c, r);
      if (path.compare(0, prefix.size(), prefix)) continue;
      Event e; e.name = c->name; e.path = path; e.kind = c->kind;
      if (c->lenarg >= 0) e.len = long(arg(r, c->lenarg));
      if (long(r.orig_rax) == SYS_writev || long(r.orig_rax) == SYS_readv) { iovec v[16]; size_t n = std::min<size_t>(16, r.rdx); iovec l{v, n * sizeof(iovec)}, q{(void *)r.rsi, n * sizeof(iovec)}; if (process_vm_readv(p, &l, 1, &q, 1, 0) > 0) for (size_t i = 0; i < n; i++) e.len += long(v[i].iov_len); }
      const long idx = long(R.events.size()); R.events.push_back(e); counted = true;
      auto shrink = [&] {
        if (long(r.orig_rax) == SYS_writev || long(r.orig_rax) == SYS_readv) {   // only the first half of the first non-empty piece
          iovec v[16]; size_t n = std::min<size_t>(16, r.rdx); iovec l{v, n * sizeof(iovec)}, q{(void *)r.rsi, n * sizeof(iovec)}; process_vm_readv(p, &l, 1, &q, 1, 0);
          for (size_t i = 0; i < n; i++) if (v[i].iov_len) { r.orig_rax = r.orig_rax == SYS_writev ? SYS_write : SYS_read; r.rax = r.orig_rax; r.rsi = (unsigned long long)v[i].iov_base; r.rdx = (v[i].iov_len + 1) / 2; break; }
        } else if (c->lenarg == 2) r.rdx = (r.rdx + 1) / 2;
        ptrace(PTRACE_SETREGS, p, 0, &r);
      };
      auto block = [&](int e2) { r.orig_rax = (unsigned long long)-1; ptrace(PTRACE_SETREGS, p, 0, &r); now = 'f'; err = e2; };
      const Plan *hit = nullptr; for (auto &q : plans) if (q.at == idx) hit = &q;
      if (hit) {
        const Plan &plan = *hit;
        R.fired++;
        if (plan.action == "fail") block(plan.err);
        else if (plan.action == "full") { full = true; if (e.kind == 'w') block(ENOSPC); }
        else if (plan.action == "part") shrink();
        else if (plan.action == "len") { if (c->lenarg == 2) { r.rdx = std::min<unsigned long long>(r.rdx, plan.err); ptrace(PTRACE_SETREGS, p, 0, &r); } }
        else if (plan.action == "partfull") { shrink(); full = true; }
        else if (plan.action == "kill") { kill(p, SIGKILL); }
        else if (plan.action == "killafter") now = 'k';
        else if (plan.action == "torn") { shrink(); now = 'k'; }
      } else if (full && e.kind == 'w') block(ENOSPC);
    } else {
      entry = true;
      if (now == 'f') { r.rax = (unsigned long long)(-err); ptrace(PTRACE_SETREGS, p, 0, &r); }
      if (counted) R.events.back().ret = long(r.rax);
      if (now == 'k') kill(p, SIGKILL);
      now = 0; counted = false;
    }
  }
  R.timeout = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
  R.status = st;
  return R;
}
// the faults that make sense at an event
inline std::vector<Plan> faults(const Event &e, long i, bool crash, bool errors, bool all_errnos = false) {
  std::vector<Plan> v;
  if (crash) { v.push_back({i, "kill", 0}); v.push_back({i, "killafter", 0}); if (e.kind == 'w' && e.len > 1) v.push_back({i, "torn", 0}); }
  if (errors) {
    if (e.kind == 'o') { v.push_back({i, "fail", EACCES}); if (all_errnos) { v.push_back({i, "fail", ENOSPC}); v.push_back({i, "fail", EMFILE}); } }
    else if (e.kind == 'r') { v.push_back({i, "fail", EIO}); if (e.len > 1) v.push_back({i, "part", 0}); }
    else if (e.kind == 'w') { v.push_back({i, "full", 0}); v.push_back({i, "fail", EIO}); if (e.len > 1) { v.push_back({i, "part", 0}); v.push_back({i, "partfull", 0}); } }
    else if (e.kind == 'c') v.push_back({i, "fail", EIO});
    else v.push_back({i, "fail", e.name.rfind("rename", 0) == 0 || e.name.rfind("mkdir", 0) == 0 ? ENOSPC : EACCES});
  }
  return v;
}
}
