// Drives single routines of the solver on inputs read from stdin. One line per request: command and arguments.
#include "mpi_single.hpp"
#include <cstdio>
#include <iostream>
#include <sstream>
#include <memory>
#include <nrg-general.hpp>
using namespace NRG;
using cd = std::complex<double>;
static std::streambuf *real_out;
struct Mute { std::ostringstream s; std::streambuf *o; Mute() : o(std::cout.rdbuf()) { std::cout.rdbuf(s.rdbuf()); } ~Mute() { std::cout.rdbuf(o); } };
static std::string one_line(std::string s) { for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; return s.substr(0, 200); }
static std::string csv(const Invar &I) { std::ostringstream o; I.insertor(o, ","); return o.str(); }

// sectors SYM CH SUBSTEPS COMPLEX ; then on the same line groups "I:dim/I:dim/.." separated by blanks: every group is a set of
// sectors of one shell; the answer lists the sectors of the next shell
template <scalar S> void sectors(std::istringstream &in, const std::string &sym, int ch, bool sub) {
  Params P;
  P.substeps = sub;
  std::shared_ptr<Symmetry<S>> Sym;
  { Mute m; Sym = set_symmetry<S>(P, sym, ch); }
  std::string out = "OK " + std::to_string(Sym->nr_combs()) + " " + std::to_string(Invar::invdim);
  for (auto t : Invar::qntype) out += " " + std::to_string(t);
  out += " |";
  for (const auto i : Sym->combs()) out += " " + csv(Sym->QN_subspace(i)) + "*" + std::to_string(Sym->mult(Sym->QN_subspace(i)));
  std::puts(out.c_str());
  std::string g;
  while (in >> g) {
    DiagInfo<S> d;
    std::stringstream gs(g); std::string item;
    while (std::getline(gs, item, '/')) {
      const auto c = item.find(':');
      std::string q = item.substr(0, c); for (auto &x : q) if (x == ',') x = ' ';
      std::istringstream qs(q); Invar I; qs >> I;
      const size_t n = std::stoul(item.substr(c + 1));
      d[I] = NRG::Eigen<S>(n, n);
    }
    std::string o, err;
    // own: multiplicity, allowed, printed and parsed back
    for (const auto &[I, e] : d) {
      std::istringstream p1(I.str()); Invar J; p1 >> J;
      std::string nm = I.name(); for (auto &x : nm) if (x == '_') x = ' ';
      std::istringstream p2(nm); Invar K; p2 >> K;
      std::ostringstream os; os << I;
      if (!(J == I) || !(K == I) || os.str() != I.str() || !(I == J) || (I != J) || I < J || J < I) err += " parse(" + I.str() + ")";
      Invar A = I; A.inverse(); A.inverse(); if (!(A == I)) err += " inverse(" + I.str() + ")";
      o += csv(I) + ":" + std::to_string(e.getnrkept()) + ":" + std::to_string(Sym->mult(I)) + ":" + std::to_string(int(Sym->Invar_allowed(I))) + " ";
    }
    o += "->";
    SubspaceStructure st{d, Sym.get()};
    TaskList tl{st, false};
    std::set<Invar> tasks(tl.get().begin(), tl.get().end());
    if (tasks.size() != tl.get().size()) err += " task twice";
    size_t last = SIZE_MAX;
    for (const auto &I : tl.get()) { const auto n = st.at(I).total(); if (n > last) err += " task order"; last = n; }
    for (const auto &[I, rm] : st) {
      const size_t tot = rm.total();
      if ((tot > 0) != (tasks.count(I) > 0)) err += " task list(" + I.str() + ")";
      if (!tot) continue;
      const auto anc = Sym->ancestors(I);
      if (anc.size() != Sym->nr_combs() || rm.combs() != Sym->nr_combs()) { err += " number of ancestors"; continue; }
      std::vector<int> used(tot);
      o += " " + csv(I) + ":" + std::to_string(tot) + ":" + std::to_string(Sym->mult(I)) + ":" + std::to_string(int(Sym->Invar_allowed(I)));
      for (const auto i : Sym->combs()) {
        if (!(Sym->ancestor(I, i) == anc[i]) || !(rm.ancestor(i) == anc[i])) err += " ancestor(" + I.str() + ")";
        const size_t n = rm.rmax(i);
        if (rm[i] != n || rm.exists(i) != (n > 0)) err += " rmax(" + I.str() + ")";
        const auto [off, len] = rm.chunk(i + 1); const auto [a, b] = rm.part(i); const auto [a2, b2] = rm.part_mma(i + 1);
        if (off != rm.offset(i) || len != n || a != off || b != off + n || a2 != a || b2 != b) err += " part(" + I.str() + ")";
        size_t cnt = 0;
        for (const auto k : rm.view(i)) { cnt++; if (k >= tot || used[k]++) err += " view(" + I.str() + ")"; }
        size_t cnt2 = 0; for (const auto k : rm.view_mma(i + 1)) { cnt2++; if (k < off || k >= off + n) err += " view_mma"; }
        if (cnt != n || cnt2 != n) err += " view size(" + I.str() + ")";
        for (const auto j : Sym->combs()) if (i != j && rm.offdiag_contributes(i + 1, j + 1) != (n > 0 && rm.rmax(j) > 0)) err += " offdiag";
        if (n) {
          if (!d.contains(anc[i]) || d.size_subspace(anc[i]) != n) err += " dimension of the ancestor(" + I.str() + ")";
          if (!Sym->triangle_inequality(I, anc[i], Sym->QN_subspace(i))) err += " triangle(" + I.str() + ")";
          bool f = false; for (const auto &J : Sym->new_subspaces(anc[i])) f |= J == I;
          if (!f) err += " not a successor of its ancestor(" + I.str() + ")";
          o += ":" + csv(anc[i]) + "=" + std::to_string(n) + "=" + std::to_string(i);
        }
      }
      for (auto u : used) if (u != 1) { err += " rows not covered(" + I.str() + ")"; break; }
    }
    // every successor that is coupled has the sector among its ancestors
    for (const auto &[I0, e] : d)
      for (const auto &J : Sym->new_subspaces(I0)) {
        bool f = false; for (const auto &A : Sym->ancestors(J)) f |= A == I0;
        if (!f) err += " not an ancestor of its successor(" + I0.str() + ")";
      }
    std::printf("%s ! %s\n", o.c_str(), err.substr(0, 300).c_str());
  }
  std::puts("END");
}

template <scalar S> DiagInfo<S> diag_of(const std::vector<std::pair<Invar, std::vector<double>>> &spec) {
  DiagInfo<S> d;
  for (const auto &[I, v] : spec) {
    NRG::Eigen<S> e(v.size(), v.size());
    d[I] = e;
  }
  return d;
}

int main() {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line); std::string cmd; in >> cmd;
    try {
      if (cmd == "sectors") {
        std::string sym; int ch, sub, cplx; in >> sym >> ch >> sub >> cplx;
        if (cplx) sectors<cd>(in, sym, ch, sub); else sectors<double>(in, sym, ch, sub);
      }
    } catch (std::exception &e) { std::printf("EXC %s\nEND\n", one_line(e.what()).c_str()); }
    std::fflush(stdout);
  }
}
