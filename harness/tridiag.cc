// Drives the solver's own tridiagonalisation on tables read from stdin.
// Input per job: nch Nmax bandrescale preccpp, then per channel: M, ep[0..M] em u0p u0m (hex or decimal doubles).
#include <cstdio>
#include <iostream>
#include <sstream>
#include <memory>
#include "traits.hpp"
#include "params.hpp"
#include "coef.hpp"
#include "tridiag.hpp"
using namespace NRG;
static double rd() { std::string s; if (!(std::cin >> s)) std::exit(0); return std::strtod(s.c_str(), nullptr); }
int main() {
  std::ostringstream sink;
  auto *old = std::cout.rdbuf();
  for (;;) {
    int nch = (int)rd(); size_t Nmax = (size_t)rd(); double br = rd(); size_t prec = (size_t)rd();
    Params P;
    P.symtype = std::string("QS");
    P.set_channels_and_combs(nch);
    P.bandrescale = br; P.preccpp = prec;
    Coef<double> coef(P);
    std::ostringstream z; for (int i = 0; i < nch; i++) z << "0 0 ";
    std::vector<std::vector<double>> t[4];
    for (int k = 0; k < 4; k++) t[k].resize(nch);
    for (int a = 0; a < nch; a++) { int M = (int)rd(); for (int k = 0; k < 4; k++) for (int m = 0; m <= M; m++) t[k][a].push_back(rd()); }
    set_of_coef_tables<double> *tab[4] = {&coef.ep, &coef.em, &coef.u0p, &coef.u0m};
    for (int k = 0; k < 4; k++) {
      std::ostringstream o; o.precision(17);
      for (int a = 0; a < nch; a++) { o << t[k][a].size() - 1 << "\n"; for (auto x : t[k][a]) o << x << "\n"; }
      std::istringstream in(o.str()); tab[k]->read(in, nch);
    }
    { std::istringstream in(z.str()); coef.xi.read(in, nch); }
    { std::istringstream in(z.str()); coef.zeta.read(in, nch); }
    sink.str(""); std::cout.rdbuf(sink.rdbuf());
    try { Tridiag<double>(coef, Nmax, P); } catch (std::exception &e) { std::cout.rdbuf(old); std::printf("EXC %s\n", e.what()); continue; }
    std::cout.rdbuf(old);
    for (int a = 0; a < nch; a++) for (size_t n = 0; n <= Nmax; n++) std::printf("%.17g %.17g ", coef.xi(n, a), coef.zeta(n, a));
    std::printf("\n"); std::fflush(stdout);
  }
}
