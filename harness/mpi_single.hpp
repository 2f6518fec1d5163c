// Message layer for one process: no partner exists.
#pragma once
#include <boost/mpi/communicator.hpp>
namespace verif_mpi {
int rank() { return 0; }
int size() { return 1; }
void error(const std::string &w) { throw std::runtime_error("MPI: " + w); }
void send(int, int, Payload &&) { error("send without partner"); }
Stat recv(int, int, Payload &) { error("recv without partner"); return {}; }
bool iprobe(int, int, Stat &) { return false; }
Stat probe(int, int) { error("probe without partner"); return {}; }
void bcast(int, Payload &) {}
}
