#pragma once
#include "communicator.hpp"
namespace boost { namespace mpi {
template <typename T> void broadcast(const communicator &c, T &v, int root) {
  if (c.size() == 1) return;
  if (c.rank() == root) { auto p = detail::pack(v); verif_mpi::bcast(root, p); }
  else { verif_mpi::Payload p; verif_mpi::bcast(root, p); detail::unpack(p, v); }
}
}}
