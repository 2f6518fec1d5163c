#pragma once
#include "communicator.hpp"
namespace boost { namespace mpi {
class environment {
 public:
  environment(int &, char **&, bool = true) {}
  explicit environment(bool = true) {}
  environment(const environment &) = delete;
  static bool initialized() { return true; }
  static void abort(int) { verif_mpi::error("abort"); }
};
}}
