// The instantiate tool linked with the one-process message layer.
#include "mpi_single.hpp"
#include "tools/instantiate/instantiate.cc"
