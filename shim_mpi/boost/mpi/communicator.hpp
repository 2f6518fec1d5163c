// Stand-in for Boost.MPI: the same interface on top of a message layer that the harness supplies
// (single process, or any number of ranks under a controlled scheduler). Objects travel through the
// real Boost serialization of the program; arrays and scalars as raw bytes with their type and count.
#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <complex>
#include <typeinfo>
#include <type_traits>
#include <stdexcept>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/complex.hpp>
#include <boost/optional.hpp>

namespace verif_mpi {
struct Payload { const std::type_info *type = nullptr; long count = -1; std::string bytes; };
struct Stat { int source = -1, tag = -1; };
int rank();
int size();
void send(int dest, int tag, Payload &&);
Stat recv(int source, int tag, Payload &);
bool iprobe(int source, int tag, Stat &);
Stat probe(int source, int tag);
void bcast(int root, Payload &);
void error(const std::string &what); // a use of the interface that is an error in MPI
}

namespace boost { namespace mpi {
constexpr int any_source = -1;
constexpr int any_tag = -1;
class status {
  int s_, t_;
 public:
  status(int s = -1, int t = -1) : s_(s), t_(t) {}
  int source() const { return s_; }
  int tag() const { return t_; }
  int error() const { return 0; }
};
namespace detail {
template <typename T> struct raw : std::is_arithmetic<T> {};
template <typename T> struct raw<std::complex<T>> : std::is_arithmetic<T> {};
template <typename T> verif_mpi::Payload pack(const T &v) {
  verif_mpi::Payload p; p.type = &typeid(T);
  if constexpr (raw<T>::value) p.bytes.assign(reinterpret_cast<const char *>(&v), sizeof(T));
  else {
    std::ostringstream o(std::ios::binary);
    { boost::archive::binary_oarchive a(o, boost::archive::no_header); a << v; }
    p.bytes = o.str();
  }
  return p;
}
template <typename T> void unpack(const verif_mpi::Payload &p, T &v) {
  if (!p.type || *p.type != typeid(T) || p.count != -1) { verif_mpi::error("a message is received as an object of another type"); return; }
  if constexpr (raw<T>::value) std::copy(p.bytes.begin(), p.bytes.end(), reinterpret_cast<char *>(&v));
  else {
    std::istringstream i(p.bytes, std::ios::binary);
    boost::archive::binary_iarchive a(i, boost::archive::no_header); a >> v;
  }
}
}
class communicator {
 public:
  int rank() const { return verif_mpi::rank(); }
  int size() const { return verif_mpi::size(); }
  template <typename T> void send(int dest, int tag, const T &v) const { verif_mpi::send(dest, tag, detail::pack(v)); }
  template <typename T> void send(int dest, int tag, const T *v, int n) const {
    verif_mpi::Payload p; p.type = &typeid(T); p.count = n;
    if (n < 0) { verif_mpi::error("negative message size"); return; }
    if constexpr (detail::raw<T>::value) p.bytes.assign(reinterpret_cast<const char *>(v), sizeof(T) * size_t(n));
    else { std::ostringstream o(std::ios::binary); { boost::archive::binary_oarchive a(o, boost::archive::no_header); for (int i = 0; i < n; i++) a << v[i]; } p.bytes = o.str(); }
    verif_mpi::send(dest, tag, std::move(p));
  }
  template <typename T> void send(int dest, int tag, T *v, int n) const { send(dest, tag, const_cast<const T *>(v), n); }
  void send(int dest, int tag) const { verif_mpi::send(dest, tag, verif_mpi::Payload{&typeid(void), -1, {}}); }
  template <typename T> status recv(int source, int tag, T &v) const {
    verif_mpi::Payload p; const auto s = verif_mpi::recv(source, tag, p); detail::unpack(p, v); return {s.source, s.tag};
  }
  template <typename T> status recv(int source, int tag, T *v, int n) const {
    verif_mpi::Payload p; const auto s = verif_mpi::recv(source, tag, p);
    if (!p.type || *p.type != typeid(T) || p.count < 0) verif_mpi::error("a message is received as an array of another type");
    else if (p.count > n) verif_mpi::error("a message is longer than the receive buffer");
    else {
      if constexpr (detail::raw<T>::value) std::copy(p.bytes.begin(), p.bytes.end(), reinterpret_cast<char *>(v));
      else { std::istringstream i(p.bytes, std::ios::binary); boost::archive::binary_iarchive a(i, boost::archive::no_header); for (int k = 0; k < p.count; k++) a >> v[k]; }
    }
    return {s.source, s.tag};
  }
  status recv(int source, int tag) const { verif_mpi::Payload p; const auto s = verif_mpi::recv(source, tag, p); return {s.source, s.tag}; }
  boost::optional<status> iprobe(int source = any_source, int tag = any_tag) const {
    verif_mpi::Stat s;
    if (!verif_mpi::iprobe(source, tag, s)) return {};
    return status{s.source, s.tag};
  }
  status probe(int source = any_source, int tag = any_tag) const { const auto s = verif_mpi::probe(source, tag); return {s.source, s.tag}; }
  void barrier() const { verif_mpi::Payload p = detail::pack(0); verif_mpi::bcast(0, p); }
  void abort(int) const { verif_mpi::error("abort"); }
};
}}
