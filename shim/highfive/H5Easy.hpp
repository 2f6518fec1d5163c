// Minimal stand-in for the HighFive H5Easy interface (HighFive is not installed in this sandbox).
// Datasets are kept in memory; nothing is written unless VERIF_H5_TEXT is set, in which case a text
// rendering is written next to the file name on destruction.
#pragma once
#include <complex>
#include <cstddef>
#include <cstdlib>
#include <fstream>
#include <map>
#include <sstream>
#include <iomanip>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <Eigen/Dense>

namespace H5Easy {
namespace verif_detail {
template <typename T> struct is_vec : std::false_type {};
template <typename T> struct is_cplx : std::false_type {};
template <typename T> struct is_cplx<std::complex<T>> : std::true_type {};
template <typename T, typename A> struct is_vec<std::vector<T, A>> : std::true_type {};
template <typename T> void render(std::ostream &os, const T &x) {
  if constexpr (is_vec<T>::value) {
    os << '[' << x.size();
    for (const auto &e : x) { os << ' '; render(os, e); }
    os << ']';
  } else if constexpr (std::is_arithmetic_v<T>) os << +x;
  else if constexpr (is_cplx<T>::value) os << x.real() << ' ' << x.imag();
  else if constexpr (std::is_same_v<T, std::string>) os << '"' << x << '"';
  else if constexpr (std::is_convertible_v<T, std::string>) os << '"' << std::string(x) << '"';
  else {
    os << '{' << x.rows() << 'x' << x.cols();
    for (long i = 0; i < x.rows(); i++) for (long j = 0; j < x.cols(); j++) os << ' ' << x(i, j);
    os << '}';
  }
}
} // namespace verif_detail
enum class DumpMode { Create, Overwrite };
class File {
 public:
  static constexpr unsigned ReadOnly = 0, ReadWrite = 1, Truncate = 2, Excl = 4, Create = 8, Overwrite = 2, OpenOrCreate = 9;
  std::map<std::string, std::string> data;
  std::string name;
  explicit File(const std::string &n, unsigned = ReadOnly) : name(n) {}
  File(const File &) = delete;
  ~File() {
    if (std::getenv("VERIF_H5_TEXT")) {
      std::ofstream f(name + ".txt");
      for (const auto &[k, v] : data) f << k << ' ' << v << '\n';
    }
  }
  void flush() {}
  [[nodiscard]] bool exist(const std::string &p) const { return data.count(p) > 0; }
};
template <typename T> void dump(File &f, const std::string &path, const T &x, DumpMode m = DumpMode::Create) {
  if (m == DumpMode::Create && f.data.count(path)) throw std::runtime_error("dataset exists: " + path);
  std::ostringstream os;
  os << std::setprecision(17);
  verif_detail::render(os, x);
  f.data[path] = os.str();
}
} // namespace H5Easy
namespace HighFive { using H5Easy::File; }
