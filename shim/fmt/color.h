// Compatibility layer: the code targets {fmt} >= 11, this sandbox has 9.1.
#pragma once
#include_next <fmt/color.h>
#include <cstdio>
namespace fmt {
template <typename... T> inline void print(std::FILE *f, const text_style &ts, format_string<T...> s, T &&...args) {
  vprint(f, ts, string_view(s), fmt::make_format_args(args...));
}
} // namespace fmt
