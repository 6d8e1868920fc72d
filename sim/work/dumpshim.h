// Included before tools/src/podio-dump-tool.cpp: its output, its end and its
// main function belong to the simulation.
#ifndef SIM_DUMPSHIM_H
#define SIM_DUMPSHIM_H
#include <algorithm>
#include <charconv>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <iterator>
#include <map>
#include <numeric>
#include <optional>
#include <ranges>
#include <string>
#include <tuple>
#include <vector>

namespace tool {
FILE* out();
FILE* err();
struct Exit {
  int status;
};
} // namespace tool
namespace std {
[[noreturn]] inline void sim_tool_exit(int s) { throw ::tool::Exit{s}; }
} // namespace std
#undef stdout
#undef stderr
#define stdout (::tool::out())
#define stderr (::tool::err())
#define FMT_HEADER_ONLY 1
#include <fmt/core.h>
#include <fmt/ostream.h>
#include <fmt/ranges.h>
#if FMT_VERSION < 100000
// the version of fmt that is installed here does not have it yet
namespace fmt {
template <typename... T> void println(FILE* f, format_string<T...> s, T&&... args) { print(f, "{}\n", format(s, std::forward<T>(args)...)); }
template <typename... T> void println(format_string<T...> s, T&&... args) { println(stdout, s, std::forward<T>(args)...); }
} // namespace fmt
#endif
inline int sim_tool_puts(const char* s) { return fputs(s, ::tool::out()) < 0 || fputc('\n', ::tool::out()) == EOF ? EOF : 1; }
namespace std {
using ::sim_tool_puts;
}
#define exit sim_tool_exit
#define printf(...) fprintf(::tool::out(), __VA_ARGS__)
#define puts sim_tool_puts
#define putchar(c) fputc(c, ::tool::out())
#define main podio_dump_main
#endif
