// Stand-in for {fmt}: message texts are never part of a property. Strings are inserted, numbers
// print as "<n>", so formatting a symbolic number costs nothing.
#pragma once
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#define FMT_COMPILE(s) s
#define FMT_STRING(s) s
namespace fmt
{
namespace stub
{
struct Joined { std::string s; };
template <class T> inline void put(std::string & o, const T & v)
{
  if constexpr (std::is_same_v<T, Joined>) o += v.s;
  else if constexpr (std::is_convertible_v<const T &, std::string_view>) o += std::string_view(v);
  else o += "<n>";
}
inline void fill(std::string & o, std::string_view f) { o += f; }
template <class A, class... R> inline void fill(std::string & o, std::string_view f, const A & a, const R &... r)
{
  size_t b = f.find('{');
  if (b == std::string_view::npos) { o += f; return; }
  size_t e = f.find('}', b);
  o += f.substr(0, b);
  put(o, a);
  fill(o, e == std::string_view::npos ? std::string_view() : f.substr(e + 1), r...);
}
}  // namespace stub
template <class... A> inline std::string format(std::string_view f, const A &... a) { std::string o; stub::fill(o, f, a...); return o; }
template <class R> inline stub::Joined join(const R & r, std::string_view sep)
{
  stub::Joined j; bool first = true;
  for (const auto & x : r) { if (!first) j.s += sep; first = false; stub::put(j.s, x); }
  return j;
}
template <class I> inline stub::Joined join(I b, I e, std::string_view sep)
{
  stub::Joined j; bool first = true;
  for (; b != e; ++b) { if (!first) j.s += sep; first = false; stub::put(j.s, *b); }
  return j;
}
template <class... A> inline void print(A &&...) {}
}  // namespace fmt
