// Text to numbers and flags.
#include <cstdint>
#include "hardware_interface/lexical_casts.hpp"
#include "vh.hpp"
namespace hi = hardware_interface;
namespace
{
static const char * CH[] = {"c0", "c1", "c2", "c3", "c4", "c5"};
std::string text(int n)
{
  std::string s;
  for (int i = 0; i < n; ++i) s.push_back((char)sym_u8(CH[i]));
  return s;
}
bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
// leading blanks, a sign, digits, nothing else
bool number(const std::string & s, long & v)
{
  size_t i = 0;
  while (i < s.size() && space((unsigned char)s[i])) ++i;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  if (i == s.size()) return false;
  v = 0;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') return false;
    v = v * 10 + (s[i] - '0');
  }
  if (neg) v = -v;
  return true;
}
template <class T> void integer(T (*f)(const std::string &), int n)
{
  const std::string s = text(n);
  bool ok = true;
  T got{};
  try { got = f(s); } catch (const std::exception &) { ok = false; }
  long v = 0;
  const bool num = number(s, v);
  const bool fits = num && v >= (long)std::numeric_limits<T>::min() && v <= (long)std::numeric_limits<T>::max();
  sym_assert(ok == fits, "exactly texts that are a number of the type's range are accepted");
  if (ok) sym_assert((long)got == v, "an accepted text has the value it stands for");
}
}  // namespace
SYM_HARNESS(lex_integers)
{
  const int type = (int)sym_choice("type", 6);
  const int n = (int)sym_choice("length", bound(type == 1 || type == 4 ? 5 : 4, 5) + 1);
  switch (type) {
    case 0: integer<int8_t>(hi::stoi8, n); break;
    case 1: integer<int16_t>(hi::stoi16, n); break;
    case 2: integer<int32_t>(hi::stoi32, n); break;
    case 3: integer<uint8_t>(hi::stoui8, n); break;
    case 4: integer<uint16_t>(hi::stoui16, n); break;
    default: integer<uint32_t>(hi::stoui32, n); break;
  }
}
// numbers around the ends of the types used on the way
SYM_HARNESS(lex_far)
{
  static const char * HEAD[] = {"214748", "429496", "922337203685477", "1844674407370955"};
  static const char * SIGN[] = {"", "+", "-"};
  const int head = (int)sym_choice("head", 4), sign = (int)sym_choice("sign", 3);
  int64_t v = 0;  // of the short ones; the others are far out of every range
  std::string s = std::string(SIGN[sign]) + HEAD[head];
  for (int i = 0; i < 4; ++i) {
    const uint8_t d = sym_u8(CH[i]);
    sym_assume(d < 10);
    s.push_back((char)('0' + d));
  }
  if (head < 2) for (char c : s) if (c != '+' && c != '-') v = v * 10 + (c - '0');
  if (sign == 2) v = -v;
  auto test = [&](auto f, auto t) {
    using T = decltype(t);
    bool ok = true;
    T got{};
    try { got = f(s); } catch (const std::out_of_range &) { ok = false; }
    sym_assert(ok == (head < 2 && v >= (int64_t)std::numeric_limits<T>::min() && v <= (int64_t)std::numeric_limits<T>::max()), "numbers are accepted exactly if the type can hold them");
    if (ok) sym_assert((int64_t)got == v, "an accepted text has the value it stands for");
  };
  switch (sym_choice("type", 6)) {
    case 0: test(hi::stoi8, int8_t()); break;
    case 1: test(hi::stoi16, int16_t()); break;
    case 2: test(hi::stoi32, int32_t()); break;
    case 3: test(hi::stoui8, uint8_t()); break;
    case 4: test(hi::stoui16, uint16_t()); break;
    default: test(hi::stoui32, uint32_t()); break;
  }
}
SYM_HARNESS(lex_bool)
{
  const std::string s = text((int)sym_choice("length", 7));
  auto is = [&](const char * w) {
    bool r = s.size() == strlen(w);
    for (size_t i = 0; r && i < s.size(); ++i) r = s[i] == w[i] || s[i] == w[i] - 32;
    return r;
  };
  bool ok = true, got = false;
  try { got = hi::parse_bool(s); } catch (const std::invalid_argument &) { ok = false; }
  const bool t = is("true"), f = is("false");
  sym_assert(ok == (t || f), "exactly true and false in any case are accepted");
  if (ok) sym_assert(got == t, "an accepted flag has the value it stands for");
}
SYM_HARNESS(lex_array)
{
  // any text over the characters that matter
  static const char A[] = "[], a1";
  const int n = (int)sym_choice("length", bound(6, 7));
  std::string s;
  for (int i = 0; i < n; ++i) s.push_back(A[sym_choice(CH[i], 6)]);
  // [ items ] with exactly one comma between items, blanks around items only
  bool good = n >= 2 && s[0] == '[' && s[n - 1] == ']';
  std::vector<std::string> items;
  std::string cur;
  bool gap = false, comma = false;
  for (int i = 1; good && i < n - 1; ++i) {
    const char c = s[i];
    if (c == '[' || c == ']') good = false;
    else if (c == ' ') gap = !cur.empty() || gap;
    else if (c == ',') { if (cur.empty()) good = false; items.push_back(cur); cur.clear(); gap = false; comma = true; }
    else { if (gap && !cur.empty()) good = false; cur += c; gap = false; comma = false; }
  }
  if (good && comma) good = false;
  if (good && !cur.empty()) items.push_back(cur);
  bool ok = true;
  std::vector<std::string> got;
  try { got = hi::parse_string_array(s); } catch (const std::invalid_argument &) { ok = false; }
  sym_assert(ok == good, "exactly flat lists of items are accepted");
  if (ok) sym_assert(got == items, "a list has its items in their order");
  bool ints = good;
  for (auto & i : items) for (char c : i) ints &= c == '1';
  bool iok = true;
  std::vector<int> v;
  try { v = hi::parse_array<int>(s); } catch (const std::invalid_argument &) { iok = false; }
  sym_assert(iok == ints, "exactly flat lists of numbers are accepted as such");
  if (iok) {
    bool eq = v.size() == items.size();
    for (size_t i = 0; eq && i < v.size(); ++i) eq = v[i] == std::stoi(items[i]);
    sym_assert(eq, "a list of numbers has its numbers in their order");
  }
}
