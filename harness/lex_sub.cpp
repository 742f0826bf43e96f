// The repository's text-to-number conversions, except that numerals registered by a harness stand for symbolic numbers.
#include <algorithm>
#include <cctype>
#include <charconv>
#include <cmath>
#include <cstdint>
#include <locale>
#include <map>
#include <optional>
#include <regex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#define stod real_stod
#include "../src/lexical_casts.cpp"
#undef stod
std::map<std::string, double> lex_numbers;
int lex_used = 0;
namespace hardware_interface
{
double stod(const std::string & s)
{
  auto it = lex_numbers.find(s);
  if (it == lex_numbers.end()) return real_stod(s);
  ++lex_used;
  return it->second;
}
}  // namespace hardware_interface
