// Interface handles: what one side writes is what the other reads, whatever happens to the handles in between.
#include "ctl.hpp"
using namespace vt;
namespace
{
using DT = hi::HandleDataType;
template <class T> struct Ty;
template <> struct Ty<double> { static constexpr const char * n = "double", * init = "-2.5"; static constexpr double iv = -2.5; static double def() { return NAN; } static double sym(const char * s) { uint64_t b = sym_var(s, 64); double d; memcpy(&d, &b, 8); return d; } };
template <> struct Ty<float> { static constexpr const char * n = "float32", * init = "0.75"; static constexpr float iv = .75f; static float def() { return NAN; } static float sym(const char * s) { uint32_t b = (uint32_t)sym_var(s, 32); float d; memcpy(&d, &b, 4); return d; } };
template <> struct Ty<bool> { static constexpr const char * n = "bool", * init = "True"; static constexpr bool iv = true; static bool def() { return false; } static bool sym(const char * s) { return sym_bool(s); } };
#define INT(T, N, I, V) template <> struct Ty<T> { static constexpr const char * n = N, * init = I; static constexpr T iv = V; static T def() { return std::numeric_limits<T>::max(); } static T sym(const char * s) { return (T)sym_var(s, 8 * sizeof(T)); } };
INT(uint8_t, "uint8", "200", 200) INT(int8_t, "int8", "-128", -128) INT(uint16_t, "uint16", "65535", 65535) INT(int16_t, "int16", "-300", -300) INT(uint32_t, "uint32", "4294967295", 4294967295u) INT(int32_t, "int32", "-2147483648", (-2147483647 - 1))
template <class T> bool same(T a, T b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
template <> bool same<bool>(bool a, bool b) { return a == b; }
template <class T> struct Track
{
  T v;
  std::string prefix, itf;
};
template <class T> void is(const hi::Handle & h, const Track<T> & t, const char * what)
{
  sym_assert(h.get_prefix_name() == t.prefix && h.get_interface_name() == t.itf && h.get_name() == t.prefix + "/" + t.itf, "a handle keeps its name");
  sym_assert(h.get_data_type().to_string() == Ty<T>::n, "a handle keeps its type");
  auto o = h.get_optional<T>();
  sym_assert(o.has_value() && same(*o, t.v), what);
  T x{};
  sym_assert(h.get_value(x, false) && same(x, t.v), what);
  sym_assert(h.get_value(x, true) && same(x, t.v), what);
}
template <class T, class W> void wrong(hi::Handle & h, const Track<T> & t)
{
  bool threw = false;
  try { (void)h.set_value(W{}); } catch (const std::exception &) { threw = true; }
  sym_assert(threw, "a value of another type is refused");
  threw = false;
  try { auto o = h.get_optional<W>(); if (std::is_same_v<W, double> && std::is_same_v<T, bool>) threw = o.has_value() && *o == (double)t.v; } catch (const std::exception &) { threw = true; }
  sym_assert(threw, "a handle is not read as another type");
  is<T>(h, t, "a refused access changes nothing");
}
template <class T> void run()
{
  static const char * VN[] = {"v0", "v1", "v2", "v3", "v4"};
  static const char * ON[] = {"op0", "op1", "op2", "op3"};
  const bool given = sym_bool("initial_value");
  std::vector<hi::Handle> hs;
  std::vector<Track<T>> ts;
  for (int i = 0; i < 2; ++i) {
    hi::InterfaceInfo info;
    info.name = i ? "b" : "a";
    info.data_type = Ty<T>::n;
    if (given) info.initial_value = Ty<T>::init;
    hs.emplace_back(hi::InterfaceDescription(i ? "q" : "p", info));
    ts.push_back({given ? Ty<T>::iv : Ty<T>::def(), i ? "q" : "p", info.name});
  }
  auto all = [&](const char * what) { for (size_t i = 0; i < hs.size(); ++i) is<T>(hs[i], ts[i], what); };
  all("a handle starts with its described value");
  int nv = 0;
  const int N = bound(2, 3);
  for (int k = 0; k < N; ++k) {
    const int i = k & 1;
    T v = Ty<T>::sym(VN[nv++]);
    sym_assert(k == 1 ? hs[i].set_value(v, true) : hs[i].set_value(v), "a free handle can be written");
    ts[i].v = v;
    switch (sym_choice(ON[k], 7)) {
      case 0: { hi::Handle c(hs[i]); is<T>(c, ts[i], "a copy has the value of the original"); sym_assert(c.set_value(Ty<T>::iv), "a free handle can be written"); all("writing a copy does not change the original"); break; }
      case 1: { hi::Handle c(std::move(hs[i])); is<T>(c, ts[i], "a moved handle keeps its value"); T x = Ty<T>::iv; sym_assert(c.set_value(x), "a free handle can be written"); ts[i].v = x; is<T>(c, ts[i], "a moved handle can be written"); hs[i] = std::move(c); break; }
      case 2: { std::unique_ptr<hi::Handle> o(new hi::Handle("r", "c", Ty<T>::n)); *o = std::move(hs[i]); hi::Handle m(std::move(*o)); o.reset(); is<T>(m, ts[i], "a moved handle keeps its value"); hs[i] = m; break; }
      case 3: hs.reserve(hs.capacity() + 1); break;
      case 4: std::swap(hs[0], hs[1]); std::swap(ts[0], ts[1]); break;
      case 5: hs[i] = hs[1 - i]; ts[i] = ts[1 - i]; break;
      case 6: { auto & self = hs[i]; hs[i] = std::move(self); break; }
    }
    all("a handle has the value written last, wherever it was moved");
  }
  if constexpr (!std::is_same_v<T, float>) wrong<T, float>(hs[0], ts[0]);
  if constexpr (!std::is_same_v<T, double>) wrong<T, double>(hs[0], ts[0]);
  if constexpr (!std::is_same_v<T, int16_t>) wrong<T, int16_t>(hs[0], ts[0]);
  all("a refused access changes nothing");
  // while somebody else holds the handle
  std::unique_lock<std::shared_mutex> l(hs[0].get_mutex());
  T x{};
  sym_assert(!hs[0].get_optional<T>().has_value() && !hs[0].get_value(x, false) && !hs[0].set_value(Ty<T>::iv), "a handle in use is not accessed");
  l.unlock();
  all("a refused access changes nothing");
}
}  // namespace
SYM_HARNESS(handle_values)
{
  switch (sym_choice("type", 9)) {
    case 0: run<double>(); break;
    case 1: run<float>(); break;
    case 2: run<bool>(); break;
    case 3: run<uint8_t>(); break;
    case 4: run<int8_t>(); break;
    case 5: run<uint16_t>(); break;
    case 6: run<int16_t>(); break;
    case 7: run<uint32_t>(); break;
    case 8: run<int32_t>(); break;
  }
}
// handles on somebody else's variable, and loans of handles that are busy for a while
SYM_HARNESS(handle_loans)
{
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
  double ext = 1.5, other = -3;
  const bool own = sym_bool("own_value");
  hi::CommandInterface::SharedPtr ci;
  if (own) ci = std::make_shared<hi::CommandInterface>("p", "a", "double", "1.5"); else ci = std::make_shared<hi::CommandInterface>("p", "a", &ext);
  hi::Handle si("p", "s", &ext), s2("q", "s", &other);
#pragma clang diagnostic pop
  int released = 0, limited = 0;
  // a limiter that halves what is above 2
  const bool lim = sym_bool("limiter");
  if (lim) ci->set_on_set_command_limiter([&](double v, bool & l) { ++limited; l = v > 2; return l ? 2.0 : v; });
  double v = Ty<double>::sym("command"), w = Ty<double>::sym("state");
  // the handle is in use until so many tries have failed
  const int busy = (int)sym_choice("busy", 14), tries = 1 + (int)sym_choice("tries", 3) * 5;
  {
    hi::LoanedCommandInterface first(ci, [&] { ++released; });
    hi::LoanedCommandInterface l(std::move(first));
    sym_assert(l.get_name() == "p/a" && l.get_prefix_name() == "p" && l.get_interface_name() == "a", "a loan has the name of its handle");
    std::unique_lock<std::shared_mutex> lock(ci->get_mutex(), std::defer_lock);
    int idle = 0;
    std::function<void()> hook = [&] { if (++idle >= busy && lock.owns_lock()) lock.unlock(); };
    sim::idle_hook = &hook;
    if (busy) lock.lock();
    const bool ok = l.set_value(v, (unsigned)tries);
    sym_assert(ok == (busy < tries || !busy), "a command is written as soon as the handle is free, unless it stays in use");
    if (lock.owns_lock()) lock.unlock();
    const double want = !ok ? 1.5 : lim && v > 2 ? 2.0 : v;
    auto o = l.get_optional();
    sym_assert(o.has_value() && same(*o, want), "a command is what was written, limited, or unchanged if it was refused");
    if (!own) sym_assert(same(ext, want), "a handle on a variable writes this variable");
    if (ok && lim) sym_assert(ci->is_limited() == (v > 2), "limiting is reported");
    idle = 0;
    if (busy) lock.lock();
    o = l.get_optional((unsigned)tries);
    sym_assert(o.has_value() == (busy < tries || !busy) && (!o || same(*o, want)), "a value is read as soon as the handle is free, unless it stays in use");
    if (lock.owns_lock()) lock.unlock();
    sim::idle_hook = nullptr;
    sym_assert(released == 0, "a loan is not given back early");
  }
  sym_assert(released == 1, "a loan is given back once");
  // state handles on variables follow them, also as copies and after moves
  hi::Handle c(si), m(std::move(s2));
  ext = w;
  sym_assert(same(*si.get_optional(), w) && same(*c.get_optional(), w), "a handle on a variable follows it");
  sym_assert(m.set_value(w) && same(other, w), "a moved handle writes the variable of the original");
  std::swap(c, m);
  sym_assert(c.get_name() == "q/s" && m.get_name() == "p/s", "handles are swapped with their names");
  other = 8;
  sym_assert(*c.get_optional() == 8, "a handle on a variable follows it");
  sym_assert((bool)c, "a handle on a variable references a value");
}
