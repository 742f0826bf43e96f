// What the hardware gets commanded when limits of the robot description are enforced.
#include "cm_common.hpp"
using namespace vt;
static double sig(const char * n, double mag) { g_sig = bound(4, 8); double d = sym_finite(n, mag); g_sig = 52; return d; }
static double val(hi::HardwareComponentInterface * c, const char * n) { return c->get_command<double>(n); }
static std::function<void(double)> setter(CtlBase * c, double v) { return [c, v](double) { sym_assert(dynamic_cast<Ctl *>(c)->cmd_ifs()[0].set_value(v), "setup"); }; }
static constexpr double V = 2, E = 3, T = 0.01, EPS = 1e-9;
// joint x: limited to [-1, 1], 2 per second and effort 3, or tighter; joint y: limits disabled; joint z: not commanded by any controller
struct LimWorld : World
{
  const int two;
  hi::HardwareComponentInterface *hx, *hy;
  std::string itf;
  double gx = 0, gy = 0, gz = 0;       // what the hardware is told to do
  static std::vector<HwDesc> hws(int two, const std::string & itf, const std::string & par)
  {
    JointDesc x{"x", {}, {"position", "velocity"}, ""};
    for (const char * n : {"position", "velocity", "effort"}) x.extra += std::string("<command_interface name=\"") + n + "\">" + (itf == n ? par : "") + "</command_interface>";
    JointDesc y{"y", {"position"}, {"position"}, "<limits enable=\"false\"/>"}, z{"z", {"position"}, {"position"}, ""};
    if (two) return {{"h1", "system", {x}, "", ""}, {"h2", "system", {y, z}, "", ""}};
    return {{"h1", "system", {x, y, z}, "", ""}};
  }
  LimWorld(int t, const char * i, const std::string & par) : World(hws(t, i, par), {{"cx", {std::string("x/") + i}, {}}, {"cy", {"y/position"}, {}}}), two(t), itf(i)
  {
    hx = hw_obj[0]->comp(); hy = hw_obj[two]->comp();
    sym_assert(configure(0) && configure(1), "setup");
    hy->set_command("z/position", 5.0);
    hx->set_state("x/velocity", 0.0);
    for (auto * h : hw_obj) h->on_write = [this](double) { gx = val(hx, ("x/" + itf).c_str()); gy = val(hy, "y/position"); gz = val(hy, "z/position"); };
  }
  // cycle i: controllers command c (if at all) and y
  void cycle(bool sets, double c, double y)
  {
    ctl[0]->on_update = sets ? setter(ctl[0], c) : nullptr;
    ctl[1]->on_update = setter(ctl[1], y);
    sym_assert(tick(T) == ci::return_type::OK, "nothing fails");
    ctl[0]->on_update = ctl[1]->on_update = nullptr;
    sym_assert(gy == y, "a joint whose limits are disabled is commanded unchanged");
    sym_assert(gz == 5, "interfaces nobody claims are not touched");
  }
};
SYM_HARNESS(cm_limits_position)
{
  // where the limits of x come from
  static const char * PAR[] = {"", "<param name=\"min\">-0.5</param><param name=\"max\">0.5</param>", "<limits enable=\"false\"/>"};
  const int src = (int)sym_choice("limits", 3);
  LimWorld w((int)sym_choice("two", 2), "position", PAR[src]);
  const double LO = src == 1 ? -.5 : -1, HI = -LO, M[] = {0, HI, LO + .25 * V * T};
  double m = M[sym_choice("measured", 3)];
  w.hx->set_state("x/position", m);
  sym_assert(w.sw({"cx", "cy"}, {}, STRICT, true), "setup");
  const bool restart = sym_choice("restart", 2);
  const int N = bound(2, 3);
  double last = 0;
  bool have = false, active = true;      // commanded something since the controller was started
  auto wr = hw_obj[0]->on_write;
  hw_obj[0]->on_write = [&](double p) {
    wr(p);
    // a command that was there before is only limited from the first full cycle of the controller on
    if (!std::exchange(active, is_act(w.ctl[0]))) { have = false; return; }
    double g = w.gx;
    if (std::isnan(g)) return;
    if (src != 2) {
      sym_assert(sym_and(g >= LO, g <= HI), "the hardware is never commanded outside the position limits");
      sym_assert(std::fabs(g - (have ? last : m)) <= V * T + EPS, have ? "the hardware is never commanded to move faster than the velocity limit" : "the first command starts at the measured position");
    }
    last = g;
    have = true;
  };
  for (int i = 0; i < N; ++i) {
    if (restart && i == N - 1) {
      sym_assert(w.sw({}, {"cx"}, STRICT, true), "setup");
      w.hx->set_state("x/position", m = -.25 * m);
      sym_assert(w.sw({"cx"}, {}, STRICT, true), "setup");
    }
    const bool sets = i == 0 || sym_choice("sets", 2);
    double c = sig("command", 8), ref = have ? last : m, before = last;
    bool had = have;
    w.cycle(sets, c, sig("other", 8));
    if (src == 2) continue;
    if (sets) { if (c >= LO && c <= HI && std::fabs(c - ref) <= V * T - EPS) sym_assert(w.gx == c, "a command within the limits reaches the hardware unchanged"); }
    else if (had) sym_assert(w.gx == before, "a command stays until the controller changes it");
  }
  sym_cover("done");
}
SYM_HARNESS(cm_limits_rates)
{
  const bool eff = sym_choice("effort", 2);
  static const char * PAR[] = {"", "<param name=\"min\">-0.5</param><param name=\"max\">0.5</param>", "<param name=\"max\">0.25</param>", "<limits enable=\"false\"/>"};
  static const double LIM[] = {0, .5, .25, 0};
  const int src = (int)sym_choice("limits", 4);
  LimWorld w((int)sym_choice("two", 2), eff ? "effort" : "velocity", PAR[src]);
  const double m = src == 3 ? 0 : .5, lim = src ? LIM[src] : eff ? E : V;
  w.hx->set_state("x/position", m);
  sym_assert(w.sw({"cx", "cy"}, {}, STRICT, true), "setup");
  for (int i = 0; i < bound(2, 3); ++i) {
    double c = sig("command", 8);
    w.cycle(true, c, sig("other", 8));
    if (src != 3) {
      sym_assert(sym_and(w.gx >= -lim, w.gx <= lim), eff ? "the hardware is never commanded more than the effort limit" : "the hardware is never commanded more than the velocity limit");
      if (c >= -lim && c <= lim) sym_assert(w.gx == c, "a command within the limits reaches the hardware unchanged");
    } else sym_assert(w.gx == c, "a command without limits reaches the hardware unchanged");
  }
  sym_cover("done");
}
// limited joints with interfaces that are no doubles
SYM_HARNESS(cm_limits_types)
{
  static const char * TYPES[] = {"float32", "double", "int16"};
  const int ct = (int)sym_choice("command_type", 3), st = (int)sym_choice("state_type", 3);
  const bool vel = sym_choice("velocity", 2);
  if (ct == 1 && st == 1) return;
  auto itf = [](const char * k, const char * n, int t) { return std::string("<") + k + "_interface name=\"" + n + "\" data_type=\"" + TYPES[t] + "\"/>"; };
  const char * what = vel ? "velocity" : "position";
  JointDesc x{"x", {}, {}, itf("command", what, ct) + itf("state", "position", st) + itf("state", "velocity", st)}, y{"y", {"position"}, {"position"}, ""};
  World w({{"h", "system", {x, y}, "", ""}}, {{"cx", {std::string("x/") + what}, {"x/position"}}, {"cy", {"y/position"}, {}}});
  sym_assert(w.configure(0) && w.configure(1), "setup");
  auto * h = hw_obj[0]->comp();
  for (const char * n : {"x/position", "x/velocity"}) switch (st) { case 0: h->set_state<float>(n, 0.f); break; case 1: h->set_state<double>(n, 0.); break; case 2: h->set_state<int16_t>(n, 0); break; }
  h->set_state("y/position", 0.0);
  const std::string key = std::string("x/") + what;
  double cmd = sig("command", 8), other = sig("other", 8);
  const int16_t ci_ = (int16_t)sym_var("command_int", 16);
  bool have = false;
  w.ctl[0]->on_update = [&](double) {
    auto & i = dynamic_cast<Ctl *>(w.ctl[0])->cmd_ifs()[0];
    sym_assert(ct == 0 ? i.set_value((float)cmd) : ct == 1 ? i.set_value(cmd) : i.set_value(ci_), "a command is written with its own type");
    have = true;
  };
  w.ctl[1]->on_update = setter(w.ctl[1], other);
  sym_assert(w.sw({"cx", "cy"}, {}, STRICT, true), "setup");
  double gy = NAN, gx = NAN;
  int16_t gi = 0;
  hw_obj[0]->on_write = [&](double) {
    gy = h->get_command<double>("y/position");
    if (ct == 0) gx = (double)h->get_command<float>(key); else if (ct == 1) gx = h->get_command<double>(key); else gi = h->get_command<int16_t>(key);
  };
  for (int k = 0; k < 2; ++k) sym_assert(w.tick(T) == ci::return_type::OK && is_act(w.ctl[0]) && is_act(w.ctl[1]), "nothing fails whatever the types of the interfaces are");
  sym_assert(sym_and(gy >= -1, gy <= 1), "joints next to it are limited as ever");
  if (ct == 2) sym_assert(gi == ci_, "a command that cannot be limited reaches the hardware unchanged");
  else {
    const double lim = vel ? V : 1;
    sym_assert(sym_and(gx >= -lim, gx <= lim), "the hardware is never commanded outside the limits");
  }
}
