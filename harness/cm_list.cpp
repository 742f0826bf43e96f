// What the services report is what is the case.
#include "controller_manager_msgs/srv/list_controllers.hpp"
#include "cm_common.hpp"
using namespace vt;
namespace srv = controller_manager_msgs::srv;
using V = std::vector<std::string>;
static bool same(V a, V b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
static const char * LABEL[] = {"unknown", "unconfigured", "inactive", "active", "finalized"};
static bool uses(CtlBase * c, const std::string & k) { return is_act(c) && std::find(c->cfg.cmd.begin(), c->cfg.cmd.end(), k) != c->cfg.cmd.end(); }
static void check_controllers(World & w)
{
  auto res = std::make_shared<srv::ListControllers::Response>();
  w.cm->list_controllers_srv_cb(std::make_shared<srv::ListControllers::Request>(), res);
  sym_assert(res->controller.size() == w.ctl.size(), "every controller is listed once");
  for (auto * c : w.ctl) {
    auto it = std::find_if(res->controller.begin(), res->controller.end(), [&](const auto & e) { return e.name == c->cfg.name; });
    sym_assert(it != res->controller.end(), "every controller is listed once");
    const uint8_t st = c->base()->get_lifecycle_state().id();
    const bool up = st == LS::PRIMARY_STATE_INACTIVE || st == LS::PRIMARY_STATE_ACTIVE;
    sym_assert(it->type == "vt/Ctl" && it->state == LABEL[st], "controllers are listed with their state");
    sym_assert(it->is_chainable == c->cfg.chainable && it->is_chained == (c->base()->is_in_chained_mode() && c->cfg.chainable), "controllers are listed with their chained mode");
    sym_assert(same(it->claimed_interfaces, is_act(c) ? c->cfg.cmd : V{}), "the listed claimed interfaces are those the controller owns");
    sym_assert(same(it->required_command_interfaces, up ? c->cfg.cmd : V{}) && same(it->required_state_interfaces, up ? c->cfg.state : V{}), "configured controllers are listed with the interfaces they need");
    sym_assert(same(it->reference_interfaces, up ? c->cfg.refs : V{}) && same(it->exported_state_interfaces, up ? c->cfg.exported : V{}), "configured controllers are listed with the interfaces they export");
    std::map<std::string, V> conn;
    if (up) for (auto & k : c->cfg.cmd) if (auto * o = owner(w, k)) conn[o->cfg.name].push_back(k.substr(k.find('/') + 1));
    sym_assert(it->chain_connections.size() == conn.size(), "every controller whose references are used is listed as connected");
    for (auto & x : it->chain_connections) sym_assert(conn.count(x.name) && same(x.reference_interfaces, conn[x.name]), "a connection lists the references used of that controller");
    if (up) sym_assert(it->update_rate == (c->cfg.rate ? c->cfg.rate : 100), "controllers are listed with their update rate");
  }
}
static const char * HW[] = {"A", "B"};
static const V CMD[] = {{"x/position"}, {"y/position", "z/position"}}, STA[] = {{"x/position", "x/velocity"}, {"y/position", "z/position"}};
static std::vector<HwDesc> hws()
{
  return {{"A", "actuator", {{"x", {"position"}, {"position", "velocity"}, ""}}, "", ""}, {"B", "system", {{"y", {"position"}, {"position"}, ""}, {"z", {"position"}, {"position"}, ""}}, "", "rw_rate=\"50\""}};
}
static void check_hardware(World & w, const uint8_t * st)
{
  auto res = std::make_shared<srv::ListHardwareComponents::Response>();
  w.cm->list_hardware_components_srv_cb(std::make_shared<srv::ListHardwareComponents::Request>(), res);
  sym_assert(res->component.size() == 2, "every hardware component is listed once");
  auto ifs = std::make_shared<srv::ListHardwareInterfaces::Response>();
  w.cm->list_hardware_interfaces_srv_cb(std::make_shared<srv::ListHardwareInterfaces::Request>(), ifs);
  size_t ncmd = 0, nsta = 0;
  auto claimed = [&](const std::string & k) { for (auto * c : w.ctl) if (uses(c, k)) return true; return false; };
  auto check = [&](const std::vector<controller_manager_msgs::msg::HardwareInterface> & l, const std::string & k, bool avail, bool cl) {
    int n = 0;
    for (auto & i : l) if (i.name == k) { ++n; sym_assert(i.is_available == avail && i.is_claimed == cl && i.data_type == "double", "interfaces are listed as available and claimed exactly when they are"); }
    sym_assert(n == 1, "every interface is listed once");
  };
  for (int h = 0; h < 2; ++h) {
    auto it = std::find_if(res->component.begin(), res->component.end(), [&](const auto & e) { return e.name == HW[h]; });
    sym_assert(it != res->component.end(), "every hardware component is listed once");
    sym_assert(it->state.id == st[h] && it->state.label == LABEL[st[h]], "hardware is listed with its state");
    sym_assert(it->type == (h ? "system" : "actuator") && it->rw_rate == (h ? 50 : 100) && it->plugin_name == (h ? "vt/System" : "vt/Actuator"), "hardware is listed with its description");
    const bool up = st[h] == LS::PRIMARY_STATE_INACTIVE || st[h] == LS::PRIMARY_STATE_ACTIVE;
    sym_assert(it->command_interfaces.size() == CMD[h].size() && it->state_interfaces.size() == STA[h].size(), "hardware is listed with its interfaces");
    for (auto & k : CMD[h]) { check(it->command_interfaces, k, up, claimed(k)); check(ifs->command_interfaces, k, up, claimed(k)); }
    for (auto & k : STA[h]) { check(it->state_interfaces, k, up, false); check(ifs->state_interfaces, k, up, false); }
    ncmd += CMD[h].size(); nsta += STA[h].size();
  }
  for (auto * c : w.ctl) {
    const uint8_t s = c->base()->get_lifecycle_state().id();
    if (s != LS::PRIMARY_STATE_INACTIVE && s != LS::PRIMARY_STATE_ACTIVE) continue;
    for (auto & r : c->cfg.refs) check(ifs->command_interfaces, c->cfg.name + "/" + r, is_act(c), claimed(c->cfg.name + "/" + r));
    for (auto & r : c->cfg.exported) check(ifs->state_interfaces, c->cfg.name + "/" + r, is_act(c), false);
    ncmd += c->cfg.refs.size(); nsta += c->cfg.exported.size();
  }
  sym_assert(ifs->command_interfaces.size() == ncmd && ifs->state_interfaces.size() == nsta, "no other interfaces are listed");
}
SYM_HARNESS(cm_list)
{
  enum { LOW, MID, TOP, SPARE };
  CtlCfg low{"low", {"x/position"}, {"x/velocity"}, true, {"r", "s"}, {"e"}}, mid{"mid", {"y/position"}, {}, true, {"t", "u/v"}, {}}, top{"top", {"low/r"}, {"low/e"}}, spare{"spare", {"z/position"}, {"z/position"}};
  switch (sym_choice("top", 4)) { case 1: top.cmd = {"low/r", "mid/t"}; break; case 2: top.cmd = {"mid/u/v", "low/s", "low/r"}; break; case 3: top.cmd = {}; break; default: break; }
  if (sym_choice("fallback", 2)) low.fallback = {"spare"};
  mid.rate = 20;
  World w(hws(), {low, mid, top, spare});
  uint8_t st[2] = {LS::PRIMARY_STATE_ACTIVE, LS::PRIMARY_STATE_ACTIVE};
  check_controllers(w);
  const int start = (int)sym_choice("start", 5);
  for (int i = 0; i < 4; ++i) if (i < 2 * start) sym_assert(w.configure(i), "setup");
  if (start > 2) sym_assert(w.sw({"low", "mid"}, {}, STRICT, true), "setup");
  if (start > 3) sym_assert(w.sw({"top"}, {}, STRICT, true), "setup");
  check_controllers(w); check_hardware(w, st);
  int failing = -1, fcb = -1;
  policy = [&](int who, int cb) { return who == failing && cb == fcb ? (int)FAIL : (int)OK; };
  switch (sym_choice("event", 8)) {
  case 1: failing = 100 + LOW, fcb = UPDATE; break;
  case 2: failing = 100 + TOP, fcb = UPDATE; break;
  case 3: failing = 0, fcb = READ; break;
  case 4: failing = 1, fcb = WRITE; break;
  case 5: (void)w.sw({"spare"}, {"top"}, BEST_EFFORT, true); break;
  case 6: (void)w.cm->cleanup_controller("low"); break;
  case 7: {
    if (start > 2) sym_end();
    auto q = std::make_shared<srv::SetHardwareComponentState::Request>();
    auto r = std::make_shared<srv::SetHardwareComponentState::Response>();
    q->name = sym_choice("hw", 2) ? "B" : "A";
    const int h = q->name == "B";
    static const uint8_t T[] = {LS::PRIMARY_STATE_UNCONFIGURED, LS::PRIMARY_STATE_INACTIVE, LS::PRIMARY_STATE_FINALIZED, LS::PRIMARY_STATE_ACTIVE};
    q->target_state.id = T[sym_choice("target", 4)];
    const bool by_label = sym_choice("by_label", 2);
    if (by_label) q->target_state.label = LABEL[q->target_state.id];
    const uint8_t t = q->target_state.id;
    if (by_label) q->target_state.id = 0;
    static const int CBS[] = {-1, DEACTIVATE, CLEANUP, SHUTDOWN};
    failing = h, fcb = CBS[sym_choice("failing_callback", 4)];
    size_t l0 = log_.size();
    w.cm->set_hardware_component_state_srv_cb(q, r);
    st[h] = hw_obj[h]->comp()->get_lifecycle_state().id();
    sym_assert(r->ok == (st[h] == t), "changing the state of hardware is reported as successful exactly when it has the requested state");
    sym_assert(r->state.id == st[h] && r->state.label == LABEL[st[h]], "the reported state is that of the hardware");
    for (size_t i = l0; i < log_.size(); ++i) sym_assert(log_[i].who == h, "only the named hardware is changed");
    q->name = "C";
    w.cm->set_hardware_component_state_srv_cb(q, r);
    sym_assert(!r->ok, "unknown hardware is refused");
    break;
  }
  default: break;
  }
  w.tick();
  policy = nullptr;
  for (int h = 0; h < 2; ++h) st[h] = hw_obj[h]->comp()->get_lifecycle_state().id();
  dump(w);
  check_controllers(w); check_hardware(w, st);
  sym_cover("done");
}
// A controller that takes all interfaces, started by a switch or as a fallback, can be replaced like any other.
SYM_HARNESS(cm_list_all)
{
  CtlCfg a{"a", {"x/position"}, {}}, every{"every", {"x/position", "y/position", "z/position"}, {}}, b{"b", {"y/position", "z/position"}, {}};
  every.all = true;
  a.fallback = {"every"};
  World w(hws(), {a, every, b});
  uint8_t st[2] = {LS::PRIMARY_STATE_ACTIVE, LS::PRIMARY_STATE_ACTIVE};
  for (int i = 0; i < 3; ++i) sym_assert(w.configure(i), "setup");
  const bool fb = sym_choice("as_fallback", 2);
  if (fb) {
    sym_assert(w.sw({"a"}, {}, STRICT, true), "setup");
    policy = [](int who, int cb) { return who == 100 && cb == UPDATE ? (int)FAIL : (int)OK; };
    w.tick();
    policy = nullptr;
  } else sym_assert(w.sw({"every"}, {}, STRICT, true), "setup");
  sym_assert(w.active(1) && !w.active(0), "setup");
  check_controllers(w); check_hardware(w, st);
  const bool both = sym_choice("both", 2);
  sym_assert(w.sw(both ? V{"a", "b"} : V{"b"}, {"every"}, sym_choice("best_effort", 2) ? BEST_EFFORT : STRICT, true), "a controller that takes all interfaces can be replaced");
  sym_assert(w.active(2) && w.active(0) == both && !w.active(1), "a controller that takes all interfaces can be replaced");
  check_controllers(w); check_hardware(w, st);
  sym_cover("done");
}
