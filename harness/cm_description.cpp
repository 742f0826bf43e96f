// Robot descriptions: loaded completely or not at all, and a rejected one leaves nothing behind.
#include "cm_common.hpp"
using namespace vt;
namespace
{
struct Desc
{
  std::string text;
  int fault = 0;        // what is wrong with it, see below
};
// x limited to +-lim; fault: 0 none, 1 no XML, 2 unknown plugin, 3 on_init fails, 4 on_init throws, 5 two components of one name, 6 a component does not export what is described, 7 unknown joint, 8 SDF without model, 9 no element at all, 10 no ros2_control tag, 11 no plugin, 12 unknown type
std::string desc(int fault, const std::string & lim, const std::string & group)
{
  if (fault == 1) return "<robot><link";
  if (fault == 8) return "<sdf/>";
  if (fault == 9) return "<?xml version=\"1.0\"?><!-- nothing -->";
  if (fault == 10) return "<robot name=\"r\"><link name=\"world\"/></robot>";
  auto joint = [&](const char * n, const std::string & l) { return std::string("<link name=\"") + n + "_l\"/><joint name=\"" + n + "\" type=\"revolute\"><parent link=\"world\"/><child link=\"" + n + "_l\"/><limit lower=\"-" + l + "\" upper=\"" + l + "\" velocity=\"1e6\" effort=\"3\"/></joint>"; };
  std::string g = group.empty() ? "" : "<group>" + group + "</group>";
  std::string s = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"world\"/>" + joint("x", lim) + joint("y", "1");
  s += "<ros2_control name=\"h1\" type=\"system\" rw_rate=\"50\"><hardware><plugin>vt/System</plugin>" + g + "</hardware><joint name=\"x\"><command_interface name=\"position\"/><state_interface name=\"position\"/><state_interface name=\"velocity\"/></joint></ros2_control>";
  s += std::string("<ros2_control name=\"") + (fault == 5 ? "h1" : "h2") + "\" type=\"" + (fault == 6 ? "sensor" : fault == 12 ? "robot" : "actuator") + "\"><hardware>" + (fault == 11 ? "<!--" : "") + "<plugin>" + (fault == 2 ? "vt/Nothing" : fault == 6 ? "vt/Sensor" : "vt/Actuator") + "</plugin>" + (fault == 11 ? "-->" : "") + g + "</hardware><joint name=\"" + (fault == 7 ? "nowhere" : "y") + "\"><command_interface name=\"position\"/><state_interface name=\"position\"/></joint></ros2_control>";
  return s + "</robot>";
}
const std::vector<std::string> KEYS = {"x/position", "y/position"};
struct Manager
{
  std::shared_ptr<Cm> cm;
  std::function<void()> hook;
  std::shared_ptr<Ctl> c[2];
  Manager(const std::string & first, std::vector<rclcpp::Parameter> par)
  {
    auto opts = controller_manager::get_cm_node_options();
    opts.parameter_overrides(par);
    cm = std::make_shared<Cm>(std::make_shared<rclcpp::executors::SingleThreadedExecutor>(), first, false, "cm", "", opts);
    hook = [this] { tick(); };
    sim::idle_hook = &hook;
  }
  ~Manager() { sim::idle_hook = nullptr; }
  ci::return_type tick()
  {
    cm->read(now_(), Duration::from_seconds(.01));
    auto r = cm->update(now_(), Duration::from_seconds(.01));
    cm->write(now_(), Duration::from_seconds(.01));
    return r;
  }
  void deliver(const std::string & d) { std_msgs::msg::String m; m.data = d; cm->robot_description_callback(m); }
  void add(int i, const char * name, const char * itf)
  {
    c[i] = std::make_shared<Ctl>();
    c[i]->id = 100 + i;
    c[i]->cfg.name = name;
    c[i]->cfg.cmd = {itf};
    controller_manager::ControllerSpec s;
    s.c = c[i]; s.info.name = name; s.info.type = "vt/Ctl";
    s.last_update_cycle_time = std::make_shared<rclcpp::Time>(0);
    cm->add_controller(s);
    sym_assert(cm->configure_controller(name) == ci::return_type::OK, "a controller can be configured");
  }
  bool sw(const std::vector<std::string> & a, const std::vector<std::string> & d) { return cm->switch_controller(a, d, STRICT, true, Duration::from_seconds(.1)) == ci::return_type::OK; }
};
}  // namespace
SYM_HARNESS(cm_description)
{
  reset_world({{"h1", "system", {}, "", ""}, {"h2", "actuator", {}, "", ""}});
  const bool allow = sym_bool("allow_inactive"), self = sym_bool("deactivate_on_self_deactivate");
  std::vector<rclcpp::Parameter> par{{"defaults.allow_controller_activation_with_inactive_hardware", allow}, {"defaults.deactivate_controllers_on_hardware_self_deactivate", self}, {"enforce_command_limits", true}};
  // rejected descriptions, the first one when the manager starts or later, then a good one
  const int f1 = (int)sym_choice("fault1", 13), f2 = f1 ? (int)sym_choice("fault2", bound(3, 13)) : 0;
  const bool at_start = sym_bool("at_start"), grouped = sym_bool("grouped");
  const std::string good = desc(0, "0.5", grouped ? "g" : ""), bad1 = desc(f1, "0.25", "g"), bad2 = desc(f2, "2", "");
  auto pol = [](int f) { policy = [f](int who, int cb) { return cb == INIT && who == 1 && (f == 3 || f == 4) ? (int)(f == 3 ? ERR : THROW) : (int)OK; }; };
  pol(f1);
  const bool immediately = at_start && !f1;
  Manager m(immediately ? good : at_start ? bad1 : "", par);
  auto nothing = [&] {
    sym_assert(!m.cm->is_resource_manager_initialized(), "a faulty description is rejected");
    sym_assert(m.cm->rm().command_interface_keys().empty() && m.cm->rm().state_interface_keys().empty() && m.cm->rm().get_components_status().empty(), "nothing of a rejected description remains");
    sym_assert(m.tick() == ci::return_type::OK, "the loop runs without hardware");
    sym_assert(m.cm->switch_controller({"cx"}, {}, STRICT, true, Duration::from_seconds(.1)) != ci::return_type::OK, "nothing is switched without hardware");
  };
  if (f1) {
    if (!at_start) m.deliver(bad1);
    nothing();
    if (f2) { pol(f2); m.deliver(bad2); nothing(); }
  } else if (!at_start) nothing();
  policy = nullptr;
  if (!immediately) m.deliver(good);
  sym_assert(m.cm->is_resource_manager_initialized(), "a correct description is accepted whatever was rejected before");
  auto & rm = m.cm->rm();
  auto loaded = [&] {
    std::set<std::string> ck, sk;
    for (auto & k : rm.command_interface_keys()) ck.insert(k);
    for (auto & k : rm.state_interface_keys()) sk.insert(k);
    const std::set<std::string> wc{"x/position", "y/position"}, ws{"x/position", "x/velocity", "y/position"};
    sym_assert(ck == wc && sk == ws, "exactly the described interfaces exist");
    for (auto & k : ck) sym_assert(rm.command_interface_is_available(k) && !rm.command_interface_is_claimed(k), "exactly the described interfaces exist");
    auto & st = rm.get_components_status();
    sym_assert(st.size() == 2, "exactly the described components are loaded");
    for (const char * n : {"h1", "h2"}) {
      auto & i = st.at(n);
      bool one = n[1] == '1';
      sym_assert(i.type == (one ? "system" : "actuator") && i.group == (grouped ? "g" : "") && i.rw_rate == (one ? 50u : 100u) && i.plugin_name == (one ? "vt/System" : "vt/Actuator"), "components are loaded as described");
      sym_assert(i.state.id() == LS::PRIMARY_STATE_ACTIVE, "components are started");
    }
    auto & l = rm.get_hard_joint_limits();
    sym_assert(l.size() == 2 && l.at("x").max_position == .5 && l.at("x").min_position == -.5 && l.at("y").max_position == 1, "the limits of the accepted description are in force");
  };
  loaded();
  m.add(0, "cx", "x/position");
  // a further description changes nothing that is running, but controllers loaded from then on are given it
  std::string newest = good;
  if (sym_bool("another")) { newest = desc((int)sym_choice("fault3", 2), "4", "k"); m.deliver(newest); loaded(); }
  m.add(1, "cy", "y/position");
  sym_assert(m.c[0]->get_robot_description() == good && m.c[1]->get_robot_description() == newest, "a controller is loaded with the newest description");
  // parameters of the manager are in force: hardware not active
  rclcpp_lifecycle::State ina(LS::PRIMARY_STATE_INACTIVE, "-"), act(LS::PRIMARY_STATE_ACTIVE, "-");
  sym_assert(rm.set_component_state("h2", ina) == hi::return_type::OK, "setup");
  sym_assert(m.sw({"cy"}, {}) == allow, "controllers are activated on inactive hardware exactly when the manager allows it");
  sym_assert(rm.set_component_state("h2", act) == hi::return_type::OK, "setup");
  if (!allow) sym_assert(m.sw({"cy"}, {}), "controllers can be started");
  sym_assert(m.sw({"cx"}, {}), "controllers can be started");
  // limits: those of the description in force
  hw_obj[0]->comp()->set_state("x/position", 0.0);
  hw_obj[0]->comp()->set_state("x/velocity", 0.0);
  double v = (double)((int32_t)(sym_var("command", 12) << 20) >> 20) / 64;
  m.c[0]->on_update = [&](double) { (void)m.c[0]->cmd_ifs()[0].set_value(v); };
  sym_assert(m.tick() == ci::return_type::OK, "nothing fails");
  double g = hw_obj[0]->comp()->get_command<double>("x/position");
  sym_assert(g == (v > .5 ? .5 : v < -.5 ? -.5 : v), "the limits of the accepted description are enforced");
  // the actuator stops on its own
  policy = [](int who, int cb) { return who == 1 && cb == WRITE ? (int)ERR : (int)OK; };
  m.tick();
  policy = nullptr;
  sym_assert((m.c[1]->get_lifecycle_state().id() == LS::PRIMARY_STATE_ACTIVE) == !self, "controllers of hardware that deactivated itself are stopped exactly when the manager is told to");
  sym_cover(f1 ? "after a rejected one" : "first");
}
