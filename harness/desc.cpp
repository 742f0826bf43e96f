// What a robot description declares, and what is read from it.
#include <cstdint>
#include <limits>
#include <map>
#include "hardware_interface/component_parser.hpp"
#include "hardware_interface/lexical_casts.hpp"
#include "vh.hpp"
namespace hi = hardware_interface;
namespace
{
using Par = std::unordered_map<std::string, std::string>;
struct Itf
{
  std::string name, min, max, init, type = "double";
  int size = 1;
  Par par;
  bool lim = true;
  std::string xml(const char * tag, const std::string & attr, const std::string & body) const { return std::string("<") + tag + " name=\"" + name + "\"" + attr + ">" + body + "</" + tag + ">"; }
};
bool same(const hi::InterfaceInfo & a, const Itf & b)
{
  return a.name == b.name && a.min == b.min && a.max == b.max && a.initial_value == b.init && a.data_type == b.type && a.size == b.size && a.parameters == b.par && a.enable_limits == b.lim;
}
bool same(const std::vector<hi::InterfaceInfo> & a, const std::vector<Itf> & b)
{
  bool ok = a.size() == b.size();
  for (size_t i = 0; ok && i < b.size(); ++i) ok = same(a[i], b[i]);
  return ok;
}
const char * HEAD = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"w\"/><link name=\"a\"/><link name=\"b\"/>"
  "<joint name=\"x\" type=\"continuous\"><parent link=\"w\"/><child link=\"a\"/></joint><joint name=\"y\" type=\"continuous\"><parent link=\"w\"/><child link=\"b\"/></joint>";
const char * HW = "<hardware><plugin>p</plugin></hardware>";
// reads a description; false if it was refused
bool read(const std::string & u, std::vector<hi::HardwareInfo> & infos)
{
  try { infos = hi::parse_control_resources_from_urdf(u); } catch (const std::exception &) { return false; }
  return true;
}
std::string param(const std::string & n, const std::string & v) { return "<param name=\"" + n + "\">" + v + "</param>"; }
}  // namespace
SYM_HARNESS(desc_interfaces)
{
  static const char * KIND[] = {"joint", "sensor", "gpio"};
  const int kind = (int)sym_choice("kind", 3);
  const bool cmd = sym_bool("command_interface");  // which kind of interface is looked at
  bool bad = false;
  // either its own attributes vary, or its surroundings
  const bool own_attr = sym_bool("own_attributes");
  auto pick = [](const char * n, int k, bool vary) { return vary ? (int)sym_choice(n, k) : 0; };
  // the interface looked at
  Itf f;
  f.name = "position";
  std::string attr, body;
  switch (pick("data_type", 3, own_attr)) {
    case 1: attr += " data_type=\"bool\""; f.type = "bool"; break;
    case 2: attr += " data_type=\" int32 \""; f.type = "int32"; break;
    default: break;
  }
  switch (pick("size", 6, own_attr)) {
    case 1: attr += " size=\"12\""; f.size = 12; break;
    case 2: attr += " size=\" 3 \""; f.size = 3; break;
    case 3: attr += " size=\"0\""; bad = true; break;
    case 4: attr += " size=\"-3\""; bad = true; break;
    case 5: attr += " size=\"2.5\""; bad = true; break;
    default: break;
  }
  // its parameters
  const int params = own_attr ? (int)sym_choice("params", 6) : 3 * (int)sym_bool("some_params");
  if (params == 1 || params == 3) { body += param("min", " -1 "); f.par["min"] = f.min = "-1"; }
  if (params == 2 || params == 3) { body += param("max", "1.5"); f.par["max"] = f.max = "1.5"; }
  if (params >= 3) { body += param(" initial_value ", "\n 0.5"); f.par["initial_value"] = f.init = "0.5"; }
  if (params == 4) { body += param("register", "a b") + param("empty", ""); f.par["register"] = "a b"; f.par["empty"] = ""; }
  if (params == 5) { body += "<param>3</param>"; bad = true; }
  const int lim = (int)sym_choice("limits", 4), clim = pick("component_limits", 3, kind != 2 && !own_attr);
  static const char * LIM[] = {"", "<limits enable=\"false\"/>", "<limits enable=\"True\"/>", "<limits enable=\"maybe\"/>"};
  body += LIM[lim];
  bad |= lim == 3;
  f.lim = lim != 1 && clim != 1;
  // the others
  Itf o;
  o.name = "velocity";
  o.lim = clim != 1;
  const int before = pick("before", 2, !own_attr), after = pick("after", 2, !own_attr), others = pick("others", 3, !own_attr);
  std::vector<Itf> mine, rest;
  const char * tag = cmd ? "command_interface" : "state_interface", * otag = cmd ? "state_interface" : "command_interface";
  std::string text;
  auto add = [&](std::vector<Itf> & l, const Itf & i, const char * t, const std::string & a, const std::string & b) { l.push_back(i); text += i.xml(t, a, b); };
  if (before) add(mine, o, tag, "", "");
  if (others > 0) add(rest, o, otag, "", "");
  add(mine, f, tag, attr, body);
  Itf e = o;
  e.name = "effort";
  if (others > 1) add(rest, e, otag, "", "");
  if (after) add(mine, e, tag, "", "");
  const bool own = pick("own_parameter", 2, !own_attr);
  Par par;
  if (own) { text += param("serial", "17"); par["serial"] = "17"; }
  const std::string name = kind == 0 ? "x" : "part";
  std::string u = std::string(HEAD) + "<ros2_control name=\"h\" type=\"system\">" + HW + "<" + KIND[kind] + " name=\"" + name + "\">" + LIM[clim] + text + "</" + KIND[kind] + "></ros2_control></robot>";
  std::vector<hi::HardwareInfo> infos;
  const bool ok = read(u, infos);
  sym_assert(ok == !bad, "descriptions are refused exactly if an interface is malformed");
  if (!ok) { sym_cover("refused"); return; }
  const auto & h = infos.at(0);
  const auto & c = kind == 0 ? h.joints : kind == 1 ? h.sensors : h.gpios;
  sym_assert(infos.size() == 1 && h.joints.size() == (kind == 0) && h.sensors.size() == (kind == 1) && h.gpios.size() == (kind == 2), "the description has the declared components");
  sym_assert(c.at(0).name == name && c[0].type == KIND[kind] && c[0].parameters == par && c[0].enable_limits == (clim != 1), "a component has the declared name, kind and parameters");
  sym_assert(same(cmd ? c[0].command_interfaces : c[0].state_interfaces, mine), "interfaces are read as declared, in their order");
  sym_assert(same(cmd ? c[0].state_interfaces : c[0].command_interfaces, rest), "interfaces of the other kind are read as declared, in their order");
  // descriptions of interfaces derived from that
  const auto list = cmd ? hi::parse_command_interface_descriptions(c) : hi::parse_state_interface_descriptions(c);
  std::unordered_map<std::string, hi::InterfaceDescription> map;
  if (cmd) hi::parse_command_interface_descriptions(c, map); else hi::parse_state_interface_descriptions(c, map);
  bool good = list.size() == mine.size() && map.size() == mine.size();
  for (size_t i = 0; good && i < mine.size(); ++i) {
    const std::string full = name + "/" + mine[i].name;
    good = list[i].get_name() == full && list[i].get_prefix_name() == name && list[i].get_interface_name() == mine[i].name && same(list[i].interface_info, mine[i]) && list[i].get_data_type() == hi::HandleDataType(mine[i].type);
    good = good && map.count(full) && same(map.at(full).interface_info, mine[i]);
  }
  sym_assert(good, "every declared interface gets one description under its full name");
}
SYM_HARNESS(desc_hardware)
{
  // attributes and properties of one component between two others
  bool bad = false;
  // either how it runs varies, or everything else
  const bool how = sym_bool("how_it_runs");
  auto pick = [](const char * n, int k, bool vary) { return vary ? (int)sym_choice(n, k) : 0; };
  std::string attr, hw, prop;
  unsigned rate = 0;
  static const char * RATE[] = {"", "50", " 7 ", "0", "-1", "x", "99999999999"};
  const int r = pick("rate", 7, !how);
  if (r) attr += std::string(" rw_rate=\"") + RATE[r] + "\"";
  if (r == 1) rate = 50;
  if (r == 2) rate = 7;
  bad |= r >= 4;
  static const char * ASYNC[] = {"", "true", "FALSE", "1"};
  const int a = pick("async", 4, how);
  if (a) attr += std::string(" is_async=\"") + ASYNC[a] + "\"";
  bad |= a == 3;
  static const char * PRIO[] = {"", "30", "0", "high"};
  const int p = pick("priority", 4, how), q = pick("property_priority", 4, how);
  if (p) attr += std::string(" thread_priority=\"") + PRIO[p] + "\"";
  bad |= a == 1 && p >= 2;
  int prio = a == 1 ? (p == 1 ? 30 : 50) : std::numeric_limits<int>::max();
  const int ap = pick("async_properties", 4, how);
  std::vector<int> cores;
  if (ap || q) {
    prop = "<properties><async";
    if (q) prop += std::string(" thread_priority=\"") + (q == 1 ? "20" : PRIO[q]) + "\"";
    if (q == 1) prio = 20;
    bad |= q >= 2;
    if (ap == 1) { prop += " affinity=\"[2, 4]\""; cores = {2, 4}; }
    if (ap == 2) prop += " scheduling_policy=\"Detached\" print_warnings=\"false\"";
    if (ap == 3) { prop += " affinity=\"2,4\""; bad = true; }
    prop += "/></properties>";
  }
  const bool group = pick("group", 2, !how), params = pick("parameters", 2, !how), first = sym_bool("hardware_first");
  const int plugin = pick("plugin", 2, !how);
  hw = std::string("<hardware>") + (plugin ? "" : "<plugin> pkg/Plugin </plugin>") + (group ? "<group> g </group>" : "") + (params ? param("ip", " 1.2.3.4 ") + param("port", "80") : "") + "</hardware>";
  bad |= plugin;
  const bool strange = pick("strange_tag", 2, !how);
  bad |= strange;
  const std::string joint = "<joint name=\"x\"><state_interface name=\"position\"/></joint><sensor name=\"s\"><state_interface name=\"force\"/></sensor>";
  auto other = [](const char * n) { return std::string("<ros2_control name=\"") + n + "\" type=\"sensor\" rw_rate=\"3\">" + "<hardware><plugin>q</plugin><group>o</group></hardware><sensor name=\"" + n + "\"><state_interface name=\"t\"/></sensor></ros2_control>"; };
  const bool o1 = pick("one_before", 2, !how), o2 = sym_bool("one_after");
  const std::string u = std::string(HEAD) + (o1 ? other("before") : "") + "<ros2_control name=\" h \" type=\"system\"" + attr + ">" + (first ? hw + prop + joint : joint + prop + hw) + (strange ? "<joints/>" : "") + "</ros2_control>" + (o2 ? other("after") : "") + "</robot>";
  std::vector<hi::HardwareInfo> infos;
  const bool ok = read(u, infos);
  sym_assert(ok == !bad, "descriptions are refused exactly if a component is malformed");
  if (!ok) { sym_cover("refused"); return; }
  sym_assert(infos.size() == 1u + o1 + o2, "every component is read");
  const auto & h = infos.at(o1);
  sym_assert(h.name == "h" && h.type == "system" && h.hardware_plugin_name == "pkg/Plugin" && h.group == (group ? "g" : ""), "a component has the declared name, type, plugin and group");
  sym_assert(h.rw_rate == rate && h.is_async == (a == 1), "a component has the declared rate and mode");
  sym_assert(h.async_params.thread_priority == prio && h.async_params.cpu_affinity_cores == cores, "a component has the declared priority and cores");
  if (ap == 2) sym_assert(h.async_params.scheduling_policy == "detached" && !h.async_params.print_warnings, "a component has the declared scheduling");
  else sym_assert(h.async_params.scheduling_policy == infos.back().async_params.scheduling_policy && h.async_params.print_warnings, "a component has the default scheduling");
  sym_assert(h.hardware_parameters == (params ? Par{{"ip", "1.2.3.4"}, {"port", "80"}} : Par()), "a component has exactly its parameters");
  sym_assert(h.joints.size() == 1 && h.joints[0].name == "x" && h.sensors.size() == 1 && h.sensors[0].name == "s" && h.gpios.empty() && h.transmissions.empty(), "a component has exactly its joints and sensors");
  sym_assert(h.original_xml == u, "a component gets the whole description");
  for (int k = 0; k < 2; ++k) if (k ? o2 : o1) {
    const auto & i = k ? infos.back() : infos.front();
    sym_assert(i.name == (k ? "after" : "before") && i.type == "sensor" && i.hardware_plugin_name == "q" && i.group == "o" && i.rw_rate == 3 && !i.is_async && i.hardware_parameters.empty() && i.joints.empty() && i.sensors.size() == 1 && i.async_params.cpu_affinity_cores.empty(), "other components are read as declared, in their order");
  }
}
SYM_HARNESS(desc_mimic)
{
  // y imitates x (or not), in any order of joints
  const bool mimic = sym_bool("urdf_mimic"), given = mimic && sym_bool("factors"), rev = sym_bool("reversed"), cmd = sym_bool("command_interface");
  static const char * ATTR[] = {"", " mimic=\"true\"", " mimic=\"False\"", " mimic=\"yes\""};
  const int attr = (int)sym_choice("mimic_attribute", 4), where = (int)sym_choice("followed_joint", 3), other = (int)sym_choice("other_joint", 3);
  // where: 0 the followed joint is in the component, 1 in another, 2 in none
  std::string u = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"w\"/><link name=\"a\"/><link name=\"b\"/><link name=\"c\"/>"
    "<joint name=\"x\" type=\"continuous\"><parent link=\"w\"/><child link=\"a\"/></joint><joint name=\"y\" type=\"continuous\"><parent link=\"w\"/><child link=\"b\"/>";
  if (mimic) u += given ? "<mimic joint=\"x\" multiplier=\"-2\" offset=\"0.5\"/>" : "<mimic joint=\"x\"/>";
  u += std::string("</joint><joint name=\"z\" type=\"") + (other == 1 ? "fixed" : "prismatic") + "\"><parent link=\"w\"/><child link=\"c\"/>" + "<limit lower=\"-1\" upper=\"1\" velocity=\"1\" effort=\"1\"/></joint>";
  auto joint = [](const char * n, const char * a, bool c) { return std::string("<joint name=\"") + n + "\"" + a + ">" + (c ? "<command_interface name=\"position\"/>" : "") + "<state_interface name=\"position\"/></joint>"; };
  const std::string x = joint("x", "", true), y = joint("y", ATTR[attr], cmd), z = joint(other == 2 ? "nowhere" : "z", "", true);
  std::string in = where == 0 ? (rev ? y + z + x : x + z + y) : rev ? y + z : z + y;
  u += std::string("<ros2_control name=\"h\" type=\"system\">") + HW + in + "</ros2_control>";
  if (where == 1) u += std::string("<ros2_control name=\"k\" type=\"system\">") + HW + x + "</ros2_control>";
  u += "</robot>";
  const bool follow = mimic && attr != 2;
  const bool bad = attr == 3 || other != 0 || (attr == 1 && !mimic) || (follow && (cmd || where != 0));
  std::vector<hi::HardwareInfo> infos;
  const bool ok = read(u, infos);
  sym_assert(ok == !bad, "descriptions are refused exactly if a joint is unknown or fixed, or an imitating joint is inconsistent");
  if (!ok) { sym_cover("refused"); return; }
  const auto & h = infos.at(0);
  sym_assert(h.mimic_joints.size() == (follow ? 1u : 0u), "exactly the imitating joints imitate");
  if (!follow) return;
  const auto & m = h.mimic_joints[0];
  sym_assert(h.joints.at(m.joint_index).name == "y" && h.joints.at(m.mimicked_joint_index).name == "x", "an imitating joint follows the declared one");
  sym_assert(m.multiplier == (given ? -2 : 1) && m.offset == (given ? 0.5 : 0), "an imitating joint has the declared factor and offset");
}
