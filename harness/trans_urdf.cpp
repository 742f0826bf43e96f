// Transmissions of the robot description.
#include <cstdint>
#include <map>
#include "hardware_interface/component_parser.hpp"
#include "vh.hpp"
extern std::map<std::string, double> lex_numbers;
namespace hi = hardware_interface;
SYM_HARNESS(trans_urdf)
{
  lex_numbers.clear();
  int n_num = 0;
  struct Num { double v; std::string tag; };
  auto num = [&](const char * tag, double def, const char * name) {
    Num n{def, ""};
    if (!sym_choice((std::string("has_") + name).c_str(), 2)) return n;
    n.v = sym_finite(name, 1e9);
    std::string t = std::to_string(++n_num) + ".75";
    lex_numbers[t] = n.v;
    n.tag = std::string("<") + tag + ">" + t + "</" + tag + ">";
    return n;
  };
  const bool single = sym_choice("actuator_component", 2), rev = sym_choice("reversed", 2), other_first = sym_choice("offset_first", 2), unknown = sym_choice("unknown_joint", 2), no_plugin = sym_choice("no_plugin", 2);
  const int n = single ? 1 : 2;
  std::string J[2] = {rev && !single ? "y" : "x", rev ? "x" : "y"};
  if (unknown) J[n - 1] = "z";
  Num jr[2], jo[2], ar[2];
  std::string u = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"w\"/><link name=\"a\"/><link name=\"b\"/>"
    "<joint name=\"x\" type=\"continuous\"><parent link=\"w\"/><child link=\"a\"/></joint><joint name=\"y\" type=\"continuous\"><parent link=\"w\"/><child link=\"b\"/></joint>";
  u += std::string("<ros2_control name=\"h\" type=\"") + (single ? "actuator" : "system") + "\"><hardware><plugin>p</plugin></hardware>";
  u += "<joint name=\"x\"><command_interface name=\"position\"/><state_interface name=\"position\"/><state_interface name=\"velocity\"/></joint>";
  if (!single) u += "<joint name=\"y\"><command_interface name=\"effort\"/><command_interface name=\"velocity\"/><state_interface name=\"effort\"/></joint>";
  u += std::string("<transmission name=\"t\">") + (no_plugin ? "" : "<plugin>my/Transmission</plugin>");
  std::string as, js;
  for (int i = 0; i < n; ++i) {
    const std::string k = std::to_string(i);
    jr[i] = num("mechanical_reduction", 1, ("joint_reduction" + k).c_str());
    jo[i] = num("offset", 0, ("joint_offset" + k).c_str());
    js += "<joint name=\"" + J[i] + "\" role=\"joint" + k + "\">" + (other_first ? jo[i].tag + jr[i].tag : jr[i].tag + jo[i].tag) + "</joint>";
    if (single) continue;
    ar[i] = num("mechanical_reduction", 1, ("actuator_reduction" + k).c_str());
    as += "<actuator name=\"m" + k + "\" role=\"actuator" + k + "\">" + ar[i].tag + "</actuator>";
  }
  u += other_first ? js + as : as + js;
  u += "</transmission></ros2_control></robot>";
  std::vector<hi::HardwareInfo> infos;
  bool threw = false;
  try { infos = hi::parse_control_resources_from_urdf(u); } catch (const std::runtime_error &) { threw = true; }
  sym_assert(threw == (unknown || no_plugin), "transmissions without a plugin or with joints of another component are refused");
  if (threw) { sym_cover("refused"); return; }
  sym_assert(infos.size() == 1 && infos[0].transmissions.size() == 1, "the transmission is read");
  const auto & t = infos[0].transmissions[0];
  sym_assert(t.name == "t" && t.type == "my/Transmission", "the transmission has the given name and type");
  sym_assert((int)t.joints.size() == n && (int)t.actuators.size() == n, "the transmission has the given joints and actuators");
  for (int i = 0; i < n; ++i) {
    const auto & j = t.joints[i];
    const auto & a = t.actuators[i];
    const std::string k = std::to_string(i);
    sym_assert(j.name == J[i] && j.role == "joint" + k, "joints keep their order, names and roles");
    sym_assert(sym_and(j.mechanical_reduction == jr[i].v, j.offset == jo[i].v), "joints have the given reduction and offset, or 1 and 0");
    const auto s = J[i] == "x" ? std::vector<std::string>{"position", "velocity"} : std::vector<std::string>{"effort"};
    const auto c = J[i] == "x" ? std::vector<std::string>{"position"} : std::vector<std::string>{"effort", "velocity"};
    sym_assert(j.state_interfaces == s && j.command_interfaces == c, "joints have the interfaces of the component");
    if (single) sym_assert(a.state_interfaces == s && a.command_interfaces == c && a.mechanical_reduction == 1 && a.offset == 0, "the motor of an actuator component has the interfaces of its joint");
    else sym_assert(a.name == "m" + k && a.role == "actuator" + k && a.mechanical_reduction == ar[i].v && a.offset == 0, "actuators keep their order, names, roles and reductions");
  }
  sym_cover("done");
}
