// Simple transmission.
#include "../src/simple_transmission_loader.cpp"
#include "trans.hpp"
SYM_HARNESS(tr_simple)
{
  const double r = tr::val("reduction", {1, -1, 2, -.5, 64, -.03125});
  tr::Maps m;
  m.off[0] = tr::val("offset", {0, 1.5, -32});
  m.a2j_v[0][0] = m.j2a_e[0][0] = 1 / r;
  m.j2a_v[0][0] = m.a2j_e[0][0] = r;
  ti::SimpleTransmission t(r, m.off[0]);
  tr::Side j(1, "j", false), a(1, "a", false);
  switch (sym_choice("present", 3)) {
    case 1: { int k = (int)sym_choice("interface", 6); j.only(k); a.only(k); break; }
    case 2: { int k = (int)sym_choice("interface", 6); if (sym_choice("side", 2)) j.without(k); else a.without(k); break; }
    default: break;
  }
  const int lay = (int)sym_choice("layout", 3);
  t.configure(j.handles<ti::JointHandle>(lay), a.handles<ti::ActuatorHandle>(lay));
  tr::check(t, j, a, m, 6);
}
SYM_HARNESS(tr_simple_refusals) { ti::SimpleTransmission t(2, 3); tr::refusals(t, 1); }
SYM_HARNESS(tr_simple_loaded)
{
  auto i = tr::info(1);
  const bool none = sym_choice("no_joint", 2);
  if (none) i.joints.clear();
  ti::SimpleTransmissionLoader l;
  auto t = l.load(i);
  bool ok = !none && i.joints[0].mechanical_reduction != 0;
  sym_assert(!!t == ok, "a transmission is loaded exactly if it is complete and the reduction is not zero");
  if (!t) { sym_cover("refused"); return; }
  auto * s = dynamic_cast<ti::SimpleTransmission *>(t.get());
  sym_assert(s && s->num_joints() == 1 && s->num_actuators() == 1, "the transmission has the requested type");
  sym_assert(sym_and(s->get_actuator_reduction() == i.joints[0].mechanical_reduction, s->get_joint_offset() == i.joints[0].offset), "reduction and offset are the configured ones");
  sym_cover("loaded");
}
