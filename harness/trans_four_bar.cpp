// Four-bar linkage transmission.
#include "../src/four_bar_linkage_transmission_loader.cpp"
#include "trans.hpp"
// actuator 0 drives joint 0; actuator 1 drives joint 1 relative to the motion of joint 0
static void maps(tr::Maps & m, const double * ar, const double * jr)
{
  m.j2a_v[0][0] = jr[0] * ar[0]; m.j2a_v[0][1] = 0;
  m.j2a_v[1][0] = ar[1]; m.j2a_v[1][1] = jr[1] * ar[1];
  m.a2j_v[0][0] = 1 / (jr[0] * ar[0]); m.a2j_v[0][1] = 0;
  m.a2j_v[1][0] = -1 / (jr[0] * ar[0] * jr[1]); m.a2j_v[1][1] = 1 / (ar[1] * jr[1]);
  for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) { m.a2j_e[i][k] = m.j2a_v[k][i]; m.j2a_e[i][k] = m.a2j_v[k][i]; }
}
SYM_HARNESS(tr_four_bar) { tr::two<ti::FourBarLinkageTransmission>(maps, 3); }
SYM_HARNESS(tr_four_bar_refusals) { ti::FourBarLinkageTransmission t({2, 3}, {4, 5}); tr::refusals(t, 2); }
SYM_HARNESS(tr_four_bar_loaded) { tr::two_loaded<ti::FourBarLinkageTransmission, ti::FourBarLinkageTransmissionLoader>(); }
