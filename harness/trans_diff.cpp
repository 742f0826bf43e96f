// Differential transmission.
#include "../src/differential_transmission_loader.cpp"
#include "trans.hpp"
// the two actuators sum up in joint 0 and their difference drives joint 1
static void maps(tr::Maps & m, const double * ar, const double * jr)
{
  for (int j = 0; j < 2; ++j) for (int a = 0; a < 2; ++a) {
    const double s = j && a ? -1 : 1;
    m.a2j_v[j][a] = s / (2 * jr[j] * ar[a]);
    m.j2a_v[a][j] = s * ar[a] * jr[j];
    m.a2j_e[j][a] = s * ar[a] * jr[j];
    m.j2a_e[a][j] = s / (2 * jr[j] * ar[a]);
  }
}
SYM_HARNESS(tr_differential) { tr::two<ti::DifferentialTransmission>(maps, 6); }
SYM_HARNESS(tr_differential_refusals) { ti::DifferentialTransmission t({2, 3}, {4, 5}); tr::refusals(t, 2); }
SYM_HARNESS(tr_differential_loaded) { tr::two_loaded<ti::DifferentialTransmission, ti::DifferentialTransmissionLoader>(); }
