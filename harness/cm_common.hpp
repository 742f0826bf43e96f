// Invariants of the controller manager shared by its harnesses.
#pragma once
#include "ctl.hpp"
namespace vt
{
static inline bool is_act(CtlBase * c) { return c->base()->get_lifecycle_state().id() == LS::PRIMARY_STATE_ACTIVE; }
static inline size_t n_cmd(CtlBase * c) { if (auto * p = dynamic_cast<Ctl *>(c)) return p->n_cmd(); return dynamic_cast<ChainCtl *>(c)->n_cmd(); }
static inline size_t n_state(CtlBase * c) { if (auto * p = dynamic_cast<Ctl *>(c)) return p->n_state(); return dynamic_cast<ChainCtl *>(c)->n_state(); }
// every command interface (of the hardware in ifs, and every exported reference) is claimed by exactly the active controller using it
static inline void inv_claims(World & w, std::vector<std::string> ifs)
{
  for (auto & c : w.ctl) for (auto & r : c->cfg.refs) ifs.push_back(c->cfg.name + "/" + r);
  for (auto & k : ifs) {
    int users = 0;
    for (auto & c : w.ctl) for (auto & n : c->cfg.cmd) users += is_act(c) && n == k;
    sym_assert(users <= 1, "two active controllers never own the same command interface");
    if (w.cm->rm().command_interface_exists(k)) sym_assert(w.claimed(k) == (users == 1), "a command interface is claimed exactly while an active controller uses it");
    else sym_assert(users == 0, "an active controller only uses interfaces that exist");
  }
  for (auto & c : w.ctl) {
    if (is_act(c)) sym_assert(n_cmd(c) == c->cfg.cmd.size() && n_state(c) == c->cfg.state.size(), "an active controller holds every interface it requires");
    else sym_assert(n_cmd(c) == 0 && n_state(c) == 0, "a controller that is not active holds no interface");
  }
}
static inline CtlBase * owner(World & w, const std::string & itf)
{
  for (auto & c : w.ctl) if (c->cfg.chainable && itf.rfind(c->cfg.name + "/", 0) == 0) return c;
  return nullptr;
}
static inline void inv_chain(World & w)
{
  for (auto & c : w.ctl) {
    if (is_act(c)) {
      for (auto & k : c->cfg.cmd) if (auto * o = owner(w, k)) sym_assert(is_act(o), "the controller whose reference an active controller commands is active");
      for (auto & k : c->cfg.state) if (auto * o = owner(w, k)) sym_assert(is_act(o), "the controller whose exported state an active controller reads is active");
    }
    if (!c->cfg.chainable) continue;
    bool used = false;
    for (auto & u : w.ctl) if (is_act(u)) for (auto & k : u->cfg.cmd) used |= owner(w, k) == c;
    if (is_act(c)) sym_assert(c->base()->is_in_chained_mode() == used, "an active controller is in chained mode exactly while another active controller commands its references");
    for (auto & r : c->cfg.refs) sym_assert(w.available(c->cfg.name + "/" + r) == is_act(c), "reference interfaces are available exactly while their controller is active");
    for (auto & r : c->cfg.exported) sym_assert(w.cm->rm().state_interface_is_available(c->cfg.name + "/" + r) == is_act(c), "exported state interfaces are available exactly while their controller is active");
  }
}
// one control cycle: exactly the active controllers run, once, users of an exported interface in data-flow order
static inline void inv_cycle(World & w)
{
  size_t l = log_.size();
  w.tick();
  auto pos = [&](CtlBase * c) { for (size_t i = l; i < log_.size(); ++i) if (log_[i].who == c->id && log_[i].cb == UPDATE) return (int)i; return -1; };
  for (auto & c : w.ctl) {
    sym_assert(count(c->id, UPDATE, l) == (is_act(c) ? 1 : 0), "each cycle updates exactly the active controllers, once");
    if (c->cfg.chainable) sym_assert(count(c->id, UPDATE_REF, l) == (is_act(c) && !c->base()->is_in_chained_mode() ? 1 : 0), "references come from subscribers exactly when not in chained mode");
    if (!is_act(c)) continue;
  }
  // data-flow edges (from runs before to); with a cyclic data flow there is no order to respect
  const int n = (int)w.ctl.size();
  std::vector<std::vector<char>> e(n, std::vector<char>(n, 0)), r;
  auto ix = [&](CtlBase * c) { for (int i = 0; i < n; ++i) if (w.ctl[i] == c) return i; return -1; };
  for (int i = 0; i < n; ++i) {
    for (auto & k : w.ctl[i]->cfg.cmd) if (auto * o = owner(w, k)) e[i][ix(o)] = 1;
    for (auto & k : w.ctl[i]->cfg.state) if (auto * o = owner(w, k)) e[ix(o)][i] = 1;
  }
  r = e;
  for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i][j] |= r[i][k] & r[k][j];
  for (int i = 0; i < n; ++i) if (r[i][i]) return;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    if (e[i][j] && is_act(w.ctl[i]) && is_act(w.ctl[j])) sym_assert(pos(w.ctl[i]) < pos(w.ctl[j]), "a controller runs before the controllers that consume what it writes or exports");
}
// the command modes the hardware was last switched to match the claims
static inline void inv_modes(World & w, const std::vector<std::string> & ifs)
{
  std::set<std::string> on;
  for (auto & m : modes) if (m.perform && m.res == OK) { for (auto & k : m.stop) on.erase(k); for (auto & k : m.start) on.insert(k); }
  for (auto & k : ifs) sym_assert(on.count(k) == (w.claimed(k) ? 1u : 0u), "the hardware's command modes are those of the active controllers");
}
// the callbacks since `from` and the state of every controller (printed in native replays)
static inline void dump(World & w, size_t from = 0)
{
  if (!sym_replaying()) return;
  static const char * CB[] = {"init", "configure", "activate", "deactivate", "cleanup", "shutdown", "error", "read", "write", "prepare", "perform", "update", "update_ref", "chained", "unchained"};
  for (size_t i = from; i < log_.size(); ++i) sym_note("  %d %s -> %d", log_[i].who, CB[log_[i].cb], log_[i].res);
  for (auto & c : w.ctl) sym_note("  %s state %d chained %d cmd %zu state %zu", c->cfg.name.c_str(), c->base()->get_lifecycle_state().id(), (int)c->base()->is_in_chained_mode(), n_cmd(c), n_state(c));
  for (auto & k : w.cm->rm().command_interface_keys()) sym_note("  %s available %d claimed %d", k.c_str(), (int)w.available(k), (int)w.claimed(k));
}
// request: bit 0 activate, bit 1 deactivate
static inline void request(World & w, int n, const int * req, std::vector<std::string> & a, std::vector<std::string> & d)
{
  for (int i = 0; i < n; ++i) {
    if (req[i] & 1) a.push_back(w.ctl[i]->cfg.name);
    if (req[i] & 2) d.push_back(w.ctl[i]->cfg.name);
  }
}
static inline int ctl_callbacks(size_t from) { int n = 0; for (size_t i = from; i < log_.size(); ++i) n += log_[i].who >= 100 && log_[i].cb != UPDATE && log_[i].cb != UPDATE_REF; return n; }
static inline int mode_calls(size_t from, bool perform) { int n = 0; for (size_t i = from; i < modes.size(); ++i) n += modes[i].perform == perform; return n; }
}  // namespace vt
