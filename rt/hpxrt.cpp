#include "hpxrt.hpp"
#include <map>

namespace mc {
static std::map<std::string, Instance *> g_names;
static Placement g_place;
static long g_serial = 0;
static Fault g_fault;

static void reset() {
  g_names.clear();
  g_place.actions.clear();
  g_place.instances.clear();
  g_serial = 0;
  g_fault = Fault();
}
static struct Init {
  Init() { on_execution_start(reset); }
} init_;

Placement &placement() { return g_place; }
void note_action(int l) { g_place.actions.push_back(l); }
Fault &fault() { return g_fault; }
FaultKind action_starts(int l) {
  note_action(l);
  Fault &f = g_fault;
  f.started++;
  if (f.kind == FAULT_NONE || f.started < f.first || f.started > f.last || (f.locality >= 0 && l != f.locality)) return FAULT_NONE;
  f.failed++;
  return f.kind;
}
void instance_created(Instance *i) {
  i->serial = ++g_serial;
  g_place.instances.push_back(i->locality);
}
bool register_name(const std::string &name, Instance *i) {
  auto it = g_names.find(name);
  if (it != g_names.end()) return false;
  g_names[name] = i;
  hb_release(&g_names);
  return true;
}
void unregister_name(const std::string &name, Instance *i) {
  auto it = g_names.find(name);
  if (it != g_names.end() && it->second == i) g_names.erase(it);
}
Instance *resolve_name(const std::string &name) {
  std::string n = name;
  if (!g_names.count(n)) wait_until([n] { return g_names.count(n) != 0; });
  hb_acquire(&g_names);
  Instance *i = g_names[n];
  if (i->refs <= 0) fail("symbolic name %s refers to a component that does not exist any more", n.c_str());
  ref(i);
  return i;
}
void instance_destroyed(Instance *i) {
  // a name that outlives its (unmanaged) instance dangles; drop it so that it cannot be resolved silently
  for (auto it = g_names.begin(); it != g_names.end();) {
    if (it->second == i) it = g_names.erase(it);
    else ++it;
  }
}
void check_locality(int l) {
  if (l < 0 || l >= env().localities) fail("locality %d does not exist", l);
}
} // namespace mc
