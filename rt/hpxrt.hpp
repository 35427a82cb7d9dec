// Uninstrumented part of the HPX stand-in: localities, component instances, symbolic names.
#pragma once
#include "mc.hpp"
#include <string>

namespace mc {
struct Instance : Obj { // one component instance
  int locality = 0;
  long serial = 0;
  const void *type = nullptr; // identity of the component class
};
void instance_created(Instance *i);
// records on which locality tasks of components ran / instances were created (for the oracles)
struct Placement {
  std::vector<int> actions;   // locality of every component action, in start order
  std::vector<int> instances; // locality of every instance created
};
Placement &placement();
void note_action(int locality);
// failures of component actions; numbered from 1 in the order in which they start
enum FaultKind { FAULT_NONE, FAULT_HPX, FAULT_MEMORY, FAULT_RESULT_LOST };
struct Fault {
  FaultKind kind = FAULT_NONE;
  long first = 0, last = 0; // the actions that fail
  int locality = -1;        // only on this node
  long started = 0, failed = 0;
};
Fault &fault();
FaultKind action_starts(int locality);

// symbolic names: the first registration wins; the registry does not keep instances alive
bool register_name(const std::string &name, Instance *i);
void unregister_name(const std::string &name, Instance *i);
// blocks until the name is bound; the returned instance has been referenced for the caller
Instance *resolve_name(const std::string &name);
void instance_destroyed(Instance *i);
void check_locality(int l);
} // namespace mc
