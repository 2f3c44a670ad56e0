#ifndef VERIF_DRIVER_H
#define VERIF_DRIVER_H
#include "vjson.h"
#include <memory>
// A World is one fresh instance of the system under test; apply() executes one operation of a
// behaviour on the real code and returns what was observed.
struct World { virtual ~World()=default; virtual J apply(const J& op)=0; };
std::unique_ptr<World> makeWorld();
// number of behaviours run in one child process (1: every behaviour gets a process of its own)
extern int verif_chunk;
#endif
