// The simulated world around the server: application, clients, oracles.
#pragma once
#include "rt.h"
#include "kernel.h"
#include "tmpl.h"
namespace sim {
struct Prof {
  int id;
  u32 mask;
  const char* name;
};
void world_run(int prop, u32 epoch, bool last_epoch);   // one server life; does not return
u32 world_epochs(int prop);                              // C09: number of lives
void tmpl_run();                                         // C15
void cont_run();                                         // C18
u32 prop_mask(int prop);
void on_asan(const char* report);
}
