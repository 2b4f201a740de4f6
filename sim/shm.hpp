// Result block shared between the driver and the forked child of one run.
#pragma once
#include <cstdint>
namespace sim {
enum Outcome : uint32_t { O_NONE = 0, O_OK = 1, O_VIOLATION = 2, O_KNOWN = 3 };
struct Counter { char name[48]; uint64_t n; };
constexpr int MAX_COUNTERS = 320;
constexpr uint32_t MAX_CHOICES = 1u << 20;   // per stream
constexpr uint32_t TRACE_BYTES = 1u << 20;
struct Shm {
  uint32_t outcome;
  char cls[64];
  char detail[4096];
  char known_id[64];
  uint64_t run_index, seed;
  uint64_t ev_hash, inter_hash, state_h;
  uint64_t steps, switches, sim_ns, events;
  uint32_t ncounters;
  Counter counters[MAX_COUNTERS];
  // handed from one phase's process to the next
  struct { bool valid; uint64_t rng[3]; uint32_t pos[3]; uint64_t acc, ent; int64_t now; uint64_t user[64]; } carry;
  // replay control
  uint32_t replay;            // 1: use recorded streams
  uint32_t verbose;
  uint32_t in_len[3];
  uint32_t out_len[3];
  uint32_t in[3][MAX_CHOICES];
  uint32_t out[3][MAX_CHOICES];
  uint32_t trace_len;
  char trace[TRACE_BYTES];
};
extern Shm *shm;
void child_begin();     // in the child: reset the simulator, activate arena
void child_main(void (*run)());
std::string scratch_base();
}
