// Running a message-passing program under the simulator.
#pragma once
#include "core.hpp"
#include <functional>
#include <string>
#include <vector>
namespace simmpi {
typedef int (*Entry)(int, char **);
struct Config {
  int ranks = 2;
  std::vector<Entry> entry;              // one copy of the program per rank
  std::vector<std::string> args;         // argv[0] first
  // how the transport behaves
  enum SendMode { EAGER, RENDEZVOUS, BY_SIZE, MIXED } send = EAGER;
  uint32_t eager_limit = 0;
  bool late_buffers = false;             // non-blocking sends read their buffer as late as allowed
  bool finalize_waits = false;           // MPI_Finalize synchronises
  int death_rank = -1; uint64_t death_at = 0;   // this rank dies at its death_at-th call (messages and files)
  bool may_refuse = false;               // a rank that finalises and then exits with an error has refused the job, not failed it
  bool crash_is_failure = false;         // a rank ended by a signal fails the job
  std::function<void(int rank, const std::string &why)> on_failure;   // null: the job is recorded as failed
};
enum End { RUNNING, SUCCESS, FAILED };
struct Result { End end = RUNNING; int rank = -1; std::string why; int refused = 0; bool rank0_refused = false; };
Result run_job(const Config &c);
int current_rank();                      // -1 outside a job
uint64_t calls(int rank);
void count_call();                       // a death point that is not a message call
// Loads n copies of the program's shared object lying beside the executable.
std::vector<Entry> load_program(const char *name, int n);
// Draws the transport's behaviour from the schedule stream.
void draw_transport(Config &c);
}
