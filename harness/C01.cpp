// C01: the distributed flow accumulation, tile by tile, against the undivided raster.
#include <richdem/richdem.hpp>
#include "job.hpp"
using namespace hz;
static void init() { job::load(true, false); }
static void run() {
  job::quiet_world();
  job::Job j = job::draw(job::D8);
  job::put_inputs(j);
  job::no_failure(j.cfg);
  arm_preemption();
  simmpi::Result r = simmpi::run_job(j.cfg);
  disarm_preemption();
  if (r.end != simmpi::SUCCESS) fail("failed-run", "rank %d: %s", r.rank, r.why.c_str());
  state_hash(job::check_outputs(j, "after the run"));
}
Harness g_harnesses[] = {{"C01", run, init}, {nullptr, nullptr, nullptr}};
