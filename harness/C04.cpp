// C04: the distributed programs on failing disks and with dying processes: a
// run that reports success has left the right output, and a run started again
// afterwards on the same directories completes with it.
#include <richdem/richdem.hpp>
#include "job.hpp"
using namespace hz;
static void init() { job::load(true, true); }

struct Plan { uint32_t kinds = 0, mean = 0, left = 0; uint64_t budget = ~0ull; int death_rank = -1; uint64_t death_at = 0; bool slow_stop = false; };
static Plan draw_plan(const job::Job &j, int round) {
  Plan p;
  int k = choose(FAULT, 8);
  if (round == 0 && k == 0) { stat("plan.none"); return p; }
  if (k <= 4) {
    static const uint32_t K[] = {F_OPEN, F_READ_EIO, F_WRITE_EIO | F_WRITE_ENOSPC, F_CLOSE | F_FLUSH, F_WRITE_ENOSPC | F_FLUSH | F_CLOSE, ~0u, ~0u};
    p.kinds = K[choose(FAULT, 7)] | (choose(FAULT, 2) ? (uint32_t)(F_READ_SHORT | F_WRITE_SHORT | F_EINTR) : 0u);
    static const uint32_t M[] = {4, 15, 40, 100, 250, 600};
    p.mean = M[choose(FAULT, 6)]; p.left = choose(FAULT, 3) ? 1 : 2 + choose(FAULT, 6);
    stat("plan.files");
  }
  if (k == 5 || k == 7) { static const uint32_t B[] = {300, 3000, 12000, 60000}; p.budget = choose(FAULT, B[choose(FAULT, 4)]); stat("plan.disk"); }
  if (k >= 6 || (k == 4 && choose(FAULT, 3) == 2)) {
    static const uint32_t N[] = {20, 80, 200, 600, 1500};
    p.death_rank = choose(FAULT, j.cfg.ranks); p.death_at = 1 + choose(FAULT, N[choose(FAULT, 5)]);
    stat("plan.death");
  }
  return p;
}

static void run() {
  job::quiet_world();
  job::Job j = job::draw(choose(WORK, 2) ? job::PF : job::D8, true);
  job::put_inputs(j);
  int rounds = 1 + (choose(FAULT, 4) == 3 ? 1 + choose(FAULT, 2) : 0);
  for (int round = 0; round < rounds; round++) {
    Plan p = draw_plan(j, round);
    bool linger = choose(SCHED, 2);                    // the others go on for a while after a failure
    note("round %d: kinds %x mean %u left %u budget %llu death %d at %llu", round, p.kinds, p.mean, p.left, (unsigned long long)p.budget, p.death_rank, (unsigned long long)p.death_at);
    in_child([&] {
      simmpi::Config c = j.cfg;
      c.death_rank = p.death_rank; c.death_at = p.death_at; c.crash_is_failure = true;
      io.kinds = p.kinds; io.mean = p.mean; io.left = p.left; io.disk_budget = p.budget;
      if (linger) make_lazy(self(), true);
      arm_preemption();
      io_arm();
      simmpi::Result r = simmpi::run_job(c);
      io_disarm();
      disarm_preemption();
      carry_data()[0] = r.end; carry_data()[1] = io_faults_fired(); carry_data()[2] = io_faults_in_strile_rewrite();
      event("the run %s", r.end == simmpi::SUCCESS ? "reports success" : "reports failure");
      if (r.end != simmpi::SUCCESS) note("rank %d: %s", r.rank, r.why.c_str());
    });
    bool success = carry_data()[0] == simmpi::SUCCESS; bool hit = carry_data()[1];
    job::excuse = carry_data()[2] && listed("gdal-strip-table") ? "gdal-strip-table" : nullptr;
    stat(success ? (hit ? "runs.success-despite-faults" : "runs.success") : "runs.failed");
    if (success) state_hash(job::check_outputs(j, hit ? "a run that met faults reports success" : "a run reports success"));
    else if (!hit && p.death_rank < 0 && !p.kinds) fail("failed-run", "a run in which nothing failed reports failure");
  }
  job::excuse = nullptr;
  // the faults have stopped: once more, from the start
  if (choose(WORK, 2)) { j.cfg.ranks = 2 + choose(SCHED, job::MAXR - 1); simmpi::draw_transport(j.cfg); }
  j.cfg.on_failure = [](int rank, const std::string &why) { fail("no-recovery", "the run started again without faults ended on rank %d: %s", rank, why.c_str()); };
  arm_preemption();
  simmpi::Result r = simmpi::run_job(j.cfg);
  disarm_preemption();
  if (r.end != simmpi::SUCCESS) fail("no-recovery", "the run started again without faults ended on rank %d: %s", r.rank, r.why.c_str());
  state_hash(job::check_outputs(j, "after the run was started again"));
}
Harness g_harnesses[] = {{"C04", run, init}, {nullptr, nullptr, nullptr}};
