// C03: every rank of a distributed run finishes, whatever the transport does.
#include <richdem/richdem.hpp>
#include "job.hpp"
#include <dirent.h>
using namespace hz;
static void init() { job::load(true, true); }
static std::vector<std::string> files_in(const std::string &d) {
  std::vector<std::string> v;
  if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(p); }
  return v;
}
// A command line the programs refuse: every process ends, the first one with an error, and nothing is written.
static void refused(job::Job &j) {
  auto &a = j.cfg.args; size_t n = a.size();        // ... many-or-one retention input output
  const std::string S = sim::scratch + "/";
  int k = choose(WORK, 13);
  if (k == 8 && j.prog == job::D8) k = 0;           // any block size will do there
  static const char *WHAT[] = {"one process", "too few arguments", "too many arguments", "unknown flag", "flag without its argument", "help", "neither many nor one", "unknown retention", "small blocks", "block size is no number", "output without a number", "output with both", "retention like the output"};
  switch (k) {
    case 0: j.cfg.ranks = 1; break;
    case 1: { int m = 1 + choose(WORK, 4); while (m--) a.pop_back(); break; }
    case 2: a.push_back(S + "out/more"); break;
    case 3: a.insert(a.begin() + 1 + choose(WORK, n), choose(WORK, 2) ? "--flip" : "-x"); break;
    case 4: a.push_back(choose(WORK, 2) ? "-w" : "--bheight"); break;
    case 5: a.insert(a.begin() + 1 + choose(WORK, n), "--help"); break;
    case 6: a[n - 4] = "few"; break;
    case 7: if (choose(WORK, 2)) a[n - 3] = "@cache"; else a[n - 3] = S + "ret/cache"; break;
    case 8: a.push_back(choose(WORK, 2) ? "-w" : "-h"); a.push_back(std::to_string(choose(WORK, 300))); break;
    case 9: a.push_back(choose(WORK, 2) ? "-h" : "--bwidth"); a.push_back("wide"); break;
    case 10: a[n - 1] = S + "out/all.tif"; break;
    case 11: a[n - 1] = S + "out/%f-%n.tif"; break;
    default: a[n - 3] = a[n - 1] = S + "out/%n.tif";
  }
  stat("refused.command-line"); note("%s", WHAT[k]);
  j.cfg.may_refuse = true;
  job::no_failure(j.cfg);
  arm_preemption();
  simmpi::Result r = simmpi::run_job(j.cfg);
  disarm_preemption();
  if (r.end != simmpi::SUCCESS) fail("failed-run", "%s: rank %d: %s", WHAT[k], r.rank, r.why.c_str());
  if (!r.rank0_refused) fail("not-refused", "%s: the run does not report an error", WHAT[k]);
  for (auto d : {"out", "ret"}) for (auto &f : files_in(S + d)) fail("output-of-refused-run", "%s: the run was refused but wrote %s/%s", WHAT[k], d, f.c_str());
}
// Input the programs cannot take: the run ends, and does not report success.
static void hopeless(job::Job &j) {
  auto &a = j.cfg.args; size_t n = a.size();
  const std::string S = sim::scratch + "/";
  std::vector<std::string> in;
  for (auto &t : j.tile) if (!t.null) in.push_back(t.in);
  int k = choose(WORK, 6);
  if (!j.many && (k == 2 || k == 3 || k == 5)) k = k == 2 ? 0 : 1;
  if (k == 3 && in.size() < 2) k = 1;
  if (k == 5 && j.rows < 2) k = 1;
  const std::string victim = in[choose(WORK, in.size())];
  static const char *WHAT[] = {"no such input", "an input file is absent", "empty layout", "tiles of different sizes", "complex numbers", "ragged layout"};
  double gt[6] = {0, 1, 0, 0, 0, -1};
  switch (k) {
    case 0: a[n - 2] = S + "in/nothing.layout"; break;
    case 1: unlink(victim.c_str()); break;
    case 2: { int fd = ::open(j.layout.c_str(), O_TRUNC | O_WRONLY); ::close(fd); break; }
    case 3: job::put_tif(victim, j.tile[0].w + 1, j.tile[0].h, j.type, j.nodata, gt, j.proj, std::vector<double>((j.tile[0].w + 1) * j.tile[0].h, 1)); break;
    case 4: for (auto &f : in) {
      int w = j.many ? j.tile[0].w : j.W, h = j.many ? j.tile[0].h : j.H;
      job::put_tif(f, w, h, GDT_CFloat32, j.nodata, gt, j.proj, std::vector<double>(w * h, 1)); } break;
    default: { int fd = ::open(j.layout.c_str(), O_APPEND | O_WRONLY); std::string row = ",,"; for (int i = 0; i < j.cols; i++) row += ","; row += "\n"; if (::write(fd, row.data(), row.size()) < 0) {} ::close(fd); }
  }
  stat("refused.input"); note("%s", WHAT[k]);
  arm_preemption();
  simmpi::Result r = simmpi::run_job(j.cfg);
  disarm_preemption();
  if (r.end == simmpi::SUCCESS) fail("not-refused", "%s: the run reports success", WHAT[k]);
}
static void run() {
  job::quiet_world();
  job::Job j = job::draw(choose(WORK, 2) ? job::PF : job::D8);
  job::put_inputs(j);
  int special = choose(WORK, 12);
  if (special == 10) return refused(j);
  if (special == 11) return hopeless(j);
  job::no_failure(j.cfg);
  arm_preemption();
  simmpi::Result r = simmpi::run_job(j.cfg);
  disarm_preemption();
  if (r.end != simmpi::SUCCESS) fail("failed-run", "rank %d: %s", r.rank, r.why.c_str());
  state_hash(job::check_outputs(j, "after the run"));
}
Harness g_harnesses[] = {{"C03", run, init}, {nullptr, nullptr, nullptr}};
