// C15: tile layout files round-trip exactly, or reading or writing them fails.
#include <richdem/richdem.hpp>
#include "common.hpp"
#include <richdem/common/Layoutfile.hpp>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace hz;
using namespace richdem;

struct Lay { int rows = 0, cols = 0; std::vector<std::string> name; };   // "" is a missing tile

static std::string tile_name(int k) {
  static const char *E[] = {".tif", "", ".tar.gz", ".TIF", ".d8"};
  static const char *P[] = {"t", "tile ", "a.b-", "N12_W", "0x", "\xc3\xa9t"};
  std::string s = P[choose(WORK, 6)] + std::to_string(k);
  if (choose(WORK, 20) == 19) s += std::string(1 + choose(WORK, 200), 'q');
  return s + E[choose(WORK, 5)];
}
static std::string base_of(std::string f) {             // "x/y.z" -> "y"
  size_t s = f.rfind('/'); if (s != std::string::npos) f = f.substr(s + 1);
  size_t p = f.rfind('.'); if (p != std::string::npos) f = f.substr(0, p);
  return f;
}
static void match(const char *when, const Lay &l, LayoutfileReader &r, const std::string &dir) {
  for (int y = 0; y < l.rows; y++)
    for (int x = 0; x < l.cols; x++) {
      if (!r.next()) fail("short-grid", "%s: the grid ends before row %d column %d of %dx%d", when, y, x, l.rows, l.cols);
      const std::string &want = l.name[y * l.cols + x];
      if (r.getX() != x || r.getY() != y) fail("wrong-place", "%s: entry (%d,%d) expected, the reader says (%d,%d)", when, x, y, r.getX(), r.getY());
      if (r.newRow() != (x == 0)) fail("wrong-row-start", "%s: newRow() is %d at column %d", when, (int)r.newRow(), x);
      if (r.isNullTile() != want.empty()) fail("wrong-missing-tile", "%s: (%d,%d) %s", when, x, y, want.empty() ? "is a missing tile but the reader names one" : "names a tile but the reader says it is missing");
      if (r.getFilename() != want) fail("wrong-name", "%s: (%d,%d) is '%s' instead of '%s'", when, x, y, r.getFilename().c_str(), want.c_str());
      if (r.getBasename() != base_of(want)) fail("wrong-basename", "%s: base name of '%s' is '%s'", when, want.c_str(), r.getBasename().c_str());
      if (r.getFullPath() != dir + want) fail("wrong-path", "%s: path '%s' instead of '%s'", when, r.getFullPath().c_str(), (dir + want).c_str());
      if (r.getPath() != dir) fail("wrong-path", "%s: layout path '%s' instead of '%s'", when, r.getPath().c_str(), dir.c_str());
      if (r.getGridLocName() != std::to_string(x) + "_" + std::to_string(y)) fail("wrong-place", "%s: location name %s at (%d,%d)", when, r.getGridLocName().c_str(), x, y);
      stat("entries");
    }
  if (r.next()) fail("long-grid", "%s: the grid has more than %dx%d entries", when, l.rows, l.cols);
}
static void run() {
  mkdir(sim::scratch.c_str(), 0777);
  static const uint32_t K[] = {0, F_OPEN, F_READ_EIO, F_WRITE_EIO, F_WRITE_ENOSPC, F_CLOSE, F_FLUSH, ~0u};
  io.kinds = K[choose(FAULT, 8)] | (choose(FAULT, 2) ? (uint32_t)(F_READ_SHORT | F_WRITE_SHORT | F_EINTR) : 0u);
  static const uint32_t M[] = {0, 2, 3, 6, 12};
  io.mean = M[choose(FAULT, 5)]; io.left = 1 + choose(FAULT, 4);
  uint64_t budget = choose(FAULT, 4) == 3 ? choose(FAULT, 3000) : ~0ull;
  uint64_t h = 7;
  int cycles = 1 + choose(WORK, 4);
  for (int c = 0; c < cycles; c++) {
    Lay l; l.rows = 1 + choose(WORK, 5); l.cols = 1 + choose(WORK, 6);
    if (choose(WORK, 12) == 11) l.rows = 20 + choose(WORK, 30), l.cols = 10 + choose(WORK, 20);
    bool user = choose(WORK, 6) == 5;                   // formatted by hand, with padding and ragged ends
    int holes = choose(WORK, 4);                        // 0: no missing tiles ... 3: mostly missing
    int nullrow = choose(WORK, 4) == 3 ? (int)choose(WORK, l.rows) : -1, nullcol = choose(WORK, 4) == 3 ? (int)choose(WORK, l.cols) : -1;
    if (nullcol >= 0 && choose(WORK, 2)) nullcol = l.cols - 1;
    std::vector<std::string> given;
    for (int y = 0; y < l.rows; y++) for (int x = 0; x < l.cols; x++) {
      bool null = y == nullrow || x == nullcol || (int)choose(WORK, 4) < holes;
      std::string n = null ? "" : tile_name(y * l.cols + x), g = n;
      if (user && !null && choose(WORK, 8) == 7) n = (choose(WORK, 2) ? "sub.dir/" : "a/b/") + n;   // below the layout file
      if (!null && choose(WORK, 3) == 2) g = (choose(WORK, 2) ? "some/where.d/" : "/") + n;   // the writer drops the path
      l.name.push_back(n); given.push_back(g);
    }
    static const char *D[] = {"", "plain/", "with.period/", "two/deep.er/"};
    std::string dir = sim::scratch + "/" + D[choose(WORK, 4)];
    for (size_t p = sim::scratch.size() + 1; (p = dir.find('/', p)) != std::string::npos; p++) mkdir(dir.substr(0, p).c_str(), 0777);
    static const char *F[][2] = {{"a.layout", "a.layout"}, {"a", "a"}, {"a.b.txt", "a.b.layout"}, {"out-layout.tif", "out-layout.layout"}};
    int fn = choose(WORK, 4);
    std::string given_name = dir + F[fn][0], name = dir + F[fn][1];
    bool closed = choose(WORK, 4) != 3, first_row = choose(WORK, 2);
    io.disk_budget = budget;
    event("layout %dx%d user %d closed %d", l.rows, l.cols, user, closed);
    bool written = false;
    if (user) {
      // A blank at the end of a row may be left out, unless no row would be of full length.
      // A row shorter than that: there is no such grid.
      bool spoilt = l.cols > 2 && l.rows > 1 && choose(WORK, 6) == 5;
      int bad_row = spoilt ? (int)choose(WORK, l.rows) : -1, bad_len = spoilt ? 1 + (int)choose(WORK, l.cols - 2) : 0;
      int full = spoilt ? (bad_row + 1) % l.rows : (int)choose(WORK, l.rows);
      std::string t;
      for (int y = 0; y < l.rows; y++) {
        int cols = y == bad_row ? bad_len : l.cols;
        for (int x = 0; x < cols; x++) {
          std::string n = l.name[y * l.cols + x];
          if (y == bad_row && n.empty()) n = "x";
          std::string e = std::string(choose(WORK, 3), ' ') + n + std::string(choose(WORK, 3), ' ');
          if (x < cols - 1) t += e + ",";
          else if (!n.empty()) t += e;
          else if (y == full || l.cols == 1 || choose(WORK, 2)) t += " ";
          else stat("blank-left-out");
        }
        if (y < l.rows - 1 || choose(WORK, 4)) t += "\n";
      }
      int fd = ::open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
      if (fd < 0 || ::write(fd, t.data(), t.size()) != (ssize_t)t.size()) fail("internal", "cannot write the scratch file");
      ::close(fd); written = true; stat("hand-written");
      if (spoilt) {
        bool threw = false;
        try { LayoutfileReader r(name); } catch (const std::exception &) { threw = true; }
        if (!threw) fail("ragged-accepted", "a layout whose row %d has %d entries where others have %d was read", bad_row, bad_len, l.cols);
        stat("ragged-refused"); continue;
      }
    } else {
      io_arm();
      try {
        LayoutfileWriter w(given_name);
        for (int y = 0; y < l.rows; y++) {
          if (y || first_row) w.addRow();
          for (int x = 0; x < l.cols; x++) w.addEntry(given[y * l.cols + x]);
        }
        if (closed) { w.close(); written = true; }
      } catch (const std::exception &e) {
        event("writing refused"); note("%s", e.what());
        if (!io_faults_fired()) fail("refused", "writing a layout failed although no file operation did: %s", e.what());
        stat("write-refused-after-fault"); h = h * 31 + 1;
      }
      uint64_t fired = io_faults_fired();
      io_disarm();
      if (!closed && !fired) written = true;            // finished by the destructor
      if (written) stat("written");
    }
    if (!written) continue;
    // The disk is sound: the grid must be there.
    try { LayoutfileReader r(name); match("read back", l, r, dir); stat("read-back"); }
    catch (const std::exception &e) { fail("unreadable", "a layout of %dx%d written without an error cannot be read: %s", l.rows, l.cols, e.what()); }
    // Under faults: the right grid or an error.
    for (int k = choose(WORK, 3); k >= 0; k--) {
      io.left = io.left ? io.left : choose(FAULT, 3);
      io_arm();
      try {
        LayoutfileReader r(name);
        io_disarm();
        match("read back under faults", l, r, dir); stat("read-back-under-faults");
        h = h * 31 + 2;
      } catch (const std::exception &e) {
        uint64_t fired = io_faults_fired();
        io_disarm();
        event("reading refused"); note("%s", e.what());
        if (!fired) fail("refused", "reading a layout failed although no file operation did: %s", e.what());
        stat("read-refused-after-fault"); h = h * 31 + 3;
      }
    }
  }
  state_hash(h);
}
Harness g_harnesses[] = {{"C15", run, nullptr}, {nullptr, nullptr, nullptr}};
