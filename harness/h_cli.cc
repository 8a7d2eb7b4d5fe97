// C01-C04: the command line tools, run as the real programs in scratch
// directories.
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <map>
#include <set>
#include <sstream>

#include "absl/strings/str_format.h"
#include "absl/time/time.h"
#include "base/history.h"
#include "base/side_input.h"
#include "common.h"
#include "eval/eval.h"
#include "logging/csv_logger.h"
#include "traders/trader_factory.h"
#include "util/proto.h"

using namespace vt;

namespace {
struct ScratchDir {
  std::string path;
  ScratchDir() {
    char t[] = "/tmp/mccli.XXXXXX";
    const char* p = mkdtemp(t);
    if (p == nullptr) throw mc::Divergence{"mkdtemp"};
    path = p;
  }
  ~ScratchDir() {
    DIR* d = opendir(path.c_str());
    if (d) {
      while (dirent* e = readdir(d))
        if (e->d_name[0] != '.') unlink((path + "/" + e->d_name).c_str());
      closedir(d);
    }
    rmdir(path.c_str());
  }
  std::string operator/(const char* f) const { return path + "/" + f; }
};
void Spill(const std::string& path, const std::string& data) {
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o << data;
}
std::string Slurp(const std::string& path) {
  std::ifstream i(path, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
bool Exists(const std::string& path) {
  struct stat st;
  return stat(path.c_str(), &st) == 0;
}
// Runs a tool. Returns its exit status (128 + signal if it was killed).
int Tool(Run& r, const ScratchDir& d, const char* name, const std::vector<std::string>& args,
         std::string* out = nullptr) {
  static const std::string dir = getenv("MC_BIN_DIR") ? getenv("MC_BIN_DIR") : ".";
  const std::string bin = dir + "/" + name, log = d / "out.txt";
  std::vector<char*> argv;
  argv.push_back(const_cast<char*>(bin.c_str()));
  for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
  argv.push_back(nullptr);
  // The local time zone of the process must not matter.
  static std::string sanitizers[] = {"ASAN_OPTIONS=", "UBSAN_OPTIONS="};
  static const bool once = [] {
    for (auto& o : sanitizers)
      if (const char* v = getenv(o.substr(0, o.size() - 1).c_str())) o += v;
    return true;
  }();
  (void)once;
  char* env[] = {const_cast<char*>("PATH=/usr/bin:/bin"), const_cast<char*>("TZ=America/New_York"),
                 const_cast<char*>("MALLOC_PERTURB_=90"),
                 const_cast<char*>(sanitizers[0].c_str()), const_cast<char*>(sanitizers[1].c_str()), nullptr};
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_adddup2(&fa, 1, 2);
  pid_t pid = -1;
  const int rc = posix_spawn(&pid, bin.c_str(), &fa, nullptr, argv.data(), env);
  posix_spawn_file_actions_destroy(&fa);
  if (rc != 0) throw mc::Divergence{"cannot start " + bin};
  int status = 0;
  if (waitpid(pid, &status, 0) != pid) throw mc::Divergence{"waitpid"};
  r.step();
  if (out) *out = Slurp(log);
  if (r.verbose()) {
    std::string cmd = name;
    for (auto& a : args) cmd += " " + a.substr(0, a.find(d.path)) +
                                (a.find(d.path) == std::string::npos
                                     ? ""
                                     : a.substr(a.find(d.path) + d.path.size() + 1));
    r.say("%s", cmd.c_str());
  }
  // The sanitizers' exit status, and the crashes: never an answer of a tool.
  if (WIFSIGNALED(status) || WEXITSTATUS(status) == 99) {
    if (getenv("MC_SAFETY") != nullptr) {
      std::fprintf(stderr, "%s", Slurp(log).substr(0, 3000).c_str());
      _exit(99);
    }
  }
  return WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
}
// Leaves an older, longer file at an output path.
void Stale(const std::string& file) { std::ofstream(file) << std::string(100000, 'x') << "\n"; }
// The records of a file (none if it does not exist).
template <typename T>
std::vector<T> Load(Run& r, const std::string& file) {
  std::vector<T> v;
  if (!Exists(file)) return v;
  if (!ReadDelimitedMessagesFromFile(file, v).ok()) r.fail("the written file cannot be read");
  return v;
}
template <typename T>
void Store(const std::string& file, const std::vector<T>& v, bool compress = true) {
  if (!WriteDelimitedMessagesToFile(v.begin(), v.end(), file, compress).ok())
    throw mc::Divergence{"cannot write the input"};
}
template <typename T>
void Expect(Run& r, const std::vector<T>& got, const std::vector<T>& want, const char* what) {
  if (got.size() != want.size())
    r.fail("%s: %zu records written, expected %zu", what, got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
    if (got[i].SerializeAsString() != want[i].SerializeAsString())
      r.fail("%s: record %zu is {%s}, expected {%s}", what, i, got[i].ShortDebugString().c_str(),
             want[i].ShortDebugString().c_str());
}
std::string Time(int64_t t) {
  return absl::FormatTime("%Y-%m-%d %H:%M:%S", absl::FromUnixSeconds(t), absl::UTCTimeZone());
}
std::string Num(int64_t x) { return std::to_string(x); }

// 2017-06-01 00:00:00
const int64_t kT = 1496275200;

// Time windows used by the import spaces. Lines are generated around them.
struct Window {
  int64_t start, end;  // 0: none
};
const Window kWindows[] = {{1483228800, 1609459200}, {0, 0}, {kT + 60, kT + 180}, {kT, 0}, {0, kT + 180}};
// The window, moved together with the times.
Window Moved(Window w, int64_t base) {
  if (w.start) w.start += base - kT;
  if (w.end) w.end += base - kT;
  return w;
}
std::vector<std::string> WindowFlags(const Window& w) {
  return {"--start_time=" + Time(w.start), "--end_time=" + Time(w.end)};
}

// ------------------------------------------------------------- C01: prices
// One line of an input file and what it means.
enum Verdict { kGood, kBad };
struct Line {
  std::string text;
  int64_t t = 0;
  Verdict verdict = kGood;
  std::vector<double> v;
  bool has_time = true;
};
std::string Fmt(const std::vector<double>& v, const char* sep = ",") {
  std::string s;
  for (double x : v) {
    char b[64];
    std::snprintf(b, sizeof b, "%.9g", x);
    s += sep;
    s += b;
  }
  return s;
}
Line Good(int64_t t, const std::vector<double>& v) {
  Line l;
  l.t = t;
  l.v = v;
  l.text = Num(t) + Fmt(v);
  return l;
}
// A line with a time but missing or wrong columns.
Line BadLine(int64_t t, const std::string& rest) {
  Line l;
  l.t = t;
  l.text = Num(t) + rest;
  l.verdict = kBad;
  return l;
}
Line NoTime(const std::string& text) {
  Line l;
  l.text = text;
  l.has_time = false;
  l.verdict = kBad;
  return l;
}
constexpr int kPriceKinds = 32;
// Line i of a file; prev is the time of the previous line.
Line PriceLine(int kind, int i, int64_t prev) {
  const int64_t t = prev + 60;
  const double p = 10 + 3 * i + 0.25, v = 1.5 + i;
  switch (kind) {
    case 0: return Good(t, {p, v});
    case 1: return Good(prev, {p, v});         // same time again
    case 2: return Good(t, {p, 0});            // zero volume
    case 3: {                                  // scientific notation, CRLF
      Line l = Good(t, {p * 100, v});
      char b[64];
      std::snprintf(b, sizeof b, "%lld,%.6e,%.3e\r", (long long)t, p * 100, v);
      l.text = b;
      return l;
    }
    case 4: return BadLine(prev - 1, Fmt({p, v}));  // earlier than the line before
    case 5: return BadLine(t, "");
    case 6: return BadLine(t, ",");
    case 7: return BadLine(t, ",,");
    case 8: return BadLine(t, Fmt({p}));
    case 9: return BadLine(t, Fmt({p}) + ",");
    case 10: return BadLine(t, "," + Fmt({v}));
    case 11: return BadLine(t, ",abc" + Fmt({v}));
    case 12: return BadLine(t, Fmt({p}) + ",abc");
    case 13: return BadLine(t, Fmt({0, v}));
    case 14: return BadLine(t, Fmt({-p, v}));
    case 15: return BadLine(t, Fmt({p, -v}));
    case 16: return BadLine(t, Fmt({p}, ";") + Fmt({v}, ";"));
    case 17: return NoTime("");
    case 18: return NoTime("timestamp,price,volume");
    case 19: return NoTime(Fmt({p, v}));
    case 20: return NoTime("0" + Fmt({p, v}));
    case 21: return NoTime("-60" + Fmt({p, v}));
    case 22: return NoTime("x" + Num(t) + Fmt({p, v}));
    case 23: return Good(t + 3600, {p, v});
    case 24: return BadLine(t, ",nan" + Fmt({v}));
    case 25: return BadLine(t, ",inf" + Fmt({v}));
    case 26: return BadLine(t, ",1e99" + Fmt({v}));
    case 27: return BadLine(t, ",-inf" + Fmt({v}));
    case 28: return BadLine(t, Fmt({p}) + ",nan");
    case 29: return BadLine(t, Fmt({p}) + ",inf");
    case 30: return BadLine(t, Fmt({p}) + ",-inf");
    default: return Good(t, {0.0001220703125, 1048576.5});
  }
}
constexpr int kOhlcKinds = 39;
Line OhlcLine(int kind, int i, int64_t prev) {
  const int64_t t = prev + 60;
  const double o = 10 + 3 * i, h = o + 2.5, l = o - 1.25, c = o + 0.5, v = 1.5 + i;
  switch (kind) {
    case 0: return Good(t, {o, h, l, c, v});
    case 1: return Good(prev, {o, h, l, c, v});
    case 2: return Good(t, {o, o, o, o, 0});  // flat
    case 3: return Good(t, {h, h, l, l, v});  // open = high, low = close
    case 4: return Good(t, {l, h, l, h, v});
    case 5: return BadLine(prev - 1, Fmt({o, h, l, c, v}));
    case 6: return BadLine(t, "");
    case 7: return BadLine(t, Fmt({o}));
    case 8: return BadLine(t, Fmt({o, h}));
    case 9: return BadLine(t, Fmt({o, h, l}));
    case 10: return BadLine(t, Fmt({o, h, l, c}));
    case 11: return BadLine(t, Fmt({o, h, l, c}) + ",");
    case 12: return BadLine(t, Fmt({o, h, l}) + "," + Fmt({v}));
    case 13: return BadLine(t, Fmt({o}) + ",abc" + Fmt({l, c, v}));
    case 14: return BadLine(t, Fmt({0, h, l, c, v}));
    case 15: return BadLine(t, Fmt({o, h, 0, c, v}));
    case 16: return BadLine(t, Fmt({-o, -l, -h, -c, v}));
    case 17: return BadLine(t, Fmt({o, h, -l, c, v}));
    case 18: return BadLine(t, Fmt({l - 0.125, h, l, c, v}));  // open below low
    case 19: return BadLine(t, Fmt({h + 0.125, h, l, c, v}));  // open above high
    case 20: return BadLine(t, Fmt({o, h, l, l - 0.125, v}));  // close below low
    case 21: return BadLine(t, Fmt({o, h, l, h + 0.125, v}));  // close above high
    case 22: return BadLine(t, Fmt({o, l, h, c, v}));          // high and low exchanged
    case 23: return BadLine(t, Fmt({o, h, l, c, -v}));
    case 24: return NoTime("");
    case 25: return NoTime("timestamp,open,high,low,close,volume");
    case 26: return NoTime("0" + Fmt({o, h, l, c, v}));
    case 27: return NoTime("-1" + Fmt({o, h, l, c, v}));
    case 28: return BadLine(t, Fmt({o, h, l, c}) + ",x");
    case 29: return Good(t + 3600, {o, h, l, c, v});
    case 30: return BadLine(t, ",nan" + Fmt({h, l, c, v}));
    case 31: return BadLine(t, Fmt({o}) + ",nan" + Fmt({l, c, v}));
    case 32: return BadLine(t, Fmt({o}) + ",inf" + Fmt({l, c, v}));
    case 33: return BadLine(t, Fmt({o, h}) + ",nan" + Fmt({c, v}));
    case 34: return BadLine(t, Fmt({o, h, l}) + ",nan" + Fmt({v}));
    case 35: return BadLine(t, Fmt({o, h, l, c}) + ",nan");
    case 36: return BadLine(t, Fmt({o, h, l, c}) + ",inf");
    case 37: return BadLine(t, Fmt({o, h}) + ",-inf" + Fmt({c, v}));
    default: return Good(t, {0.0001220703125, 4096.5, 0.0001220703125, 0.5, 1048576.5});
  }
}
constexpr int kSideKinds = 27;
Line SideLine(int kind, int i, int64_t prev) {
  const int64_t t = prev + 60;
  const double a = 1.5 + i, b = -2.25 * i;
  switch (kind) {
    case 0: return Good(t, {a, b});
    case 1: return Good(t, {0, -a});
    case 2: {
      Line l = Good(t, {a, b});
      l.text = Num(t) + Fmt({a}, " ") + Fmt({b}, ", ");  // blanks
      return l;
    }
    case 3: return Good(t + 3600, {b, a});
    case 4: return Good(t, {1048576.5, 0.0001220703125});
    case 5: return BadLine(prev, Fmt({a, b}));      // same time again
    case 6: return BadLine(prev - 1, Fmt({a, b}));  // earlier
    case 7: return BadLine(t, "");
    case 8: return BadLine(t, ",");
    case 9: return BadLine(t, Fmt({a}));        // too few signals
    case 10: return BadLine(t, Fmt({a, b, a}));  // too many
    case 11: return BadLine(t, ",abc");
    case 12: return BadLine(t, ",abc" + Fmt({a, b}));
    case 13: return BadLine(t, Fmt({a}) + ",abc");
    case 14: return NoTime("");
    case 15: return NoTime("timestamp,first,second");
    case 16: return NoTime(Fmt({a, b}).substr(1) + "x");  // handled below
    case 17: return NoTime("abc" + Fmt({a, b}));
    case 18: return NoTime(" ");
    case 19: return NoTime(",,");
    case 20: return BadLine(t, ".5" + Fmt({b}));           // not a whole second
    case 21: return BadLine(t, ".0" + Fmt({a, b}));
    case 22: return BadLine(t, Fmt({a, b}) + ",abc");      // text after the signals
    case 23: return BadLine(t, Fmt({a}) + "," + Num(i) + "x");
    case 24: return BadLine(t, Fmt({a, b}) + ",nan");
    case 25: return BadLine(t, Fmt({a}) + ";2.5");
    default: return Good(t, {a, a});
  }
}

void SetPrice(const Line& l, PriceRecord* p) {
  p->set_timestamp_sec(l.t);
  p->set_price((float)l.v[0]);
  p->set_volume((float)l.v[1]);
}
void SetOhlc(const Line& l, OhlcTick* k) {
  k->set_timestamp_sec(l.t);
  k->set_open((float)l.v[0]);
  k->set_high((float)l.v[1]);
  k->set_low((float)l.v[2]);
  k->set_close((float)l.v[3]);
  k->set_volume((float)l.v[4]);
}
void SetSide(const Line& l, SideInputRecord* s) {
  s->set_timestamp_sec(l.t);
  for (double x : l.v) s->add_signal((float)x);
}

enum What { kPrice, kOhlc, kSide };
const char* const kWhat[] = {"price", "ohlc", "side"};

// Runs the import of the lines and compares with the specification.
template <typename T>
void CheckImport(Run& r, What what, const std::vector<Line>& lines, const Window& w,
                 bool newline_at_end, bool preexisting, void (*set)(const Line&, T*)) {
  ScratchDir d;
  std::string text;
  std::vector<T> want;
  bool bad = false, over = false;
  for (size_t i = 0; i < lines.size(); ++i) {
    const Line& l = lines[i];
    text += l.text;
    if (i + 1 < lines.size() || newline_at_end) text += "\n";
    if (bad || over) continue;
    if (!l.has_time) {
      // Without a time: no record. Rejected at least without a start time; side
      // inputs reject such lines always.
      if (what == kSide || w.start == 0) bad = true;
      continue;
    }
    if (w.start > 0 && l.t < w.start) continue;
    if (w.end > 0 && l.t >= w.end) {
      over = true;
      continue;
    }
    if (l.verdict == kBad) {
      bad = true;
      continue;
    }
    want.emplace_back();
    set(l, &want.back());
  }
  Spill(d / "in.csv", text);
  const std::string out = d / "out.dpb";
  const std::string sentinel = "previous contents";
  if (preexisting) Spill(out, sentinel);
  std::vector<std::string> args = WindowFlags(w);
  args.push_back(std::string("--input_") + kWhat[what] + "_history_csv_file=" + (d / "in.csv"));
  args.push_back(std::string("--output_") + kWhat[what] + "_history_delimited_proto_file=" + out);
  std::string log;
  const int rc = Tool(r, d, "convert", args, &log);
  r.say("file {%s}", text.c_str());
  r.state(mc::HashStr(text, w.start * 31 + w.end));
  r.cover(bad ? "rejected" : want.empty() ? "nothing in the window" : "imported");
  if (rc >= 128) r.fail("the import died of signal %d", rc - 128);
  if (bad) {
    if (rc == 0) r.fail("a file with an invalid line is accepted");
    if (preexisting ? Slurp(out) != sentinel : Exists(out)) r.fail("a failed import writes its output");
    return;
  }
  if (rc != 0) r.fail("a valid file is rejected: %s", log.substr(log.size() > 200 ? log.size() - 200 : 0).c_str());
  if (want.empty() && (!Exists(out) || Slurp(out) == sentinel)) return;
  Expect(r, Load<T>(r, out), want, kWhat[what]);
}
// Lines 0..n-1 with at most `dev` of other kinds than plain.
void GenLines(Run& r, What what, int n, int kinds, const Window& w, std::vector<Line>* lines, int64_t base = kT) {
  int64_t prev = base - 60;
  bool over = false, first = true, any = false;
  for (int i = 0; i < n; ++i) {
    Line l;
    int kind = r.deviate(kinds, "kind");
    auto make = [&](int k) {
      return what == kPrice ? PriceLine(k, i, prev) : what == kOhlc ? OhlcLine(k, i, prev) : SideLine(k, i, prev);
    };
    if (what == kSide && kind == 16) r.prune();
    l = make(kind);
    const bool outside = l.has_time && ((w.start > 0 && l.t < w.start) || (w.end > 0 && l.t >= w.end));
    // Unspecified: invalid lines outside of the window, lines that go back in
    // time across its borders, and a first line before the time 0 of the file.
    if (over && !(l.has_time && outside && l.verdict == kGood)) r.prune();
    if (l.verdict == kBad && outside) r.prune();
    if (first && l.has_time && l.t < base) r.prune();
    // The first line within the window sets the number of signals.
    if (what == kSide && !any && (kind == 9 || kind == 10)) r.prune();
    if (l.has_time && !outside) any = true;
    if (l.has_time && w.end > 0 && l.t >= w.end) over = true;
    if (l.has_time && l.verdict == kGood) {
      prev = l.t;
      first = false;
    }
    lines->push_back(l);
  }
}
template <typename T>
void Import(Run& r, What what, int kinds, void (*set)(const Line&, T*)) {
  const int w = r.choose(r.thorough() ? 5 : 3, "window");
  const bool deep = r.thorough() && w == 0;
  r.budget(deep ? 3 : 2);
  const int n = r.choose(r.thorough() && !deep ? 6 : r.thorough() || what == kSide ? 5 : 4, "lines");
  std::vector<Line> lines;
  GenLines(r, what, n, kinds, kWindows[w], &lines);
  CheckImport<T>(r, what, lines, kWindows[w], true, false, set);
}
// The same around times that do not fit into 31, 32 and 33 bits.
template <typename T>
void FarTimes(Run& r, What what, int kinds, void (*set)(const Line&, T*)) {
  const int64_t bases[] = {(1LL << 31) - 120, (1LL << 32) - 120, 1LL << 33};
  const int64_t base = bases[r.choose(3, "time")];
  const Window windows[] = {{0, 0}, {base + 60, base + 180}, {kT, 0}, {0, base + 180}};
  const Window w = windows[r.choose(4, "window")];
  r.budget(r.thorough() ? 2 : 1);
  std::vector<Line> lines;
  GenLines(r, what, r.choose(5, "lines"), kinds, w, &lines, base);
  CheckImport<T>(r, what, lines, w, true, false, set);
}
#define FAR_BOUND                                                                                       \
  "files of up to 4 lines from 2 minutes before 2^31 and 2^32 s and at 2^33 s with at most 1 (thorough 2) unusual lines, x 4 time windows"
MC_SPACE("C01", "far_price", FAR_BOUND,
         [](Run& r) { FarTimes<PriceRecord>(r, kPrice, kPriceKinds, SetPrice); }, false, 0, 60);
MC_SPACE("C01", "far_ohlc", FAR_BOUND,
         [](Run& r) { FarTimes<OhlcTick>(r, kOhlc, kOhlcKinds, SetOhlc); }, false, 0, 60);
MC_SPACE("C04", "far_side", FAR_BOUND,
         [](Run& r) { FarTimes<SideInputRecord>(r, kSide, kSideKinds, SetSide); }, false, 0, 60);
MC_SPACE("C01", "price",
         "files of up to 3 (thorough 5) lines with at most 2 (3 in files of up to 4 lines with one of the windows) of 31 unusual kinds (invalid or not finite in every column, missing columns, "
         "equal or earlier times, other notations) at all places, x 3 (5) time windows",
         [](Run& r) { Import<PriceRecord>(r, kPrice, kPriceKinds, SetPrice); }, false, 0, 60);
MC_SPACE("C01", "ohlc",
         "the same for OHLC files, with 38 unusual kinds of lines (invalid or not finite in every column, missing columns, inconsistent ranges, "
         "equal or earlier times)",
         [](Run& r) { Import<OhlcTick>(r, kOhlc, kOhlcKinds, SetOhlc); }, false, 0, 60);
MC_SPACE("C04", "side",
         "files of up to 4 (thorough 5) lines with at most 2 (3 in files of up to 4 lines with one of the windows) of 25 unusual kinds (no or another number of signals, text in all places, equal "
         "or earlier times, other separators) at all places, x 3 (5) time windows",
         [](Run& r) { Import<SideInputRecord>(r, kSide, kSideKinds, SetSide); }, false, 0, 60);

// All line kinds as the only special line of a long file, and file endings.
template <typename T>
void Long(Run& r, What what, int kinds, void (*set)(const Line&, T*)) {
  const int n = 1500;
  const int at[] = {0, 1, 749, 1498, 1499};
  const int place = at[r.choose(5, "place")];
  const int kind = r.choose(kinds, "kind");
  const bool newline = r.choose(2, "newline"), pre = r.choose(2, "old file");
  if (what == kSide && kind == 16) r.prune();
  std::vector<Line> lines;
  int64_t prev = kT - 60;
  for (int i = 0; i < n; ++i) {
    const int k = i == place ? kind : 0;
    const Line l = what == kPrice ? PriceLine(k, i % 1000, prev)
                   : what == kOhlc ? OhlcLine(k, i % 1000, prev)
                                   : SideLine(k, i % 1000, prev);
    if (i == 0 && l.has_time && l.t < kT && l.verdict == kBad) r.prune();
    if (i == 0 && l.t == kT - 60) r.prune();
    if (i == n - 1 && !newline && l.text.empty()) r.prune();  // not a line
    if (l.has_time && l.verdict == kGood) prev = l.t;
    lines.push_back(l);
  }
  // The number of signals of the first record is what the others must have.
  if (what == kSide && place == 0 && (kind == 9 || kind == 10)) r.prune();
  CheckImport<T>(r, what, lines, kWindows[r.choose(2, "window")], newline, pre, set);
}
MC_SPACE("C01", "long",
         "price and OHLC files of 1500 lines with one line of every kind at {first, second, middle, last but one, last}, with "
         "and without a final newline, over a missing or existing output file, x 2 time windows",
         [](Run& r) {
           if (r.choose(2, "history")) {
             Long<OhlcTick>(r, kOhlc, kOhlcKinds, SetOhlc);
           } else {
             Long<PriceRecord>(r, kPrice, kPriceKinds, SetPrice);
           }
         },
         false, 0, 60);
MC_SPACE("C04", "long",
         "files of 1500 lines with one line of every kind at {first, second, middle, last but one, last}, with and without a "
         "final newline, over a missing or existing output file, x 2 time windows",
         [](Run& r) { Long<SideInputRecord>(r, kSide, kSideKinds, SetSide); }, false, 0, 60);
MC_SPACE("C04", "signals",
         "all files of up to 3 lines with {0,1,2,3,5,100} signals each over values {0,-1.5,0.1,3e7}, x 2 time windows",
         [](Run& r) {
           const int counts[] = {1, 0, 2, 3, 5, 100};
           const double values[] = {0, -1.5, 0.1, 3e7};
           const int n = 1 + r.choose(3, "lines");
           std::vector<Line> lines;
           size_t first = 0;
           for (int i = 0; i < n; ++i) {
             const int c = counts[r.choose(6, "signals")];
             std::vector<double> v;
             for (int k = 0; k < c; ++k) v.push_back(values[(i + k) % 4]);
             Line l = Good(kT + 60 * i, v);
             if (i == 0) first = c;
             if (c == 0 || v.size() != first) l.verdict = kBad;
             lines.push_back(l);
           }
           CheckImport<SideInputRecord>(r, kSide, lines, kWindows[r.choose(2, "window")], true, false, SetSide);
         },
         false, 0, 60);
MC_SPACE("C04", "widths",
         "files of 1100 lines of 2 signals with one line, or all lines from one, of another number of signals (0, 1 or 3) in every place "
         "from the third on",
         [](Run& r) {
           const int place = 2 + r.choose(1098, "place");
           const int counts[] = {3, 1, 0};
           const int count = counts[place % 97 == 0 || place < 5 ? r.choose(3, "signals") : place % 2];
           const bool rest = r.choose(2, "rest");
           std::vector<Line> lines;
           for (int i = 0; i < 1100; ++i) {
             const bool bad = i == place || (rest && i > place);
             std::vector<double> v;
             for (int k = 0; k < (bad ? count : 2); ++k) v.push_back(k + 0.5);
             Line l = Good(kT + 60 * i, v);
             if (bad) l.verdict = kBad;
             lines.push_back(l);
           }
           r.state(mc::Mix(place, count * 2 + rest));
           CheckImport<SideInputRecord>(r, kSide, lines, kWindows[0], true, false, SetSide);
         },
         false, 0, 60);
// Where the records start, and numbers of the start and end times.
int64_t BorderChoice(Run& r, int* s, int* e) {
  const int64_t t0[] = {kT, 2147483648LL - 120, 4295000000LL};
  const int few[] = {0, 1, 2, 4, 6, 7, 13};
  const int k = r.choose(3, "epoch");
  *s = r.choose(k ? 7 : 15, "start");
  *e = r.choose(k ? 7 : 15, "end");
  if (k) *s = few[*s], *e = few[*e];
  return t0[k];
}
MC_SPACE("C04", "borders",
         "all start and end times around each of 6 records (before, at, after; none) in 2017, and around 4 of them around 2^31 and "
         "beyond 2^32",
         [](Run& r) {
           int s, e;
           const int64_t t0 = BorderChoice(r, &s, &e);
           Window w;
           auto at = [&](int k) -> int64_t {
             return k == 0 ? 0 : t0 + 60 * ((k - 1) / 2) - (k % 2);
           };
           w.start = at(s);
           w.end = at(e);
           std::vector<Line> lines;
           for (int i = 0; i < 6; ++i) lines.push_back(Good(t0 + 60 * i, {1.5 * i, -0.25 * i}));
           CheckImport<SideInputRecord>(r, kSide, lines, w, true, false, SetSide);
         },
         false, 0, 60);
MC_SPACE("C01", "values",
         "one price or OHLC record with every combination of time {1, 59, 2017, 2^31-1, 2^31, 2^33, 10^12}, price and volume from 9 "
         "spellings each (up to 5000 digits), no time window",
         [](Run& r) {
           const char* ts[] = {"1", "59", "1483228800", "2147483647", "2147483648", "8589934592", "1000000000000"};
           const std::string ps[] = {"1", "0.1", "12345.678", "1e-5", "3.4e30", "00012.50", " 7.25",
                                     "8.7500000000000000000000000000000000000000000000000000000000000000000000001",
                                     std::string(5000, '0') + "2.5"};
           Line l;
           const char* t = ts[r.choose(7, "time")];
           const std::string p = ps[r.choose(9, "price")], v = ps[r.choose(9, "volume")];
           const float pf = std::strtof(p.c_str(), nullptr), vf = std::strtof(v.c_str(), nullptr);
           l.t = std::strtoll(t, nullptr, 10);
           if (r.choose(2, "ohlc")) {
             l.v = {pf, pf, pf, pf, vf};
             l.text = std::string(t) + "," + p + "," + p + "," + p + "," + p + "," + v;
             CheckImport<OhlcTick>(r, kOhlc, {l}, kWindows[1], true, false, SetOhlc);
           } else {
             l.v = {pf, vf};
             l.text = std::string(t) + "," + p + "," + v;
             CheckImport<PriceRecord>(r, kPrice, {l}, kWindows[1], true, false, SetPrice);
           }
         },
         false, 0, 60);
MC_SPACE("C01", "borders",
         "all start and end times around each of 6 records (before, at, after; none) in 2017, and around 4 of them around 2^31 and "
         "beyond 2^32, for price and OHLC files and for delimited files",
         [](Run& r) {
           const int what = r.choose(2, "history");
           const bool proto = r.choose(2, "delimited input");
           int s, e;
           const int64_t t0 = BorderChoice(r, &s, &e);
           Window w;
           auto at = [&](int k) -> int64_t {
             return k == 0 ? 0 : t0 + 60 * ((k - 1) / 2) - (k % 2);
           };
           w.start = at(s);
           w.end = at(e);
           ScratchDir d;
           std::string text;
           std::vector<PriceRecord> pin, pout;
           std::vector<OhlcTick> oin, oout;
           for (int i = 0; i < 6; ++i) {
             const int64_t t = t0 + 60 * i;
             const Line l = what ? Good(t, {10. + i, 12. + i, 9. + i, 11. + i, 1. + i}) : Good(t, {10. + i, 1. + i});
             text += l.text + "\n";
             const bool in = (w.start == 0 || t >= w.start) && (w.end == 0 || t < w.end);
             if (what) {
               oin.emplace_back();
               SetOhlc(l, &oin.back());
               if (in) oout.push_back(oin.back());
             } else {
               pin.emplace_back();
               SetPrice(l, &pin.back());
               if (in) pout.push_back(pin.back());
             }
           }
           const std::string in = d / "in", out = d / "out";
           if (!proto) {
             Spill(in, text);
           } else if (what) {
             Store(in, oin);
           } else {
             Store(in, pin);
           }
           auto args = WindowFlags(w);
           args.push_back(std::string("--input_") + kWhat[what] + "_history_" + (proto ? "delimited_proto" : "csv") + "_file=" + in);
           args.push_back(std::string("--output_") + kWhat[what] + "_history_delimited_proto_file=" + out);
           const int rc = Tool(r, d, "convert", args);
           r.state(mc::Mix(s * 16 + e, what * 2 + proto));
           if (rc != 0) r.fail("exit status %d", rc);
           if (what) {
             Expect(r, Load<OhlcTick>(r, out), oout, "ohlc");
           } else {
             Expect(r, Load<PriceRecord>(r, out), pout, "price");
           }
         },
         false, 0, 60);

// ------------------------------------------------------------------- C02
struct Flags {
  double deviation;
  int rate;
};
std::string F(double x) { return absl::StrFormat("%.9g", x); }
// The lines that announce gaps.
std::set<std::string> GapLines(const std::vector<HistoryGap>& gaps) {
  std::set<std::string> s;
  for (auto& g : gaps) {
    const int64_t n = g.second - g.first;
    s.insert(absl::StrFormat("%d [%s] - %d [%s]: %d:%02d:%02d", g.first, Time(g.first), g.second, Time(g.second),
                             n / 3600, n / 60 % 60, n % 60));
  }
  return s;
}
std::vector<std::string> Lines(const std::string& log) {
  std::vector<std::string> v;
  std::istringstream is(log);
  std::string l;
  while (std::getline(is, l)) v.push_back(l);
  return v;
}
// The lines that show the last outliers with up to five neighbours on each
// side, in order.
std::vector<std::string> ListingLines(const std::vector<PriceRecord>& sel, const std::vector<size_t>& outliers, size_t last) {
  std::map<size_t, bool> shown;
  for (size_t k = last > 0 && outliers.size() > last ? outliers.size() - last : 0; k < outliers.size(); ++k) {
    const size_t i = outliers[k];
    for (size_t j = i - std::min<size_t>(i, 5); j <= i + 5 && j < sel.size(); ++j) shown[j] |= j == i;
  }
  std::vector<std::string> v;
  for (auto& x : shown) {
    const PriceRecord& p = sel[x.first];
    v.push_back(absl::StrFormat("%s %d [%s]: %.2f [%.4f]", x.second ? " x" : "  ", p.timestamp_sec(), Time(p.timestamp_sec()),
                                p.price(), p.volume()));
  }
  return v;
}
void CheckListing(Run& r, const std::string& log, const std::vector<PriceRecord>& sel, const std::vector<size_t>& outliers,
                  size_t last) {
  std::vector<std::string> got;
  for (auto& l : Lines(log))
    if (l.size() > 3 && (l.rfind(" x ", 0) == 0 || l.rfind("   ", 0) == 0) && std::isdigit((unsigned char)l[3])) got.push_back(l);
  const auto want = ListingLines(sel, outliers, last);
  for (size_t i = 0; i < got.size() && i < want.size(); ++i)
    if (got[i] != want[i]) r.fail("line %zu of the outliers is '%s', expected '%s'", i, got[i].c_str(), want[i].c_str());
  if (got.size() != want.size()) r.fail("%zu lines of outliers, expected %zu", got.size(), want.size());
}
void CheckGapListing(Run& r, const std::string& log, const std::vector<HistoryGap>& gaps) {
  std::vector<std::string> got, want;
  for (auto& l : Lines(log))
    if (l.find("] - ") != std::string::npos) got.push_back(l);
  int64_t shown = -1;
  for (auto& l : got) {
    const int64_t t = std::atoll(l.c_str());
    if (t < shown) r.fail("the gaps are not listed in the order of time");
    shown = t;
  }
  const auto all = GapLines(gaps);
  if (got.size() != gaps.size() || std::set<std::string>(got.begin(), got.end()) != all)
    r.fail("%zu gaps are listed, expected %zu", got.size(), gaps.size());
}
// What the tool shows about the gaps and outliers of a history.
void Shown(Run& r, bool gaps) {
  const int n = 2 + r.choose(3, "size");
  const int last = gaps ? 1 : r.choose(4, "last"), top = gaps ? r.choose(4, "top") : 1;
  const int steps = gaps ? 4 : 1;
  const int64_t dts[] = {45, 3600, 90061, 86399};
  std::vector<PriceRecord> in;
  const int64_t start = r.choose(2, "time") ? kT : (1LL << 32) - 90061;
  int64_t t = start;
  for (int k = 0; k < n; ++k) {
    const int outlier = gaps ? 0 : r.choose(5, "outlier");
    t += dts[steps > 1 ? r.choose(steps, "gap") : 0];
    for (int i = 0; i < (gaps ? 1 : 4); ++i, t += 45)
      in.push_back(Price(t, outlier == i + 1 ? (k % 2 ? 20.5f : 3.0f) : 10.25f + (i % 3) / 8.0f, 1 + i / 4.0f));
  }
  ScratchDir d;
  Store(d / "in", in);
  std::string log;
  std::vector<size_t> outliers;
  RemoveOutliers(in.begin(), in.end(), 0.05f, &outliers);
  const int rc = Tool(r, d, "convert",
                      {"--start_time=1970-01-01", "--end_time=2200-01-01", "--input_price_history_delimited_proto_file=" + (d / "in"),
                       "--output_ohlc_history_delimited_proto_file=" + (d / "out"), "--top_n_gaps=" + Num(top),
                       "--last_n_outliers=" + Num(last), "--sampling_rate_sec=86400"},
                      &log);
  if (rc != 0) r.fail("exit status %d", rc);
  uint64_t h = mc::Mix(last, top);
  for (auto& p : in) h = mc::Mix(mc::Mix(h, p.timestamp_sec()), mc::Bits((double)p.price()));
  r.state(h);
  if (gaps) CheckGapListing(r, log, GetPriceHistoryGaps(in.begin(), in.end(), 0, 0, top));
  else CheckListing(r, log, in, outliers, last);
}
MC_SPACE("H03", "listing",
         "histories of 2 to 4 records over steps of {45 s, an hour, a day, a day and an hour} around 2017 and 2^32 s, top_n {0..3}: the list that "
         "the tool prints", [](Run& r) { Shown(r, true); }, false, 0, 60);
MC_SPACE("H04", "listing",
         "histories of 2 to 4 groups of 4 records with at most one outlier each at all places, last_n {0..3}: the list that the tool prints",
         [](Run& r) { Shown(r, false); }, false, 0, 60);
MC_SPACE("C02", "pipeline",
         "histories of up to 4 (thorough 5) records over 5 steps of time and price (plain, same second, outlier, next period, long gap) x 3 cleaning "
         "and resampling settings x outputs {ohlc, both} x input {CSV, delimited} x 3 time windows; then both files are converted "
         "again; around 2017 and (up to 3 records, 1 deviation; thorough the same) 2^32 s (thorough also 2^31 s)",
         [](Run& r) {
           const Flags flags[] = {{0.05, 300}, {0.5, 60}, {0.01, 3600}};
           const Flags f = flags[r.choose(3, "settings")];
           const int64_t bases[] = {kT, (1LL << 32) - 120, (1LL << 31) - 120};
           const int64_t base = bases[r.choose(r.thorough() ? 3 : 2, "time")];
           const Window w = Moved(kWindows[r.choose(3, "window")], base);
           const bool csv = r.choose(2, "csv"), both = r.choose(2, "both"), compress = r.choose(2, "compress");
           const int n = 1 + r.choose(r.thorough() ? 5 : base == kT ? 4 : 3, "records");
           r.budget(r.thorough() ? 5 : base == kT ? 2 : 1);
           std::vector<PriceRecord> in, sel;
           std::string text;
           int64_t t = base + 30;
           double p = 10;
           for (int i = 0; i < n; ++i) {
             double q = p;
             switch (r.deviate(5, "step")) {
               case 0: t += 45; p *= 1.015625; q = p; break;
               case 1: p *= 0.9921875; q = p; break;
               case 2: t += 20; q = p * 2; break;
               case 3: t += 300; p *= 1.03125; q = p; break;
               default: t += 4000; p *= 1.25; q = p;
             }
             in.push_back(Price(t, (float)q, 1.0f + i));
             text += Num(t) + Fmt({(float)q, 1.0 + i}) + "\n";
             if ((w.start == 0 || t >= w.start) && (w.end == 0 || t < w.end)) sel.push_back(in.back());
           }
           ScratchDir d;
           auto args = WindowFlags(w);
           args.push_back("--max_price_deviation_per_min=" + F(f.deviation));
           args.push_back("--sampling_rate_sec=" + Num(f.rate));
           args.push_back(compress ? "--compress" : "--nocompress");
           if (csv) {
             Spill(d / "in", text);
             args.push_back("--input_price_history_csv_file=" + (d / "in"));
           } else {
             Store(d / "in", in, !compress);
             args.push_back("--input_price_history_delimited_proto_file=" + (d / "in"));
           }
           if (!sel.empty()) {
             Stale(d / "ohlc");
             if (both) Stale(d / "price");
           }
           args.push_back("--output_ohlc_history_delimited_proto_file=" + (d / "ohlc"));
           if (both) args.push_back("--output_price_history_delimited_proto_file=" + (d / "price"));
           std::string log;
           int rc = Tool(r, d, "convert", args, &log);
           r.state(mc::HashStr(text, mc::Mix(w.start + w.end, f.rate * 8 + csv * 4 + both * 2 + compress)));
           if (rc != 0) r.fail("exit status %d", rc);
           std::vector<size_t> outliers;
           const PriceHistory clean = RemoveOutliers(sel.begin(), sel.end(), (float)f.deviation, &outliers);
           const OhlcHistory want = Resample(clean.begin(), clean.end(), f.rate);
           r.cover(outliers.empty() ? "no outliers" : "outliers");
           Expect(r, Load<OhlcTick>(r, d / "ohlc"), want, "ohlc");
           if (both) Expect(r, Load<PriceRecord>(r, d / "price"), sel, "price");
           // Report of the gaps and outliers.
           if (!sel.empty()) {
             const auto gaps = GapLines(GetPriceHistoryGaps(sel.begin(), sel.end(), 0, 0, 50));
             std::set<std::string> got;
             std::multiset<int64_t> marked, removed;
             for (auto& l : Lines(log)) {
               if (l.find("] - ") != std::string::npos) got.insert(l);
               long long ts;
               if (l.rfind(" x ", 0) == 0 && std::sscanf(l.c_str(), " x %lld", &ts) == 1) marked.insert(ts);
             }
             for (size_t i : outliers) removed.insert(sel[i].timestamp_sec());
             if (got != gaps) r.fail("%zu gaps are listed, expected %zu", got.size(), gaps.size());
             if (marked != removed) r.fail("%zu outliers are listed, expected %zu", marked.size(), removed.size());
             CheckListing(r, log, sel, outliers, 20);
           }
           // Convert the written files again.
           if (both && !sel.empty()) {
             std::vector<std::string> a(args.begin(), args.begin() + 4);
             a.push_back("--input_price_history_delimited_proto_file=" + (d / "price"));
             a.push_back("--output_ohlc_history_delimited_proto_file=" + (d / "ohlc2"));
             a.push_back(compress ? "--nocompress" : "--compress");
             rc = Tool(r, d, "convert", a);
             if (rc != 0) r.fail("the written prices are rejected");
             Expect(r, Load<OhlcTick>(r, d / "ohlc2"), want, "ohlc from the written prices");
           }
         },
         false, 0, 60);
MC_SPACE("C02", "records",
         "delimited OHLC and price files of 3 records with one of 28 kinds of records (with a single defect) at each place, compressed or not, x 3 time "
         "windows, around 2017 and 2^32 s: valid ones pass through unchanged, others are rejected",
         [](Run& r) {
           const bool ohlc = r.choose(2, "ohlc"), compress = r.choose(2, "compress");
           const int place = r.choose(3, "place"), kind = r.choose(28, "kind");
           const int64_t base = r.choose(2, "time") ? (1LL << 32) - 60 : kT;
           const Window w = Moved(kWindows[r.choose(3, "window")], base);
           std::vector<OhlcTick> o, owant;
           std::vector<PriceRecord> p, pwant;
           bool bad = false;
           for (int i = 0; i < 3; ++i) {
             const int k = i == place ? kind : 0;
             int64_t t = base + 60 * i;
             float op = 10, h = 12, l = 9, c = 11, v = 1.0f + i, pr = 10.5f + i;
             bool b = true;
             switch (k) {
               case 0: b = false; break;
               case 1: op = h; pr = 1e-30f; b = false; break;
               case 2: c = l; pr = 3e38f; b = false; break;
               case 3: v = 0; b = false; break;
               case 4: op = h = l = c; b = false; break;
               // One defect at a time.
               case 5: op = 12.5f; pr = 0; break;
               case 6: op = 8.5f; pr = -1; break;
               case 7: c = 12.5f; pr = NAN; break;
               case 8: c = 8.5f; pr = -NAN; break;
               case 9: std::swap(h, l); pr = INFINITY; break;
               case 10: l = 0; pr = -INFINITY; break;
               case 11: l = -9; pr = -0.0f; break;
               case 12: l = NAN; pr = -1e-30f; break;
               case 13: l = -INFINITY; pr = -3e38f; break;
               case 14: h = INFINITY; pr = NAN; v = 0; break;
               case 15: h = NAN; pr = 0; v = 0; break;
               case 16: op = NAN; pr = -1; v = 0; break;
               case 17: c = -NAN; pr = INFINITY; v = 0; break;
               case 18: op = 0; pr = NAN; break;
               case 19: c = -1; pr = NAN; break;
               case 20: h = 0; pr = NAN; break;
               case 21: v = -1; break;
               case 22: v = NAN; break;
               case 23: v = INFINITY; break;
               case 24: v = -INFINITY; break;
               case 25: v = -1e-30f; break;
               case 26: if (i == 0) r.prune(); t = base + 60 * (i - 1) - 1; break;
               default: if (i == 0) r.prune(); t = base + 60 * (i - 1); b = false;
             }
             const bool in = (w.start == 0 || t >= w.start) && (w.end == 0 || t < w.end);
             if (b && !in) r.prune();
             o.push_back(Tick(t, op, h, l, c, v));
             p.push_back(Price(t, pr, v));
             bad = bad || b;
             if (in) {
               owant.push_back(o.back());
               pwant.push_back(p.back());
             }
           }
           ScratchDir d;
           auto args = WindowFlags(w);
           const std::string k = ohlc ? "ohlc" : "price";
           if (ohlc) Store(d / "in", o, compress); else Store(d / "in", p, compress);
           args.push_back("--input_" + k + "_history_delimited_proto_file=" + (d / "in"));
           args.push_back("--output_" + k + "_history_delimited_proto_file=" + (d / "out"));
           const int rc = Tool(r, d, "convert", args);
           r.state(mc::Mix(mc::Mix(place, kind), mc::Mix(w.start + w.end, ohlc * 2 + compress)));
           r.cover(bad ? "rejected" : "accepted");
           if (rc >= 128) r.fail("died of signal %d", rc - 128);
           if (bad != (rc != 0)) r.fail("exit status %d for %s file", rc, bad ? "an invalid" : "a valid");
           if (bad && Exists(d / "out")) r.fail("a failed conversion writes its output");
           if (bad) return;
           if (ohlc) Expect(r, Load<OhlcTick>(r, d / "out"), owant, "ohlc");
           else Expect(r, Load<PriceRecord>(r, d / "out"), pwant, "price");
         },
         false, 0, 60);
MC_SPACE("C02", "faults",
         "delimited files of 6 records cut at every byte (uncompressed: within a record; compressed: anywhere), with every byte replaced "
         "by its complement, missing, or not writable output: reported, and never converted to wrong records",
         [](Run& r) {
           std::vector<PriceRecord> in;
           for (int i = 0; i < 6; ++i) in.push_back(Price(kT + 60 * i, 10.0f + i, 1.0f + i));
           const int how = r.choose(4, "fault");
           const bool compress = r.choose(2, "compress");
           std::ostringstream os;
           if (!WriteDelimitedMessagesToOStream(in.begin(), in.end(), os, compress).ok()) r.fail("write");
           std::string data = os.str();
           const int pos = how < 2 ? r.choose((int)data.size(), "position") : 0;
           ScratchDir d;
           if (how == 0) data.resize(pos);
           if (how == 1) data[pos] = ~data[pos];
           if (how != 2) Spill(d / "in", data);
           const std::string out = how == 3 ? d / "no/out" : d / "out";
           const int rc = Tool(r, d, "convert",
                               {"--input_price_history_delimited_proto_file=" + (d / "in"),
                                "--output_price_history_delimited_proto_file=" + out});
           r.state(mc::Mix(how * 2 + compress, pos));
           if (rc >= 128) r.fail("died of signal %d", rc - 128);
           r.cover(rc == 0 ? "ok" : "reported");
           if (rc != 0) {
             if (Exists(out)) r.fail("a failed conversion writes its output");
             return;
           }
           if (how >= 2) r.fail("a %s file is not reported", how == 2 ? "missing input" : "not writable output");
           const auto got = Load<PriceRecord>(r, out);
           if (got.size() > in.size()) r.fail("%zu records", got.size());
           for (size_t i = 0; i < got.size(); ++i)
             if (got[i].SerializeAsString() != in[i].SerializeAsString()) r.fail("record %zu is wrong", i);
           if (how == 1 && got.size() != in.size()) {
             // The container may end early, as if it were cut there (see F03).
             std::vector<PriceRecord> v;
             std::istringstream is(data);
             if (!ReadDelimitedMessagesFromIStream(is, v).ok()) r.fail("a damaged file is not reported");
           }
         },
         false, 0, 60);
MC_SPACE("C02", "inputs",
         "every subset of the five input flags: exactly one input is required",
         [](Run& r) {
           const char* fl[] = {"input_price_history_csv_file", "input_price_history_delimited_proto_file",
                               "input_ohlc_history_csv_file", "input_ohlc_history_delimited_proto_file",
                               "input_side_history_csv_file"};
           ScratchDir d;
           Spill(d / "f0", Good(kT, {10, 1}).text + "\n");
           Store(d / "f1", std::vector<PriceRecord>{Price(kT, 10, 1)});
           Spill(d / "f2", Good(kT, {10, 12, 9, 11, 1}).text + "\n");
           Store(d / "f3", std::vector<OhlcTick>{Tick(kT, 10, 12, 9, 11, 1)});
           Spill(d / "f4", Good(kT, {10, 1}).text + "\n");
           std::vector<std::string> args;
           int n = 0;
           for (int i = 0; i < 5; ++i)
             if (r.choose(2, "given")) {
               args.push_back(std::string("--") + fl[i] + "=" + (d / ("f" + Num(i)).c_str()));
               ++n;
             }
           const char* out[] = {"price", "ohlc", "side"};
           for (auto* o : out)
             args.push_back(std::string("--output_") + o + "_history_delimited_proto_file=" + (d / o));
           const int rc = Tool(r, d, "convert", args);
           r.state(mc::HashStr(Num(n) + args[0].substr(0, 30)));
           if ((rc == 0) != (n == 1)) r.fail("exit status %d with %d inputs", rc, n);
           if (rc != 0 && (Exists(d / "price") || Exists(d / "ohlc") || Exists(d / "side")))
             r.fail("a failed conversion writes its output");
         },
         false, 0, 60, 8);
MC_SPACE("C02", "limits",
         "300 records with 60 gaps and 30 outliers: top_n_gaps {0,1,7,50,59,100} x last_n_outliers {0,1,20,100}",
         [](Run& r) {
           const int tops[] = {50, 0, 1, 7, 59, 100}, lasts[] = {20, 0, 1, 100};
           const int top = tops[r.choose(6, "gaps")], last = lasts[r.choose(4, "outliers")];
           std::vector<PriceRecord> in;
           int64_t t = kT;
           for (int i = 0; i < 300; ++i) {
             t += i % 5 == 4 ? 100 + i : 10;
             in.push_back(Price(t, i % 10 == 7 ? 20.0f : 10.0f, 1));
           }
           ScratchDir d;
           Store(d / "in", in);
           std::string log;
           const int rc = Tool(r, d, "convert",
                               {"--input_price_history_delimited_proto_file=" + (d / "in"),
                                "--output_ohlc_history_delimited_proto_file=" + (d / "out"),
                                "--top_n_gaps=" + Num(top), "--last_n_outliers=" + Num(last)},
                               &log);
           r.state(top * 1000 + last);
           if (rc != 0) r.fail("exit status %d", rc);
           std::vector<size_t> outliers;
           const auto clean = RemoveOutliers(in.begin(), in.end(), 0.05f, &outliers);
           Expect(r, Load<OhlcTick>(r, d / "out"), Resample(clean.begin(), clean.end(), 300), "ohlc");
           const auto gaps = GapLines(GetPriceHistoryGaps(in.begin(), in.end(), 0, 0, top));
           const auto all = GapLines(GetPriceHistoryGaps(in.begin(), in.end(), 0, 0, 1000));
           std::set<std::string> got;
           std::set<int64_t> marked, want;
           for (auto& l : Lines(log)) {
             if (l.find("] - ") != std::string::npos) got.insert(l);
             long long ts;
             if (l.rfind(" x ", 0) == 0 && std::sscanf(l.c_str(), " x %lld", &ts) == 1) marked.insert(ts);
           }
           for (size_t i = outliers.size() - std::min<size_t>(outliers.size(), last); i < outliers.size(); ++i)
             want.insert(in[outliers[i]].timestamp_sec());
           if (got != gaps) r.fail("%zu gaps are listed, expected %zu", got.size(), gaps.size());
           // All outliers within the context of the last ones may be marked too.
           for (int64_t x : want)
             if (!marked.count(x)) r.fail("the outlier at %lld is not listed", (long long)x);
           if (last > 0 && marked.size() != want.size()) r.fail("%zu outliers are listed, expected %zu", marked.size(), want.size());
           CheckListing(r, log, in, outliers, last);
           (void)all;
         },
         false, 0, 60, 8);

MC_SPACE("C02", "defaults",
         "all subsets of the 7 flags for the times, cleaning, sampling, listings and compression left at their documented defaults, the "
         "others at other values, over 300 records with 60 gaps and 30 outliers around the default start or end",
         [](Run& r) {
           int omit = 0;
           for (int i = 0; i < 7; ++i)
             if (r.choose(2, "flag")) omit |= 1 << i;
           const int64_t def_start = 1483228800, def_end = 1609459200;  // 2017-01-01, 2021-01-01
           const bool late = r.choose(2, "late"), csv = r.choose(2, "csv");
           std::vector<std::string> args;
           auto flag = [&](int i, auto def, auto other, const std::string& text) {
             if (omit >> i & 1) return def;
             args.push_back(text);
             return other;
           };
           Window w;
           w.start = flag(0, def_start, def_start + 900, "--start_time=2017-01-01 00:15:00");
           w.end = flag(1, def_end, def_end + 900, "--end_time=2021-01-01 00:15:00");
           const double deviation = flag(2, 0.05, 0.2, "--max_price_deviation_per_min=0.2");
           const int rate = flag(3, 300, 60, "--sampling_rate_sec=60");
           const int top = flag(4, 50, 40, "--top_n_gaps=40"), last = flag(5, 20, 10, "--last_n_outliers=10");
           const bool compress = flag(6, true, false, "--nocompress");
           std::vector<PriceRecord> in, sel;
           std::string text;
           int64_t t = (late ? def_end : def_start) - (late ? 15600 : 2000);
           for (int i = 0; i < 300; ++i) {
             // Jumps by 4, 6 and 25% alternate: the first is allowed, the second not by default.
             const double q = i % 10 == 7 ? 12.5 : i % 10 == 3 ? 10.625 : i % 10 == 1 ? 10.375 : 10;
             t += i % 5 == 4 ? 100 + i : i % 30 == 0 ? 0 : 10;
             in.push_back(Price(t, (float)q, 1));
             text += Num(t) + Fmt({q, 1}) + "\n";
             if (t >= w.start && t < w.end) sel.push_back(in.back());
           }
           r.cover(sel.size() > 100 && sel.size() < in.size() ? "cut by the window" : "not cut");
           ScratchDir d;
           if (csv) {
             Spill(d / "in", text);
             args.push_back("--input_price_history_csv_file=" + (d / "in"));
           } else {
             Store(d / "in", in, false);
             args.push_back("--input_price_history_delimited_proto_file=" + (d / "in"));
           }
           args.push_back("--output_ohlc_history_delimited_proto_file=" + (d / "out"));
           std::string log;
           const int rc = Tool(r, d, "convert", args, &log);
           r.state(omit * 4 + late * 2 + csv);
           if (rc != 0) r.fail("exit status %d", rc);
           std::vector<size_t> outliers;
           const auto clean = RemoveOutliers(sel.begin(), sel.end(), (float)deviation, &outliers);
           r.cover(outliers.size() > 20 ? "more than 20 outliers" : "at most 20 outliers");
           Expect(r, Load<OhlcTick>(r, d / "out"), Resample(clean.begin(), clean.end(), rate), "ohlc");
           size_t plain = 0;
           for (const OhlcTick& k : Load<OhlcTick>(r, d / "out")) plain += k.ByteSizeLong();
           const bool zipped = Slurp(d / "out").size() < plain;
           if (zipped != compress) r.fail("the output is %scompressed", zipped ? "" : "not ");
           const auto gaps = GapLines(GetPriceHistoryGaps(sel.begin(), sel.end(), 0, 0, top));
           std::set<std::string> got;
           std::set<int64_t> marked, want;
           for (auto& l : Lines(log)) {
             if (l.find("] - ") != std::string::npos) got.insert(l);
             long long ts;
             if (l.rfind(" x ", 0) == 0 && std::sscanf(l.c_str(), " x %lld", &ts) == 1) marked.insert(ts);
           }
           for (size_t i = outliers.size() - std::min<size_t>(outliers.size(), last); i < outliers.size(); ++i)
             want.insert(sel[outliers[i]].timestamp_sec());
           if (got != gaps) r.fail("%zu gaps are listed, expected %zu", got.size(), gaps.size());
           if (marked != want) r.fail("%zu outliers are listed, expected %zu", marked.size(), want.size());
           CheckListing(r, log, sel, outliers, last);
         },
         false, 0, 60, 8);

// ------------------------------------------------------------------- C03
struct TraderRun {
  int64_t start, end;
  int months = 0;
  std::string trader = "stop";
  double base = 1, quote = 0, liquidity = 0.5, ratio = 0.5;
  bool batch = false, logs = true;
  bool stale = false;  // the output files exist already
  int omit = 0;        // flags that are left at their documented defaults
};

AccountConfig ToolAccount(const TraderRun& x) {
  AccountConfig c;
  c.set_start_base_balance((float)x.base);
  c.set_start_quote_balance((float)x.quote);
  c.set_base_unit(0.00001f);
  c.set_quote_unit(0.01f);
  for (auto* f : {c.mutable_market_order_fee_config(), c.mutable_limit_order_fee_config(),
                  c.mutable_stop_order_fee_config()}) {
    f->set_relative_fee(0.005f);
    f->set_fixed_fee(0);
    f->set_minimum_fee(0);
  }
  c.set_market_liquidity((float)x.liquidity);
  c.set_max_volume_ratio((float)x.ratio);
  return c;
}
bool Printed(double got, double want, double unit) {
  return std::isnan(got) ? std::isnan(want) : std::fabs(got - want) <= 0.5 * unit + 1e-6 * std::fabs(want) + 1e-9;
}
void CheckTrader(Run& r, const std::vector<OhlcTick>& history, const std::vector<SideInputRecord>* side,
                 const TraderRun& x) {
  ScratchDir d;
  Store(d / "ohlc", history);
  std::vector<std::string> args = {"--input_ohlc_history_delimited_proto_file=" + (d / "ohlc")};
  const std::string flags[] = {"--start_time=" + Time(x.start),
                               "--end_time=" + Time(x.end),
                               "--trader=" + x.trader,
                               "--evaluation_period_months=" + Num(x.months),
                               "--start_base_balance=" + F(x.base),
                               "--start_quote_balance=" + F(x.quote),
                               "--market_liquidity=" + F(x.liquidity),
                               "--max_volume_ratio=" + F(x.ratio)};
  for (int i = 0; i < 8; ++i)
    if (!(x.omit >> i & 1)) args.push_back(flags[i]);
  if (side) {
    Store(d / "side", *side);
    args.push_back("--input_side_history_delimited_proto_file=" + (d / "side"));
  }
  if (x.batch) args.push_back("--evaluate_batch");
  const bool logs = x.logs && !x.batch && x.months == 0;
  if (logs && x.stale) {
    Stale(d / "exchange.csv");
    Stale(d / "trader.csv");
  }
  if (logs) {
    args.push_back("--output_exchange_log_file=" + (d / "exchange.csv"));
    args.push_back("--output_trader_log_file=" + (d / "trader.csv"));
  }
  std::string log;
  const int rc = Tool(r, d, "trader", args, &log);
  if (rc != 0) r.fail("exit status %d: %s", rc, log.substr(log.size() > 300 ? log.size() - 300 : 0).c_str());

  OhlcHistory sel;
  for (auto& k : history)
    if ((x.start == 0 || k.timestamp_sec() >= x.start) && (x.end == 0 || k.timestamp_sec() < x.end)) sel.push_back(k);
  std::vector<SideInputRecord> ssel;
  if (side)
    for (auto& k : *side)
      if ((x.start == 0 || k.timestamp_sec() >= x.start) && (x.end == 0 || k.timestamp_sec() < x.end)) ssel.push_back(k);
  std::unique_ptr<SideInput> si;
  if (!ssel.empty()) si.reset(new SideInput(ssel));
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(x.start);
  ec.set_end_timestamp_sec(x.end);
  ec.set_evaluation_period_months(x.months);
  r.cover(sel.empty() ? "no ticks selected" : "ticks selected");
  const auto lines = Lines(log);
  // Where the tool says how much it has selected, that is what is in the window.
  std::vector<size_t> said, selected = {sel.size()};
  if (side) selected.push_back(ssel.size());
  for (auto& l : lines) {
    size_t count;
    if (std::sscanf(l.c_str(), "- Selected %zu records within", &count) == 1) said.push_back(count);
  }
  std::sort(said.begin(), said.end());
  std::sort(selected.begin(), selected.end());
  if (said.size() == selected.size() && said != selected)
    r.fail("%zu records are selected of the history or the side input, expected %zu (or %zu)",
           said[0] != selected[0] ? said[0] : said[1], selected[0], selected.back());
  if (said.size() == selected.size()) r.cover("selection said");
  if (x.batch) {
    ec.set_fast_eval(true);
    auto emitters = GetBatchOfTraders(x.trader);
    auto results = EvaluateBatchOfTraders(ToolAccount(x), ec, sel, si.get(), emitters);
    std::map<std::string, double> score;
    std::vector<double> sorted;
    for (auto& e : results) {
      score[e.name()] = e.score();
      sorted.push_back(e.score());
    }
    std::sort(sorted.rbegin(), sorted.rend());
    std::set<std::string> seen;
    size_t n = 0;
    for (auto& l : lines) {
      const size_t c = l.rfind("]: ");
      if (c == std::string::npos || !score.count(l.substr(0, c + 1))) continue;
      const std::string name = l.substr(0, c + 1);
      const double got = std::atof(l.c_str() + c + 3);
      if (!seen.insert(name).second) r.fail("%s is listed twice", name.c_str());
      if (!Printed(got, score[name], 1e-5)) r.fail("%s: score %g, expected %g", name.c_str(), got, score[name]);
      if (n < sorted.size() && !Printed(got, sorted[n], 1e-5))
        r.fail("rank %zu has the score %g, expected %g", n + 1, got, sorted[n]);
      ++n;
    }
    if (n != std::min<size_t>(20, sorted.size())) r.fail("%zu traders are listed of %zu", n, sorted.size());
    return;
  }
  ec.set_fast_eval(false);
  std::ostringstream elog, tlog;
  CsvLogger logger(logs ? &elog : nullptr, logs ? &tlog : nullptr);
  auto emitter = GetTrader(x.trader);
  const EvaluationResult want = EvaluateTrader(ToolAccount(x), ec, sel, si.get(), *emitter, &logger);
  int i = 0;
  bool named = false;
  for (auto& l : lines) {
    if (l.rfind(want.name(), 0) == 0) named = true;
    if (l.rfind("[", 0) != 0 || l.find('%') == std::string::npos) continue;
    if (i >= want.period_size()) r.fail("more than %d periods are printed", i);
    const auto& p = want.period(i++);
    const std::string span = "[" + Time(p.start_timestamp_sec()) + " - " + Time(p.end_timestamp_sec()) + "):";
    if (l.rfind(span, 0) != 0) r.fail("printed %s, expected %s", l.c_str(), span.c_str());
    double g, b, s, v, bv;
    if (std::sscanf(l.c_str() + span.size(), "%lf%% %lf%% %lf %lf %lf", &g, &b, &s, &v, &bv) != 5)
      r.fail("cannot parse: %s", l.c_str());
    if (!Printed(g, (p.final_gain() - 1) * 100.0, 0.0101) || !Printed(b, (p.base_final_gain() - 1) * 100.0, 0.0101) ||
        !Printed(s, p.final_gain() / p.base_final_gain(), 0.00101) ||
        !Printed(v, p.result().trader_volatility(), 0.00101) ||
        !Printed(bv, p.result().base_volatility(), 0.00101))
      r.fail("printed '%s', expected gains %g %g, volatilities %g %g", l.c_str(), (p.final_gain() - 1) * 100.0,
             (p.base_final_gain() - 1) * 100.0, p.result().trader_volatility(), p.result().base_volatility());
  }
  if (i != want.period_size()) r.fail("%d periods are printed, expected %d", i, want.period_size());
  if (!named) r.fail("the trader %s is not named", want.name().c_str());
  if (logs) {
    if (Slurp(d / "exchange.csv") != elog.str()) r.fail("the exchange log differs from the evaluation");
    if (Slurp(d / "trader.csv") != tlog.str()) r.fail("the trader log differs from the evaluation");
    r.cover(elog.str().find("SELL") != std::string::npos || elog.str().find("BUY") != std::string::npos
                ? "with executed orders"
                : "without executed orders");
  }
}
// A history that makes both traders buy and sell.
std::vector<OhlcTick> Ticks(int n, int64_t t0, int64_t step, int shape, double volume = 50) {
  std::vector<OhlcTick> v;
  double p = 1000;
  for (int i = 0; i < n; ++i) {
    const double o = p;
    const int phase = (i + shape) % 7;
    p *= phase < 3 ? 1.09 : phase < 5 ? 0.83 : 1.02;
    const bool gap = shape == 2 && i % 5 == 3;
    if (gap) {
      v.push_back(Tick(t0 + i * step, o, o, o, o, 0));
      p = o;
      continue;
    }
    v.push_back(Tick(t0 + i * step, o, std::max(o, p) * 1.01, std::min(o, p) * 0.99, p, volume + i * volume / 50));
  }
  return v;
}
MC_SPACE("C03", "windows",
         "histories of 6 ticks with every start and end around each of them (before, at, after; none) in 2017, and around 4 of them "
         "around 2^31 and beyond 2^32, x 2 traders, with logs (over log files that exist already) and with side inputs {none, covering, "
         "before, after}",
         [](Run& r) {
           TraderRun x;
           int from, to;
           const int64_t t0 = BorderChoice(r, &from, &to);
           auto at = [&](int k, int64_t none) -> int64_t {
             return k == 0 ? none : t0 + 300 * ((k - 1) / 2) - (k % 2);
           };
           x.start = at(from, 1483228800);
           x.end = at(to, t0 + 113184000);
           if (x.end < x.start) r.prune();
           x.trader = r.choose(2, "trader") ? "rebalancing" : "stop";
           x.stale = true;
           const int s = r.choose(r.thorough() ? 4 : 2, "side") * (r.thorough() ? 1 : 3);
           std::vector<SideInputRecord> side;
           for (int i = 0; i < 3; ++i) {
             SideInputRecord q;
             q.set_timestamp_sec(t0 + 300 * (s == 1 ? 2 * i : s == 2 ? i - 9000000 : i + 3) );
             q.add_signal(i + 0.5f);
             side.push_back(q);
           }
           r.state(mc::Mix(mc::Mix(x.start, x.end), s * 2 + (x.trader == "stop")));
           CheckTrader(r, Ticks(6, t0, 300, 0), s ? &side : nullptr, x);
         },
         false, 0, 60);
MC_SPACE("C03", "flags",
         "histories of {0,1,40} hourly or daily ticks of 3 shapes x 2 traders x months {0,1,2} x balances {1/0, 0/1000, 2/500} "
         "x liquidity {0,0.5,1} x volume ratio {0.01,0.5}",
         [](Run& r) {
           TraderRun x;
           const int ns[] = {40, 1, 0};
           const int n = ns[r.choose(3, "ticks")];
           const int64_t step = r.choose(2, "step") ? 86400 : 3600;
           const int shape = r.choose(3, "shape");
           x.trader = r.choose(2, "trader") ? "rebalancing" : "stop";
           x.months = r.choose(3, "months");
           const double bal[3][2] = {{1, 0}, {0, 1000}, {2, 500}};
           const int b = r.choose(3, "balances");
           x.base = bal[b][0];
           x.quote = bal[b][1];
           const double liq[] = {0.5, 0, 1};
           x.liquidity = liq[r.choose(r.thorough() ? 3 : 2, "liquidity")];
           x.ratio = r.choose(2, "ratio") ? 0.01 : 0.5;
           x.start = kT;
           x.end = kT + 40 * step + (r.thorough() ? r.choose(2, "end") * 86400 * 20 : 0);
           if (n < 40 && (shape || x.ratio != 0.5)) r.prune();
           r.state(mc::Mix(mc::Mix(n * 3 + shape, step + x.months), mc::Mix(b, mc::Bits(x.liquidity + 3 * x.ratio) + (x.trader == "stop"))));
           CheckTrader(r, Ticks(n, kT, step, shape), nullptr, x);
         },
         false, 0, 60);
MC_SPACE("C03", "defaults",
         "all subsets of the 8 flags for the times, trader, period, balances, liquidity and volume ratio left at their documented defaults, the "
         "others at other values, over 40 ticks of small volumes",
         [](Run& r) {
           TraderRun x;
           int64_t none_start = 1483228800, none_end = 1609459200;  // 2017-01-01, 2021-01-01
           for (int i = 0; i < 8; ++i)
             if (r.choose(2, "flag")) x.omit |= 1 << i;
           auto value = [&](int i, auto def, auto other) { return x.omit >> i & 1 ? def : other; };
           x.start = value(0, none_start, none_start + 86400 * 31);
           x.end = value(1, none_end, none_end + 86400 * 59);
           x.trader = value(2, std::string("stop"), std::string("rebalancing"));
           x.months = value(3, 0, 7);
           x.base = value(4, 1.0, 0.25);
           x.quote = value(5, 0.0, 700.0);
           x.liquidity = value(6, 0.5, 0.875);
           x.ratio = value(7, 0.5, 0.03);
           r.state(x.omit);
           CheckTrader(r, Ticks(80, none_start - 86400 * 40, 86400 * 20, 0, 0.03125), nullptr, x);
         },
         false, 0, 60);
MC_SPACE("C03", "failures",
         "a missing history or side input, either one cut at every byte (uncompressed: within a record), no time or an impossible one, "
         "logs that cannot be opened, are full, or are requested for several periods; single and batch evaluation: the tool fails, without a "
         "result unless only a log is lost",
         [](Run& r) {
           const int how = r.choose(10, "failure");
           const bool batch = r.choose(2, "batch"), compress = r.choose(2, "compress");
           const auto history = Ticks(12, kT, 3600, 0);
           std::vector<SideInputRecord> side(3);
           for (int i = 0; i < 3; ++i) {
             side[i].set_timestamp_sec(kT + 7200 * i);
             side[i].add_signal(1.5f + i);
           }
           auto stored = [&](auto& v) {
             std::ostringstream os;
             if (!WriteDelimitedMessagesToOStream(v.begin(), v.end(), os, compress).ok()) r.fail("write");
             return os.str();
           };
           std::string o = stored(history), s = stored(side);
           std::string* cut = how == 1 ? &o : how == 3 ? &s : nullptr;
           if (cut) cut->resize(r.choose((int)cut->size(), "position"));
           ScratchDir d;
           if (how != 0) Spill(d / "ohlc", o);
           if (how != 2) Spill(d / "side", s);
           const bool bad_start = how == 4, bad_end = how == 5;
           const char* times[] = {"", "yesterday", "2017-13-01", "2017-06-31", "1496275200", "2017-06-01 25:00:00"};
           const std::string bad_time = bad_start || bad_end ? times[r.choose(6, "time")] : "";
           std::vector<std::string> args = {
               "--input_ohlc_history_delimited_proto_file=" + (d / "ohlc"),
               "--input_side_history_delimited_proto_file=" + (d / "side"),
               "--start_time=" + (bad_start ? bad_time : Time(kT)), "--end_time=" + (bad_end ? bad_time : Time(kT + 86400)),
               r.choose(2, "trader") ? "--trader=stop" : "--trader=rebalancing"};
           if (batch) args.push_back("--evaluate_batch");
           std::string logs[] = {d / "exchange.csv", d / "trader.csv"};
           if (how >= 6) {
             // Only single evaluations write logs.
             if (batch || compress) r.prune();
             const int which = r.choose(2, "log");
             if (how == 6) logs[which] = d / "no/log.csv";
             if (how == 7) logs[which] = "/dev/full";
             if (how == 8) logs[which] = d / "";  // a directory
             if (how == 9) {
               logs[which] = "";
               args.push_back("--evaluation_period_months=1");
             }
           }
           args.push_back("--output_exchange_log_file=" + logs[0]);
           args.push_back("--output_trader_log_file=" + logs[1]);
           std::string log;
           const int rc = Tool(r, d, "trader", args, &log);
           r.state(mc::HashStr(o + "|" + s + "|" + bad_time, how * 4 + batch * 2 + compress));
           if (rc >= 128) r.fail("died of signal %d", rc - 128);
           bool result = false;
           for (auto& l : Lines(log)) {
             const size_t c = l.rfind("]: ");
             result = result || (l.rfind("[", 0) == 0 && l.find('%') != std::string::npos) ||
                      (c != std::string::npos && l.size() > c + 3 && std::isdigit((unsigned char)l[c + 3]));
           }
           r.cover(result ? "with a result" : "without a result");
           r.cover(rc == 0 ? "succeeded" : "failed");
           // Cut between two records, an uncompressed file is a shorter complete one (see F03).
           if (cut) {
             std::istringstream is(*cut);
             std::vector<OhlcTick> vo;
             std::vector<SideInputRecord> vs;
             if (how == 1 ? ReadDelimitedMessagesFromIStream(is, vo).ok() : ReadDelimitedMessagesFromIStream(is, vs).ok()) return;
           }
           if (rc == 0) r.fail("the failure is not reported");
           if (result && how != 7) r.fail("a failed run prints a result");
           if (how < 6 && (Exists(d / "exchange.csv") || Exists(d / "trader.csv"))) r.fail("a failed run writes a log");
         },
         false, 0, 60, 8);
MC_SPACE("C03", "batch",
         "batches of both traders over {1,40} hourly or daily ticks of 3 shapes x months {0,1} x balances {1/0, 0/1000}",
         [](Run& r) {
           TraderRun x;
           x.batch = true;
           x.trader = r.choose(2, "trader") ? "rebalancing" : "stop";
           const int n = r.choose(2, "ticks") ? 1 : 40;
           const int64_t step = r.choose(2, "step") ? 86400 : 3600;
           const int shape = r.choose(3, "shape");
           x.months = r.choose(2, "months");
           if (r.choose(2, "balances")) {
             x.base = 0;
             x.quote = 1000;
           }
           x.start = kT;
           x.end = kT + 40 * step;
           r.state(mc::Mix(mc::Mix(n, shape), mc::Mix(step, x.months * 4 + (x.base > 0) * 2 + (x.trader == "stop"))));
           CheckTrader(r, Ticks(n, kT, step, shape), nullptr, x);
         },
         false, 4, 60);
}  // namespace
