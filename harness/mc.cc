#include "mc.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <sstream>
#include <fstream>

namespace mc {

constexpr int kMaxCover = 256;
constexpr int kCoverLen = 64;
constexpr int kMaxWorkers = 16;
constexpr uint64_t kLeaves = 1 << 14;
constexpr int kMsgLen = 8192;

struct Shared {
  std::atomic<uint64_t> beat;
  std::atomic<uint64_t> executions, transitions, choice_points, pruned, maxlen;
  std::atomic<int> num_choices;
  int choices[kMaxChoices];
  std::atomic<int> num_shards_done;
  int shard_list[1024];  // the shards this worker explored, in order
  std::atomic<int> violated;  // 1: fail(), 2: divergence
  char message[kMsgLen];
  // Samples: the first and the latest complete execution.
  int sample_len[2];
  int sample[2][kMaxChoices];
};

struct Global {
  std::atomic<uint64_t> next_shard;
  std::atomic<int> stop;
  std::atomic<uint64_t> states, outcomes, table_full;
  std::atomic<uint64_t> leaves[kLeaves];
  std::atomic<int> num_cover;
  char cover[kMaxCover][kCoverLen];
  std::atomic<uint64_t> cover_count[kMaxCover];
  Shared w[kMaxWorkers + 1];
};

static Global* g = nullptr;
static std::atomic<uint64_t>* g_table = nullptr;  // states + visits
static uint64_t g_table_mask = 0;
// Only crashes (sanitizer reports, signals, escaping exceptions) are violations.
static bool g_safety = false;
static std::vector<Space>& Spaces() {
  static std::vector<Space> s;
  return s;
}
static std::map<const Space*, int>& MaxWorkers() {
  static std::map<const Space*, int> m;
  return m;
}
static std::vector<int>& MaxWorkersVec() {
  static std::vector<int> m;
  return m;
}

Register::Register(const char* prop, const char* name, const char* bound,
                   Body body, bool thorough_only, int max_workers,
                   int hang_sec, int shards) {
  Space s;
  s.prop = prop;
  s.name = name;
  s.bound = bound;
  s.body = body;
  s.thorough_only = thorough_only;
  s.hang_sec = hang_sec;
  s.shards = shards;
  Spaces().push_back(s);
  MaxWorkersVec().push_back(max_workers);
}

// Inserts into the shared set. Returns true iff newly inserted.
static bool Insert(uint64_t h, bool* full) {
  *full = false;
  if (h == 0) h = 1;
  uint64_t i = h & g_table_mask;
  for (int probe = 0; probe < 256; ++probe, i = (i + 1) & g_table_mask) {
    uint64_t cur = g_table[i].load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (cur == 0) {
      if (g_table[i].compare_exchange_strong(cur, h)) return true;
      if (cur == h) return false;
    }
  }
  *full = true;
  g->table_full.fetch_add(1);
  return true;
}

// Paths of executions that ended before they could be sharded.
static bool LeafKnown(uint64_t path) {
  for (int i = 0; i < 8; ++i) {
    if (g->leaves[(path + i) % kLeaves].load(std::memory_order_relaxed) == path) return true;
  }
  return false;
}
static void AddLeaf(uint64_t path) {
  if (LeafKnown(path)) return;
  for (int i = 0; i < 8; ++i) {
    uint64_t none = 0;
    if (g->leaves[(path + i) % kLeaves].compare_exchange_strong(none, path)) return;
  }
}

int Run::choose(int n, const char* label) {
  if (n <= 0) {
    throw Divergence{std::string("choose(") + label + ") without alternatives"};
  }
  int c = 0;
  if (pos_ < choices_.size()) {
    c = choices_[pos_];
    if (replaying_ && pos_ >= arity_.size()) arity_.push_back(n);
    if (!replaying_ && arity_[pos_] != n) {
      throw Divergence{std::string("nondeterministic arity at ") + label};
    }
    if (c >= n) throw Divergence{std::string("replay out of range at ") + label};
  } else {
    if (pos_ >= kMaxChoices) throw Divergence{"too many choices"};
    choices_.push_back(0);
    arity_.push_back(n);
    sh_->choices[pos_] = 0;
    sh_->num_choices.store(static_cast<int>(pos_) + 1, std::memory_order_relaxed);
  }
  ++pos_;
  sh_->beat.fetch_add(1, std::memory_order_relaxed);
  if (!crossed_) {
    path_ = Mix(path_, static_cast<uint64_t>(c) * 4099 + n);
    // Executions too short to be sharded belong to the shard 0.
    if (shard_ != 0 && LeafKnown(path_)) throw OtherShard();
    cell_ = cell_ * n + c;
    width_ *= n;
    if (width_ >= cross_) {
      crossed_ = true;
      if (cell_ % num_shards_ != shard_) throw OtherShard();
    }
  }
  if (verbose_ && n > 1) {
    char buf[128];
    std::snprintf(buf, sizeof buf, "%s=%d/%d ", label, c, n);
    text_ += buf;
  }
  return c;
}

int Run::deviate(int n, const char* label) {
  if (dev_left_ <= 0 || n <= 1) return 0;
  const int c = choose(n, label);
  if (c != 0) --dev_left_;
  return c;
}

void Run::step(int n) {
  steps_ += n;
  sh_->beat.fetch_add(1, std::memory_order_relaxed);
}

bool Run::state(uint64_t h) {
  if (replaying_) return true;
  bool full;
  const bool fresh = Insert(Mix(Mix(h, space_salt_), 0x51a7e), &full);
  if (fresh && !full) g->states.fetch_add(1, std::memory_order_relaxed);
  return fresh;
}

void Run::visit(uint64_t h) {
  if (replaying_) return;
  if (!crossed_ || pos_ < prefix_len_) return;
  bool full;
  if (!Insert(Mix(Mix(h, space_salt_), 0x715171), &full)) {
    sh_->pruned.fetch_add(1, std::memory_order_relaxed);
    throw Pruned();
  }
}

void Run::outcome(uint64_t h) {
  if (replaying_) return;
  bool full;
  if (Insert(Mix(Mix(h, space_salt_), 0x00c0e), &full) && !full) {
    g->outcomes.fetch_add(1, std::memory_order_relaxed);
  }
}

void Run::cover(const char* name) {
  if (replaying_) return;
  static std::map<const void*, int> slots;
  auto it = slots.find(name);
  int slot = -1;
  if (it != slots.end()) {
    slot = it->second;
  } else {
    const int n = std::min(g->num_cover.load(), kMaxCover);
    for (int i = 0; i < n && slot < 0; ++i) {
      if (!std::strncmp(g->cover[i], name, kCoverLen - 1)) slot = i;
    }
    if (slot < 0) {
      slot = g->num_cover.fetch_add(1);
      if (slot >= kMaxCover) return;
      std::strncpy(g->cover[slot], name, kCoverLen - 1);
    }
    slots[name] = slot;
  }
  covered_.push_back(slot);
}

void Run::fail(const char* fmt, ...) {
  char buf[kMsgLen];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Violation{buf};
}

void Run::say(const char* fmt, ...) {
  if (!verbose_) return;
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  text_ += buf;
  text_ += "; ";
}

static void RecordViolation(Shared* sh, int kind, const std::string& m) {
  std::strncpy(sh->message, m.c_str(), kMsgLen - 1);
  sh->violated.store(kind);
}

// Explores one shard. Returns false iff a violation was recorded.
static bool ExploreShard(const Space& sp, uint64_t salt, Shared* sh,
                         uint64_t shard, uint64_t num_shards, bool thorough) {
  std::vector<int> choices, arity;
  size_t prefix_len = 0;
  while (true) {
    if (g->stop.load(std::memory_order_relaxed)) return true;
    Run r;
    r.choices_ = choices;
    r.arity_ = arity;
    r.prefix_len_ = prefix_len;
    r.shard_ = shard;
    r.num_shards_ = num_shards;
    r.cross_ = sp.shards;
    r.thorough_ = thorough;
    r.space_salt_ = salt;
    r.sh_ = sh;
    for (size_t i = 0; i < choices.size(); ++i) sh->choices[i] = choices[i];
    sh->num_choices.store(static_cast<int>(choices.size()));
    sh->beat.fetch_add(1, std::memory_order_relaxed);
    bool mine = true, complete = false;
    try {
      sp.body(r);
      if (!r.crossed_ && shard != 0) mine = false;
      if (!r.crossed_) AddLeaf(r.path_);
      complete = true;
    } catch (const Pruned&) {
      if (!r.crossed_ && shard != 0) mine = false;
      if (!r.crossed_) AddLeaf(r.path_);
    } catch (const OtherShard&) {
      mine = false;
    } catch (const Violation& v) {
      if (!g_safety) {
        RecordViolation(sh, 1, v.message);
        return false;
      }
    } catch (const Divergence& d) {
      if (!g_safety) {
        RecordViolation(sh, 2, d.message);
        return false;
      }
    } catch (const std::exception& e) {
      RecordViolation(sh, 1, std::string("unexpected exception: ") + e.what());
      return false;
    }
    if (mine) {
      sh->executions.fetch_add(1, std::memory_order_relaxed);
      sh->transitions.fetch_add(r.steps_, std::memory_order_relaxed);
      for (int slot : r.covered_) {
        g->cover_count[slot].fetch_add(1, std::memory_order_relaxed);
      }
      sh->choice_points.fetch_add(r.pos_ - std::min(r.pos_, prefix_len),
                                  std::memory_order_relaxed);
      if (r.pos_ > sh->maxlen.load()) sh->maxlen.store(r.pos_);
      if (complete) {
        const int which = sh->sample_len[0] < 0 ? 0 : 1;
        const int n = static_cast<int>(std::min<size_t>(r.pos_, kMaxChoices));
        for (int i = 0; i < n; ++i) sh->sample[which][i] = r.choices_[i];
        sh->sample_len[which] = n;
      }
    }
    // Advance to the next choice sequence.
    choices.assign(r.choices_.begin(), r.choices_.begin() + r.pos_);
    arity.assign(r.arity_.begin(), r.arity_.begin() + r.pos_);
    while (!choices.empty() && choices.back() + 1 >= arity.back()) {
      choices.pop_back();
      arity.pop_back();
    }
    if (choices.empty()) return true;
    ++choices.back();
    prefix_len = choices.size();
  }
}

static double Now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

// Explores the shards again in one fresh process, in the given order. Returns a
// non-empty message iff a violation is found again: the violation depends on
// what the process executed before (state that outlives an execution).
static std::string ReplayHistory(const Space& sp, const std::vector<uint64_t>& shards,
                                 uint64_t num_shards, bool thorough, double limit_sec) {
  Shared* sh = &g->w[kMaxWorkers];
  sh->violated.store(0);
  sh->message[0] = 0;
  madvise(static_cast<void*>(g_table), (g_table_mask + 1) * 8, MADV_REMOVE);
  g->stop = 0;
  fflush(stdout);
  fflush(stderr);
  const pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    for (uint64_t shard : shards) {
      if (!ExploreShard(sp, HashStr(sp.prop + "/" + sp.name), sh, shard, num_shards,
                        thorough)) {
        break;
      }
    }
    _exit(0);
  }
  const double t0 = Now();
  int status = 0;
  bool killed = false;
  while (waitpid(pid, &status, WNOHANG) != pid) {
    if (Now() - t0 > limit_sec) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      killed = true;
      break;
    }
    usleep(2000);
  }
  kill(-pid, SIGKILL);
  if (killed) return "";
  if (sh->violated.load() == 1) return sh->message;
  if (sh->violated.load() == 2) {
    return std::string("the same choices led to different executions: ") + sh->message;
  }
  if (WIFSIGNALED(status)) {
    return "the process died of signal " + std::to_string(WTERMSIG(status));
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) != 0) {
    return "the process exited with status " + std::to_string(WEXITSTATUS(status));
  }
  return "";
}

struct Found {
  std::string space;
  std::vector<int> choices;
  std::string message;
};

// Runs one choice sequence alone in a child. Returns a non-empty message iff it
// violates the property; *text receives the narration.
static std::string ReplayAlone(const Space& sp, const std::vector<int>& choices,
                               bool thorough, double limit_sec,
                               std::string* text, bool* diverged) {
  Shared* sh = &g->w[kMaxWorkers];
  sh->violated.store(0);
  sh->message[0] = 0;
  int fds[2];
  if (pipe(fds) != 0) return "";
  fflush(stdout);
  fflush(stderr);
  const pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    setpgid(0, 0);
    Run r;
    r.choices_ = choices;
    r.replaying_ = true;
    r.verbose_ = true;
    r.thorough_ = thorough;
    r.sh_ = sh;
    auto flush_text = [&]() {
      size_t off = 0;
      while (off < r.text_.size()) {
        ssize_t n = write(fds[1], r.text_.data() + off,
                          std::min<size_t>(r.text_.size() - off, 4096));
        if (n <= 0) break;
        off += n;
      }
    };
    try {
      sp.body(r);
    } catch (const Violation& v) {
      if (!g_safety) RecordViolation(sh, 1, v.message);
    } catch (const Pruned&) {
    } catch (const OtherShard&) {
    } catch (const Divergence& d) {
      if (!g_safety) RecordViolation(sh, 2, d.message);
    } catch (const std::exception& e) {
      RecordViolation(sh, 1, std::string("unexpected exception: ") + e.what());
    }
    flush_text();
    _exit(0);
  }
  close(fds[1]);
  fcntl(fds[0], F_SETFL, O_NONBLOCK);
  const double t0 = Now();
  int status = 0;
  bool hung = false;
  char buf[4096];
  while (true) {
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0) {
      if (text) text->append(buf, n);
    }
    const pid_t w = waitpid(pid, &status, WNOHANG);
    if (w == pid) break;
    if (Now() - t0 > limit_sec) {
      hung = true;
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      break;
    }
    usleep(500);
  }
  ssize_t n;
  while ((n = read(fds[0], buf, sizeof buf)) > 0) {
    if (text) text->append(buf, n);
  }
  close(fds[0]);
  kill(-pid, SIGKILL);
  if (diverged) *diverged = sh->violated.load() == 2;
  if (hung) return "hang: the execution did not finish";
  if (WIFSIGNALED(status)) {
    return std::string("crash: killed by signal ") +
           std::to_string(WTERMSIG(status)) + " (" +
           strsignal(WTERMSIG(status)) + ")";
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) != 0) {
    return "crash: exit status " + std::to_string(WEXITSTATUS(status));
  }
  if (sh->violated.load() == 1) return sh->message;
  return "";
}

static std::string JsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}

static void ResetGlobal() {
  g->next_shard = 0;
  g->stop = 0;
  g->states = 0;
  g->outcomes = 0;
  g->table_full = 0;
  g->num_cover = 0;
  for (auto& l : g->leaves) l = 0;
  std::memset(g->cover, 0, sizeof g->cover);
  for (auto& c : g->cover_count) c = 0;
  for (auto& w : g->w) {
    w.beat = 0;
    w.executions = w.transitions = w.choice_points = w.pruned = w.maxlen = 0;
    w.num_choices = 0;
    w.violated = 0;
    w.message[0] = 0;
    w.num_shards_done = 0;
    w.sample_len[0] = w.sample_len[1] = -1;
  }
}

int Main(int argc, char** argv) {
  std::string prop, tier = "quick", out, replay_dir, replay, only;
  std::set<std::string> selected;
  int workers = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = val();
    else if (a == "--tier") tier = val();
    else if (a == "--out") out = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--replay") replay = val();
    else if (a == "--workers") workers = std::stoi(val());
    else if (a == "--space") only = val();
    else if (a == "--safety") {  // the spaces PROP/NAME,... of other properties
      g_safety = true;
      std::istringstream l(val());
      for (std::string x; std::getline(l, x, ',');) selected.insert(x);
    }
    else if (a == "--list") {
      for (auto& s : Spaces()) std::printf("%s %s\n", s.prop.c_str(), s.name.c_str());
      return 0;
    }
  }
  workers = std::max(1, std::min(workers, kMaxWorkers));
  // Abandoned executions (of other shards) are expensive under the sanitizers.
  auto fewer_shards = [] {
    for (auto& s : Spaces()) s.shards = std::min(s.shards, 48);
  };
  if (g_safety) fewer_shards();
  const bool thorough = tier == "thorough";
  signal(SIGPIPE, SIG_IGN);

  g = static_cast<Global*>(mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  const uint64_t table_size = 1ULL << (thorough ? 28 : 25);
  g_table_mask = table_size - 1;
  g_table = static_cast<std::atomic<uint64_t>*>(
      mmap(nullptr, table_size * 8, PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (g == MAP_FAILED || static_cast<void*>(g_table) == MAP_FAILED) {
    std::perror("mmap");
    return 2;
  }

  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line, rprop, rspace, rtier, rof;
    std::vector<int> choices;
    std::vector<uint64_t> shards;
    uint64_t num_shards = 1;
    while (std::getline(in, line)) {
      std::istringstream ls(line);
      std::string key;
      ls >> key;
      if (key == "property") ls >> rprop;
      else if (key == "space") ls >> rspace;
      else if (key == "of") ls >> rof;
      else if (key == "tier") ls >> rtier;
      else if (key == "choices") {
        int c;
        while (ls >> c) choices.push_back(c);
      } else if (key == "shards") {
        ls >> num_shards;
        uint64_t c;
        while (ls >> c) shards.push_back(c);
      }
    }
    if (!rof.empty()) {
      g_safety = true;
      fewer_shards();
      rprop = rof;
    }
    for (auto& s : Spaces()) {
      if (s.prop != rprop || s.name != rspace) continue;
      ResetGlobal();
      std::string text;
      bool div = false;
      const std::string m =
          !shards.empty()
          ? ReplayHistory(s, shards, num_shards, rtier == "thorough", 3600)
          : ReplayAlone(s, choices, rtier == "thorough", 2 * s.hang_sec, &text, &div);
      std::printf("execution: %s\nverdict: %s\n", text.c_str(),
                  m.empty() ? (div ? "DIVERGED" : "no violation") : m.c_str());
      return m.empty() ? 0 : 1;
    }
    std::fprintf(stderr, "unknown space\n");
    return 2;
  }

  std::ostringstream js;
  js << "{\"spaces\":[";
  bool first_space = true, any = false, error = false;
  std::vector<Found> found;
  for (size_t si = 0; si < Spaces().size(); ++si) {
    const Space& sp = Spaces()[si];
    const std::string id = sp.prop + "/" + sp.name;
    if (g_safety ? !selected.count(id) && !selected.count(sp.prop + "/*")
                 : sp.prop != prop)
      continue;
    if (sp.thorough_only && !thorough) continue;
    if (!only.empty() && (g_safety ? id : sp.name) != only) continue;
    any = true;
    ResetGlobal();
    if (g_safety) madvise(static_cast<void*>(g_table), table_size * 8, MADV_REMOVE);
    const double t0 = Now();
    int nw = workers;
    if (MaxWorkersVec()[si] > 0) nw = std::min(nw, MaxWorkersVec()[si]);
    const uint64_t num_shards = nw == 1 ? 1 : sp.shards;
    std::vector<pid_t> pids(nw, -1);
    std::vector<double> last_change(nw, Now());
    std::vector<uint64_t> last_beat(nw, 0);
    fflush(stdout);
    fflush(stderr);
    for (int w = 0; w < nw; ++w) {
      const pid_t pid = fork();
      if (pid == 0) {
        setpgid(0, 0);
        while (true) {
          const uint64_t shard = g->next_shard.fetch_add(1);
          if (shard >= num_shards) break;
          g->w[w].shard_list[g->w[w].num_shards_done++ % 1024] = static_cast<int>(shard);
          if (!ExploreShard(sp, HashStr(sp.prop + "/" + sp.name), &g->w[w],
                            shard, num_shards, thorough)) {
            break;
          }
        }
        _exit(0);
      }
      pids[w] = pid;
    }
    std::vector<int> bad(nw, 0);  // 1 fail, 2 divergence, 3 crash, 4 hang
    int alive = nw;
    while (alive > 0) {
      for (int w = 0; w < nw; ++w) {
        if (pids[w] < 0) continue;
        int status;
        const pid_t r = waitpid(pids[w], &status, WNOHANG);
        if (r == pids[w]) {
          kill(-pids[w], SIGKILL);
          pids[w] = -1;
          --alive;
          if (g->w[w].violated.load()) {
            bad[w] = g->w[w].violated.load();
            g->stop = 1;
          } else if (WIFSIGNALED(status) ||
                     (WIFEXITED(status) && WEXITSTATUS(status) != 0)) {
            bad[w] = 3;
            g->stop = 1;
          }
          continue;
        }
        const uint64_t b = g->w[w].beat.load();
        if (b != last_beat[w]) {
          last_beat[w] = b;
          last_change[w] = Now();
        } else if (Now() - last_change[w] > sp.hang_sec * (g_safety ? 10 : 1)) {
          kill(-pids[w], SIGKILL);
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &status, 0);
          pids[w] = -1;
          --alive;
          bad[w] = 4;
          g->stop = 1;
        }
      }
      usleep(2000);
    }
    uint64_t ex = 0, tr = 0, cp = 0, pr = 0, ml = 0;
    for (int w = 0; w < nw; ++w) {
      ex += g->w[w].executions;
      tr += g->w[w].transitions;
      cp += g->w[w].choice_points;
      pr += g->w[w].pruned;
      ml = std::max<uint64_t>(ml, g->w[w].maxlen);
    }
    const uint64_t states = g->states, outcomes = g->outcomes,
                   full = g->table_full;
    std::ostringstream cov;
    std::map<std::string, uint64_t> covers;
    for (int i = 0; i < std::min(g->num_cover.load(), kMaxCover); ++i) {
      covers[g->cover[i]] += g->cover_count[i].load();
    }
    for (auto& kv : covers) {
      cov << (kv.first == covers.begin()->first ? "" : ",") << "\""
          << JsonEscape(kv.first) << "\":" << kv.second;
    }
    std::vector<std::vector<int>> samples;
    for (int w = 0; w < nw && samples.size() < 2; ++w) {
      const int k = samples.empty() ? 0 : 1;
      if (g->w[w].sample_len[k] >= 0) {
        samples.emplace_back(g->w[w].sample[k],
                             g->w[w].sample[k] + g->w[w].sample_len[k]);
      }
    }
    // Confirm violations by replaying them alone.
    std::vector<std::pair<std::vector<int>, int>> cands;
    std::vector<std::string> msgs;
    std::vector<std::vector<uint64_t>> hist;
    for (int w = 0; w < nw; ++w) {
      if (!bad[w]) continue;
      hist.emplace_back(g->w[w].shard_list,
                        g->w[w].shard_list + std::min(1024, g->w[w].num_shards_done.load()));
      cands.emplace_back(
          std::vector<int>(g->w[w].choices,
                           g->w[w].choices + g->w[w].num_choices.load()),
          bad[w]);
      msgs.push_back(bad[w] <= 2 ? g->w[w].message : "crash or hang");
    }
    std::vector<size_t> order(cands.size());
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    std::sort(order.begin(), order.end(), [&](size_t a, size_t b) {
      return cands[a].first.size() < cands[b].first.size();
    });
    bool reported = false;
    int unreproduced = 0;
    for (size_t oi = 0; oi < order.size() && !reported; ++oi) {
      const auto& c = cands[order[oi]];
      std::string text, m1, m2;
      bool d1 = false, d2 = false;
      m1 = ReplayAlone(sp, c.first, thorough, 2 * sp.hang_sec, &text, &d1);
      if (!m1.empty()) {
        m2 = ReplayAlone(sp, c.first, thorough, 2 * sp.hang_sec, nullptr, &d2);
      }
      bool history = false;
      if (m1.empty() || m2.empty()) {
        // Does it depend on the executions before it in the same process?
        const double limit = 2 * (Now() - t0) * nw + 30;
        const auto& h = hist[order[oi]];
        m1 = ReplayHistory(sp, h, num_shards, thorough, limit);
        m2 = m1.empty() ? "" : ReplayHistory(sp, h, num_shards, thorough, limit);
        if (!m1.empty() && !m2.empty()) {
          history = true;
          m1 += " (only after other executions in the same process)";
        }
      }
      if (m1.empty() || m2.empty()) {
        std::fprintf(stderr,
                     "note: %s/%s: a candidate (%s) did not reproduce alone\n",
                     prop.c_str(), sp.name.c_str(), msgs[order[oi]].c_str());
        ++unreproduced;
        if (c.second == 2) error = true;
        continue;
      }
      reported = true;
      Found f;
      f.space = sp.name;
      f.choices = c.first;
      f.message = m1;
      const std::string path = replay_dir + "/" + prop + "-" + (g_safety ? sp.prop + "-" : "") + sp.name + ".replay";
      std::ofstream o(path);
      o << "property " << prop;
      if (g_safety) o << "\nof " << sp.prop;
      o << "\nspace " << sp.name << "\ntier " << tier
        << "\nchoices";
      for (int x : c.first) o << " " << x;
      if (history) {
        o << "\nshards " << num_shards;
        for (uint64_t x : hist[order[oi]]) o << " " << x;
      }
      o << "\nmessage " << JsonEscape(m1) << "\nexecution " << text.substr(0, 20000) << "\n";
      o.close();
      std::printf("space %s: %s\n  execution: %s\n", sp.name.c_str(), m1.c_str(),
                  text.substr(0, 1500).c_str());
      std::printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
      std::fflush(stdout);
      found.push_back(f);
    }
    if (!cands.empty() && !reported) error = true;
    std::ostringstream smp;
    for (size_t i = 0; i < samples.size() && found.empty(); ++i) {
      std::string text;
      ReplayAlone(sp, samples[i], thorough, 2 * sp.hang_sec, &text, nullptr);
      if (text.size() > 1500) text = text.substr(0, 1500) + "...";
      smp << (i ? "," : "") << "\"" << JsonEscape(sp.name + ": " + text) << "\"";
    }
    const double dt = Now() - t0;
    js << (first_space ? "" : ",") << "{\"space\":\"" << JsonEscape(g_safety ? id : sp.name)
       << "\",\"bound\":\"" << JsonEscape(sp.bound) << "\",\"executions\":" << ex
       << ",\"transitions\":" << tr << ",\"choice_points\":" << cp
       << ",\"states\":" << states << ",\"outcomes\":" << outcomes
       << ",\"pruned_revisits\":" << pr << ",\"longest\":" << ml
       << ",\"table_overflow\":" << full << ",\"unreproduced\":" << unreproduced
       << ",\"complete\":" << (cands.empty() ? "true" : "false")
       << ",\"wall_s\":" << dt << ",\"cover\":{" << cov.str()
       << "},\"samples\":[" << smp.str() << "]}";
    first_space = false;
    std::fprintf(stderr,
                 "%s/%s: executions=%llu transitions=%llu states=%llu "
                 "outcomes=%llu pruned=%llu longest=%llu %.2fs%s cover{%s}\n",
                 prop.c_str(), (g_safety ? id : sp.name).c_str(), (unsigned long long)ex,
                 (unsigned long long)tr, (unsigned long long)states,
                 (unsigned long long)outcomes, (unsigned long long)pr,
                 (unsigned long long)ml, dt, full ? " TABLE-FULL" : "",
                 cov.str().c_str());
    // The table is shared by all spaces (salted); no reset needed.
    if (!found.empty() && !thorough) break;
  }
  js << "],\"violations\":" << found.size() << "}";
  if (!out.empty()) {
    std::ofstream o(out);
    o << js.str() << "\n";
  }
  if (!any) {
    std::fprintf(stderr, "no space for the property %s\n", prop.c_str());
    return 2;
  }
  if (!found.empty()) return 1;
  if (error) {
    std::fprintf(stderr, "some candidates did not reproduce\n");
    return 0;
  }
  return 0;
}

}  // namespace mc

int main(int argc, char** argv) { return mc::Main(argc, argv); }
