// E06: stateless model checking of the parallel batch evaluation under a
// controlled scheduler (the real std::async threads of the implementation).
#include <thread>

#include "batch_common.h"

using namespace vt;

extern "C" {
NOINSTR void __cyg_profile_func_enter(void*, void*);
NOINSTR void __cyg_profile_func_exit(void*, void*);
void __cyg_profile_func_enter(void*, void*) {
  if (sched::tls_task >= 0 && sched::S().functions.load(std::memory_order_relaxed))
    sched::Park(sched::tls_task, "function");
}
void __cyg_profile_func_exit(void*, void*) {}
}

namespace {
struct Job {
  BatchCase c;
  std::vector<EvaluationResult> got;
  std::atomic<bool> done{false};
  std::string error;
};

// preemptions < 0: every interleaving of the yield points.
void Explore(Run& r, int emitters, int ticks, bool side, bool fast, int months, bool functions,
             int preemptions) {
  auto& s = sched::S();
  // Leaked if the implementation deadlocks (its threads keep using it).
  auto job = std::make_shared<Job>();
  BuildCase(&job->c, emitters, ticks, side, fast, months, true);
  r.say("%d traders, %d ticks, side=%d fast=%d months=%d", emitters, ticks, side, fast, months);
  while (sem_trywait(&s.ctl) == 0) {
  }
  s.parked.clear();
  s.functions = functions;
  s.active = true;
  auto* keep = new std::shared_ptr<Job>(job);
  std::thread caller([job, &s] {
    try {
      job->got = EvaluateBatchOfTraders(job->c.account, job->c.eval, job->c.history,
                                        job->c.side.get(), job->c.emitters);
    } catch (const std::exception& e) {
      job->error = e.what();
    }
    job->done = true;
    sem_post(&s.ctl);
  });
  auto release = [&] {
    {
      std::lock_guard<std::mutex> l(s.mu);
      s.active = false;
      s.functions = false;
      for (auto* p : s.parked) sem_post(&p->go);
      s.parked.clear();
    }
    caller.join();
    delete keep;
  };
  if (preemptions >= 0) r.budget(preemptions);
  std::vector<int> progress(emitters + 1, 0);
  int current = -1, steps = 0;
  bool fast_path = false;
  try {
    while (true) {
      if (!fast_path) sched::Quiesce();
      fast_path = false;
      std::vector<sched::Slot*> p;
      {
        std::lock_guard<std::mutex> l(s.mu);
        p = s.parked;
      }
      while (sem_trywait(&s.ctl) == 0) {
      }
      if (p.empty()) {
        if (job->done) break;
        bool moved = false;  // nobody can run: deadlock, unless somebody sleeps
        for (int i = 0; i < 30 && !moved; ++i) {
          moved = sched::WaitEvent(100000);
        }
        if (moved) continue;
        caller.detach();
        r.fail("deadlock after %d steps: no evaluation can proceed", steps);
      }
      std::sort(p.begin(), p.end(), [](sched::Slot* a, sched::Slot* b) { return a->task < b->task; });
      int k = 0;
      if (p.size() > 1) {
        if (preemptions < 0) {
          k = r.choose((int)p.size(), "run");
        } else {
          // The current thread first (free); switching away from it is a preemption.
          for (size_t i = 0; i < p.size(); ++i)
            if (p[i]->task == current) std::swap(p[0], p[i]);
          if (p[0]->task == current) {
            std::sort(p.begin() + 1, p.end(),
                      [](sched::Slot* a, sched::Slot* b) { return a->task < b->task; });
            k = r.deviate((int)p.size(), "preempt");
          } else {
            k = r.choose((int)p.size(), "run");
          }
        }
      }
      sched::Slot* next = p[k];
      if (current >= 0 && next->task != current) r.cover("context switch");
      current = next->task;
      if (!functions || k) r.say("%d:%s", current, next->where);
      ++steps;
      ++progress[std::min(current, emitters)];
      r.step();
      uint64_t h = 0;
      for (int x : progress) h = mc::Mix(h, x);
      r.state(h);
      {
        std::lock_guard<std::mutex> l(s.mu);
        s.parked.erase(std::find(s.parked.begin(), s.parked.end(), next));
      }
      const int task = current;
      sem_post(&next->go);
      // Usually the released thread parks again; nobody else can run then.
      if (sched::WaitEvent(300)) {
        std::lock_guard<std::mutex> l(s.mu);
        fast_path = !job->done && !s.parked.empty() && s.parked.back()->task == task &&
                    s.parked.size() == p.size();
      }
      if (steps > 200000) r.fail("the evaluation does not finish");
    }
  } catch (const mc::Violation&) {
    if (caller.joinable()) release();
    throw;
  } catch (...) {
    release();
    throw;
  }
  release();
  r.say("%d steps", steps);
  if (!job->error.empty()) r.fail("exception: %s", job->error.c_str());
  const std::string e = CompareResults(job->c, job->got);
  if (!e.empty()) r.fail("%s", e.c_str());
}

MC_SPACE("E06", "interleavings2",
         "2 traders, 2 (thorough 4, one without volume) ticks: every interleaving of name/create/update/destroy, with and without side input",
         [](Run& r) {
           const bool side = r.choose(2, "side") == 0;
           Explore(r, 2, r.thorough() ? 4 : 2, side, true, 0, false, -1);
         },
         false, 0, 60, 16);
MC_SPACE("E06", "interleavings3",
         "3 traders, 1 tick, shared side input: every interleaving of name/create/update/destroy",
         [](Run& r) { Explore(r, 3, 1, true, true, 0, false, -1); }, true, 0, 60, 32);
MC_SPACE("E06", "preemptions",
         "3 traders, 3 ticks (thorough 4 traders, 5 ticks), shared side input, volatility on: every schedule with at most 1 "
         "preemption at any function entry of the implementation, and every order of completion",
         [](Run& r) { Explore(r, r.thorough() ? 4 : 3, r.thorough() ? 5 : 3, true, false, 0, true, 1); },
         false, 0, 60, 16);
MC_SPACE("E06", "preemptions2",
         "2 traders, 2 ticks, shared side input: every schedule with at most 2 (thorough 3) preemptions at any function "
         "entry of the implementation",
         [](Run& r) { Explore(r, 2, 2, true, true, 0, true, r.thorough() ? 3 : 2); }, false, 0, 60,
         16);
MC_SPACE("E06", "periods",
         "2 traders over 20 ticks in 4 monthly periods: every schedule with at most 2 (thorough 3) preemptions at callbacks",
         [](Run& r) {
           const bool fast = r.choose(2, "fast") == 0;
           Explore(r, 2, 20, true, fast, 1, false, r.thorough() ? 3 : 2);
         },
         false, 0, 60, 16);
MC_SPACE("E06", "sizes",
         "0-12, 16, 17, 33, 65, 129, 257, 513 and 1025 traders, with and without side input and fast mode, free-running",
         [](Run& r) {
           const int extra[] = {16, 17, 33, 65, 129, 257, 513, 1025};
           const int i = r.choose(21, "traders");
           const int n = i < 13 ? i : extra[i - 13];
           const bool side = r.choose(2, "side") == 0;
           BatchCase c;
           BuildCase(&c, n, 3, side, i % 2, 0, false);
           const auto got = EvaluateBatchOfTraders(c.account, c.eval, c.history, c.side.get(), c.emitters);
           r.step(n);
           r.state(n);
           const std::string e = CompareResults(c, got);
           if (!e.empty()) r.fail("%d traders: %s", n, e.c_str());
         },
         false, 0, 60, 16);
}  // namespace
