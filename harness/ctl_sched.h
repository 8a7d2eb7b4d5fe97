#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
// Controlled scheduler for code that starts its own threads. Threads identify
// themselves (task ids) in callbacks of the harness and park at every yield
// point; the controller (the explorer's thread) lets exactly one run at a time.
#include <dirent.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstring>
#include <map>
#include <mutex>
#include <string>
#include <vector>

#define NOINSTR __attribute__((no_instrument_function))

namespace sched {
struct Slot {
  int task = -1;
  const char* where = "";
  sem_t go;
};
struct Session {
  std::mutex mu;
  std::vector<Slot*> parked;
  std::atomic<bool> active{false};   // threads park
  std::atomic<bool> functions{false};  // also at function entries
  std::atomic<int> events{0};
  sem_t ctl;
};
inline Session& S() {
  static Session* s = [] {
    auto* x = new Session;
    sem_init(&x->ctl, 0, 0);
    return x;
  }();
  return *s;
}
inline thread_local int tls_task = -1;
inline thread_local bool tls_busy = false;

inline void Park(int task, const char* where) {
  Session& s = S();
  if (!s.active.load() || tls_busy) return;
  tls_busy = true;
  Slot slot;
  slot.task = task;
  slot.where = where;
  sem_init(&slot.go, 0, 0);
  bool wait = false;
  {
    std::lock_guard<std::mutex> l(s.mu);
    if (s.active.load()) {
      s.parked.push_back(&slot);
      wait = true;
    }
  }
  if (wait) {
    sem_post(&s.ctl);
    while (sem_wait(&slot.go) != 0) {
    }
  }
  sem_destroy(&slot.go);
  tls_busy = false;
}
// A yield point of the task.
inline void Yield(int task, const char* where) {
  tls_task = task;
  Park(task, where);
}

// True iff no thread other than the calling one ran between two scans and all of them sleep.
inline bool Scan(std::map<long, std::string>* out) {
  out->clear();
  const long self = syscall(SYS_gettid);
  DIR* d = opendir("/proc/self/task");
  if (d == nullptr) return false;
  bool sleeping = true;
  while (dirent* e = readdir(d)) {
    const long tid = atol(e->d_name);
    if (tid <= 0 || tid == self) continue;
    char path[64], buf[2048];
    std::snprintf(path, sizeof path, "/proc/self/task/%ld/status", tid);
    FILE* f = std::fopen(path, "r");
    if (f == nullptr) continue;  // just ended
    std::string sig;
    while (std::fgets(buf, sizeof buf, f)) {
      if (!std::strncmp(buf, "State:", 6)) {
        const char st = buf[7];
        if (st != 'S' && st != 'Z' && st != 'X') sleeping = false;
        sig += buf;
      } else if (std::strstr(buf, "ctxt_switches") != nullptr) {
        sig += buf;
      }
    }
    std::fclose(f);
    (*out)[tid] = sig;
  }
  closedir(d);
  return sleeping;
}
// Waits until all threads are parked, blocked or gone.
inline void Quiesce() {
  std::map<long, std::string> a, b;
  while (true) {
    if (Scan(&a) && Scan(&b) && a == b) return;
    timespec ts = {0, 20000};
    nanosleep(&ts, nullptr);
  }
}
inline bool WaitEvent(long usec) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  ts.tv_nsec += usec * 1000;
  ts.tv_sec += ts.tv_nsec / 1000000000;
  ts.tv_nsec %= 1000000000;
  return sem_timedwait(&S().ctl, &ts) == 0;
}
}  // namespace sched
#endif
