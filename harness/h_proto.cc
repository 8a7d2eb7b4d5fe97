// F01-F03: the delimited record files. Every stream chunking, callback
// decision, write fault, read fault, truncation and corruption is enumerated.
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <zlib.h>

#include <ext/stdio_filebuf.h>

#include <fstream>
#include <map>
#include <sstream>
#include <tuple>

#include "common.h"
#include "util/proto.h"

using namespace vt;

namespace {
// ------------------------------------------------------------ test data
std::vector<SideInputRecord> Records(int set, int n) {
  std::vector<SideInputRecord> v;
  for (int i = 0; i < n; ++i) {
    SideInputRecord s;
    switch (set) {
      case 0:  // small
        s.set_timestamp_sec(1500000000 + 300 * i);
        for (int k = 0; k < 1 + i % 3; ++k) s.add_signal(0.5f * i + k);
        break;
      case 1:  // empty records and large ones (length of several bytes)
        if (i % 2) {
          s.set_timestamp_sec(-1 - i);
          for (int k = 0; k < 40 + 7 * i; ++k) s.add_signal((float)(k * k));
        }
        break;
      default:  // incompressible
        s.set_timestamp_sec((int64_t)i * 2654435761LL);
        for (int k = 0; k < 3; ++k)
          s.add_signal(std::sin(1000.0f * (i * 3 + k)) * 1e6f);
    }
    v.push_back(s);
  }
  return v;
}
template <typename T>
bool SameRecords(const std::vector<T>& a, const std::vector<T>& b, size_t n) {
  for (size_t i = 0; i < n; ++i)
    if (a[i].SerializeAsString() != b[i].SerializeAsString()) return false;
  return true;
}
template <typename T>
std::string Encode(const std::vector<T>& v, bool compress) {
  std::ostringstream os;
  const absl::Status s = WriteDelimitedMessagesToOStream(v.begin(), v.end(), os, compress);
  if (!s.ok()) throw mc::Violation{"writing to a string failed: " + std::string(s.message())};
  return os.str();
}

// The test files, written once per process by the code under test.
struct File {
  std::vector<SideInputRecord> v;
  std::string data;
};
const File& Cached(int set, int n, bool compress) {
  static std::map<std::tuple<int, int, bool>, File> cache;
  auto it = cache.find({set, n, compress});
  if (it == cache.end()) {
    File f;
    f.v = Records(set, n);
    f.data = Encode(f.v, compress);
    it = cache.emplace(std::make_tuple(set, n, compress), f).first;
  }
  return it->second;
}

// Input stream buffer: delivers chunks; at `limit` it ends or fails.
class InBuf : public std::streambuf {
 public:
  InBuf(const std::string& d, size_t chunk, size_t limit, bool fail)
      : d_(d), chunk_(chunk), limit_(limit), fail_(fail) {}
  size_t chunk1 = 0;  // size of the first chunk (0: as the others)

 protected:
  int_type underflow() override {
    if (pos_ >= limit_) {
      if (fail_) throw std::runtime_error("read error");
      return traits_type::eof();
    }
    size_t n = pos_ == 0 && chunk1 ? chunk1 : chunk_;
    n = std::min({n, limit_ - pos_, d_.size() - pos_});
    if (n == 0) return traits_type::eof();
    char* p = const_cast<char*>(d_.data()) + pos_;
    setg(p, p, p + n);
    pos_ += n;
    return traits_type::to_int_type(*p);
  }

 private:
  const std::string& d_;
  size_t chunk_, limit_, pos_ = 0;
  bool fail_;
};
// Output stream buffer with its own buffer that accepts `limit` bytes.
class OutBuf : public std::streambuf {
 public:
  OutBuf(size_t buffer, size_t limit, int mode) : limit_(limit), mode_(mode), buf_(buffer) {
    if (buffer) setp(buf_.data(), buf_.data() + buffer);
  }
  std::string data;
  bool failed = false;

 protected:
  bool Out(const char* p, size_t n) {
    const size_t take = std::min(n, limit_ - data.size());
    data.append(p, take);
    if (take == n) return true;
    failed = true;
    if (mode_ == 1) throw std::runtime_error("write error");
    return false;
  }
  bool Drain() {
    const bool ok = Out(pbase(), pptr() - pbase());
    if (!buf_.empty()) setp(buf_.data(), buf_.data() + buf_.size());
    return ok;
  }
  int_type overflow(int_type c) override {
    if (!Drain()) return traits_type::eof();
    if (!traits_type::eq_int_type(c, traits_type::eof())) {
      char ch = traits_type::to_char_type(c);
      if (!Out(&ch, 1)) return traits_type::eof();
    }
    return traits_type::not_eof(c);
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    if (!buf_.empty()) return std::streambuf::xsputn(p, n);
    const size_t before = data.size();
    if (!Out(p, n)) return data.size() - before;
    return n;
  }
  int sync() override {
    if (!Drain()) return -1;
    if (mode_ == 2 && data.size() >= limit_) {  // only the final flush fails
      failed = true;
      return -1;
    }
    return 0;
  }

 private:
  size_t limit_;
  int mode_;
  std::vector<char> buf_;
};

// Scratch directory of one execution.
struct ScratchDir {
  std::string path;
  ScratchDir() {
    char t[] = "/tmp/mcproto.XXXXXX";
    const char* p = mkdtemp(t);
    if (p == nullptr) throw mc::Divergence{"mkdtemp"};
    path = p;
  }
  ~ScratchDir() {
    DIR* d = opendir(path.c_str());
    if (d) {
      while (dirent* e = readdir(d))
        if (e->d_name[0] != '.') {
          unlink((path + "/" + e->d_name).c_str());
          rmdir((path + "/" + e->d_name).c_str());
        }
      closedir(d);
    }
    rmdir(path.c_str());
  }
};
void Spill(const std::string& path, const std::string& data) {
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o << data;
}
std::string Slurp(const std::string& path) {
  std::ifstream i(path, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}

// What a gzip decoder can recover from the data.
struct Inflated {
  std::string raw;
  bool complete = false, error = false;
};
Inflated Inflate(const std::string& d) {
  Inflated x;
  z_stream z;
  std::memset(&z, 0, sizeof z);
  inflateInit2(&z, 15 + 32);
  z.next_in = (Bytef*)d.data();
  z.avail_in = d.size();
  char out[4096];
  int rc = Z_OK;
  do {
    z.next_out = (Bytef*)out;
    z.avail_out = sizeof out;
    rc = inflate(&z, Z_NO_FLUSH);
    x.raw.append(out, sizeof out - z.avail_out);
  } while (rc == Z_OK);
  x.complete = rc == Z_STREAM_END;
  x.error = rc < 0 && rc != Z_BUF_ERROR;
  inflateEnd(&z);
  return x;
}
// Splits raw bytes into length-delimited records. Returns true iff it ends at a
// record boundary with all records well formed.
template <typename T>
bool Split(const std::string& raw, std::vector<T>* out) {
  size_t i = 0;
  while (i < raw.size()) {
    uint64_t len = 0;
    int shift = 0;
    while (true) {
      if (i >= raw.size() || shift > 28) return false;
      const unsigned char c = raw[i++];
      len |= (uint64_t)(c & 127) << shift;
      shift += 7;
      if (!(c & 128)) break;
    }
    len &= 0xffffffff;  // the length is a 32-bit varint
    if (len > raw.size() - i) return false;
    T m;
    if (!m.ParseFromString(raw.substr(i, len))) return false;
    out->push_back(m);
    i += len;
  }
  return true;
}

// ------------------------------------------------------------------ F01
template <typename T>
void RoundTrip(Run& r, const std::vector<T>& v, bool compress, size_t chunk, size_t chunk1) {
  const std::string data = Encode(v, compress);
  InBuf buf(data, chunk, data.size(), false);
  buf.chunk1 = chunk1;
  std::istream is(&buf);
  std::vector<T> got;
  const absl::Status s = ReadDelimitedMessagesFromIStream(is, got);
  r.step((int)v.size() + 1);
  r.state(mc::HashStr(data, chunk * 31 + chunk1));
  if (!s.ok())
    r.fail("reading back %zu records (%s): %s", v.size(), compress ? "compressed" : "plain",
           std::string(s.message()).c_str());
  if (got.size() != v.size() || !SameRecords(got, v, v.size()))
    r.fail("%zu records read back, %zu written%s", got.size(), v.size(),
           got.size() == v.size() ? " (contents differ)" : "");
}
MC_SPACE("F01", "values",
         "all sequences of up to 3 price records over time {unset,0,1,-1,2^31,2^63-1} and price {unset,0,0.5,-inf}, "
         "compressed or not",
         [](Run& r) {
           const bool compress = r.choose(2, "compress");
           const int n = r.choose(r.thorough() ? 4 : 3, "n");
           std::vector<PriceRecord> v;
           const int64_t ts[] = {0, 0, 1, -1, 2147483648LL, 9223372036854775807LL};
           const float ps[] = {0, 0, 0.5f, -std::numeric_limits<float>::infinity()};
           for (int i = 0; i < n; ++i) {
             PriceRecord p;
             const int t = r.choose(6, "time"), q = r.choose(4, "price");
             if (t) p.set_timestamp_sec(ts[t]);
             if (q) p.set_price(ps[q]);
             v.push_back(p);
           }
           RoundTrip(r, v, compress, 1 << 20, 0);
         });
MC_SPACE("F01", "chunks",
         "3 kinds of records (small; empty and large; incompressible) x {0..6,40,700,5000} records, compressed or not, delivered in "
         "chunks of {1,2,3,5,7,8191,8192,8193,all} bytes",
         [](Run& r) {
           const size_t chunks[] = {1 << 24, 1, 2, 3, 5, 7, 8191, 8192, 8193};
           const int ns[] = {0, 1, 2, 3, 4, 5, 6, 40, 700, 5000};
           const int set = r.choose(3, "set");
           int n = ns[r.choose(10, "n")];
           if (set == 1) n = std::min(n, 120);
           const bool compress = r.choose(2, "compress");
           const size_t c = chunks[r.choose(9, "chunk")];
           r.say("set=%d n=%d compress=%d chunk=%zu", set, n, compress, c);
           RoundTrip(r, Records(set, n), compress, c, 0);
         });
MC_SPACE("F01", "splits",
         "the same data split in two chunks at every byte position (files up to 1500 bytes)",
         [](Run& r) {
           const int set = r.choose(3, "set");
           const bool compress = r.choose(2, "compress");
           const auto& v = Cached(set, set == 2 ? 40 : 6, compress).v;
           const size_t size = Cached(set, set == 2 ? 40 : 6, compress).data.size();
           if (size > 2500) r.fail("unexpectedly large file (%zu bytes)", size);
           const int at = 1 + r.choose((int)size, "split");
           RoundTrip(r, v, compress, 1 << 24, at);
         });
MC_SPACE("F01", "callback",
         "up to 5 (thorough 7) records, every sequence of callback answers {continue, stop, error}, chunk {1,all}",
         [](Run& r) {
           const bool compress = r.choose(2, "compress");
           const size_t chunk = r.choose(2, "chunk") ? 1 : 1 << 20;
           const auto v = Records(r.choose(2, "set"), r.choose(r.thorough() ? 8 : 6, "n"));
           const std::string data = Encode(v, compress);
           InBuf buf(data, chunk, data.size(), false);
           std::istream is(&buf);
           size_t calls = 0;
           int last = 0;
           bool bad = false;
           const absl::Status s = ReadDelimitedMessagesFromIStream<SideInputRecord>(
               is, [&](const SideInputRecord& m) -> ReaderStatus {
                 if (last || calls >= v.size() ||
                     m.SerializeAsString() != v[calls].SerializeAsString()) {
                   bad = true;
                   return ReaderSignal::kBreak;
                 }
                 ++calls;
                 r.step();
                 last = r.choose(3, "answer");
                 if (last == 1) return ReaderSignal::kBreak;
                 if (last == 2) return absl::InternalError("stop here");
                 return ReaderSignal::kContinue;
               });
           r.state(mc::Mix(calls * 3 + last, v.size()));
           if (bad) r.fail("the callback got a wrong record or was called again after it ended the reading");
           if (last == 2) {
             if (s.ok()) r.fail("the error of the callback is not reported");
             if (std::string(s.message()).find("stop here") == std::string::npos)
               r.fail("the error message of the callback is lost: %s", std::string(s.message()).c_str());
           } else {
             if (!s.ok()) r.fail("status %s", std::string(s.message()).c_str());
             if (last == 0 && calls != v.size()) r.fail("%zu of %zu records", calls, v.size());
           }
         });
MC_SPACE("F01", "counters", "70000 records of 2 kinds, compressed or not, delivered in chunks of {8192,all} bytes", [](Run& r) {
  const int set = r.choose(2, "set") ? 2 : 0;
  const bool compress = r.choose(2, "compress");
  const size_t chunk = r.choose(2, "chunk") ? 8192 : 1 << 26;
  RoundTrip(r, Records(set, 70000), compress, chunk, 0);
});
// The same record again and again.
class Repeat {
 public:
  Repeat(const SideInputRecord* s, int64_t n) : s_(s), n_(n) {}
  const SideInputRecord& operator*() const { return *s_; }
  const SideInputRecord* operator->() const { return s_; }
  Repeat& operator++() {
    ++n_;
    return *this;
  }
  Repeat operator++(int) { return Repeat(s_, n_++); }
  bool operator!=(const Repeat& o) const { return n_ != o.n_; }
  bool operator==(const Repeat& o) const { return n_ == o.n_; }
  using iterator_category = std::input_iterator_tag;
  using value_type = SideInputRecord;
  using difference_type = int64_t;
  using pointer = const SideInputRecord*;
  using reference = const SideInputRecord&;

 private:
  const SideInputRecord* s_;
  int64_t n_;
};
MC_SPACE("F01", "huge",
         "streams beyond 2^31 bytes: 560 records of 10^6 signals; 2 (thorough 27) records of 2*10^7 signals; compressed "
         "(constant signals) or not, written by another process through a pipe",
         [](Run& r) {
           const bool compress = r.choose(2, "compress");
           const bool large = r.choose(2, "large records");
           const int64_t n = large ? (r.thorough() ? 27 : 2) : 560;
           SideInputRecord s;
           s.set_timestamp_sec(1500000000);
           for (int i = 0; i < (large ? 20000000 : 1000000); ++i) s.add_signal(compress ? 0.5f : (float)(i % 7919));
           int fd[2];
           if (pipe(fd) != 0) throw mc::Divergence{"pipe"};
           const pid_t pid = fork();
           if (pid < 0) throw mc::Divergence{"fork"};
           if (pid == 0) {
             close(fd[0]);
             int rc = 1;
             {
               __gnu_cxx::stdio_filebuf<char> buf(fd[1], std::ios::out | std::ios::binary);
               std::ostream os(&buf);
               rc = WriteDelimitedMessagesToOStream(Repeat(&s, 0), Repeat(&s, n), os, compress).ok() ? 0 : 1;
             }
             _exit(rc);
           }
           close(fd[1]);
           int64_t got = 0, wrong = 0;
           const std::string want = s.SerializeAsString();
           std::string text;
           absl::Status status;
           {
             __gnu_cxx::stdio_filebuf<char> buf(fd[0], std::ios::in | std::ios::binary);
             std::istream is(&buf);
             status = ReadDelimitedMessagesFromIStream<SideInputRecord>(is, [&](const SideInputRecord& m) -> ReaderStatus {
               m.SerializeToString(&text);
               if (text != want) ++wrong;
               ++got;
               return ReaderSignal::kContinue;
             });
           }
           int rc = 0;
           if (waitpid(pid, &rc, 0) != pid) throw mc::Divergence{"waitpid"};
           r.step((int)n);
           r.state(mc::Mix(n, compress));
           if (rc != 0 && status.ok()) r.fail("cannot write %lld records of %zu bytes", (long long)n, want.size());
           if (!status.ok()) r.fail("after %lld of %lld records: %s", (long long)got, (long long)n, std::string(status.message()).c_str());
           if (got != n || wrong) r.fail("%lld records read (%lld wrong), %lld written", (long long)got, (long long)wrong, (long long)n);
         },
         false, 0, 300);
MC_SPACE("F01", "files",
         "files in a scratch directory: {0,1,6,700} records of 3 kinds written over a missing, shorter or longer file, and appended "
         "to an existing vector; missing directories are reported",
         [](Run& r) {
           ScratchDir d;
           const int ns[] = {0, 1, 6, 700};
           const auto v = Records(r.choose(3, "set"), ns[r.choose(4, "n")]);
           const bool compress = r.choose(2, "compress");
           const std::string f = d.path + "/x.dpb";
           const int old = r.choose(3, "old file");
           if (old) Spill(f, std::string(old == 1 ? 3 : 300000, 'x'));
           absl::Status s = WriteDelimitedMessagesToFile(v.begin(), v.end(), f, compress);
           if (!s.ok()) r.fail("cannot write: %s", std::string(s.message()).c_str());
           if (Slurp(f) != Encode(v, compress) && Inflate(Slurp(f)).raw != Inflate(Encode(v, compress)).raw)
             r.fail("the file differs from the stream");
           std::vector<SideInputRecord> got = Records(0, 2);
           s = ReadDelimitedMessagesFromFile(f, got);
           r.step(3);
           r.state(mc::Mix(v.size(), old * 2 + compress));
           if (!s.ok()) r.fail("cannot read: %s", std::string(s.message()).c_str());
           if (got.size() != v.size() + 2) r.fail("%zu records, expected 2+%zu", got.size(), v.size());
           got.erase(got.begin(), got.begin() + 2);
           if (!SameRecords(got, v, v.size())) r.fail("contents differ");
           if (WriteDelimitedMessagesToFile(v.begin(), v.end(), d.path + "/no/x", compress).ok())
             r.fail("writing into a missing directory succeeded");
           if (ReadDelimitedMessagesFromFile(d.path + "/no", got).ok())
             r.fail("reading a missing file succeeded");
         },
         false, 0, 30, 8);

// ------------------------------------------------------------------ F02
void CheckWrite(Run& r, const std::vector<SideInputRecord>& v, bool compress, size_t buffer,
                size_t limit, int mode, size_t size) {
  OutBuf buf(buffer, limit, mode);
  absl::Status s;
  {
    std::ostream os(&buf);
    s = WriteDelimitedMessagesToOStream(v.begin(), v.end(), os, compress);
  }
  r.step();
  r.state(mc::Mix(mc::Mix(limit, size), mode * 64 + buffer + compress));
  if (mode == 2) limit = size;  // all bytes are accepted, the flush fails
  if (buf.failed || limit < size || mode == 2) {
    r.cover("faults");
    if (s.ok())
      r.fail("write fault after %zu of %zu bytes (buffer %zu, mode %d) is not reported", limit, size,
             buffer, mode);
  } else if (!s.ok()) {
    r.fail("a complete write is reported as failed: %s", std::string(s.message()).c_str());
  }
  if (s.ok()) {
    std::vector<SideInputRecord> got;
    std::istringstream is(buf.data);
    if (!ReadDelimitedMessagesFromIStream(is, got).ok() || got.size() != v.size() ||
        !SameRecords(got, v, v.size()))
      r.fail("a successful write does not read back");
  }
}
MC_SPACE("F02", "small",
         "3 kinds of records x {0,1,6} records, compressed or not: output refused at every byte position, by a short write or an "
         "exception, or at the final flush; stream buffers of {0,1,16,8192} bytes",
         [](Run& r) {
           const int ns[] = {0, 1, 6};
           const int set = r.choose(3, "set"), n = ns[r.choose(3, "n")];
           const bool compress = r.choose(2, "compress");
           const auto& v = Cached(set, n, compress).v;
           const size_t bs[] = {0, 1, 16, 8192};
           const size_t buffer = bs[r.choose(4, "buffer")];
           const int mode = r.choose(3, "mode");
           const size_t size = Cached(set, n, compress).data.size();
           const size_t limit = mode == 2 ? size : r.choose((int)size + 2, "accepted bytes");
           CheckWrite(r, v, compress, buffer, limit, mode, size);
         });
MC_SPACE("F02", "large",
         "1500 (thorough 3000) incompressible records (several blocks): output refused at every 64th (thorough 8th) byte position, and at and "
         "around every 4 KiB boundary; stream buffers of {0,1000,8192} bytes",
         [](Run& r) {
           const int n = r.thorough() ? 3000 : 1500;
           const bool compress = r.choose(2, "compress");
           const auto& v = Cached(2, n, compress).v;
           const size_t bs[] = {0, 1000, 8192};
           const size_t buffer = bs[r.choose(3, "buffer")];
           const size_t size = Cached(2, n, compress).data.size();
           const size_t step = r.thorough() ? 8 : 64;
           std::vector<size_t> pos;
           for (size_t k = 0; k <= size; k += step) pos.push_back(k);
           for (size_t k = 4096; k <= size; k += 4096)
             for (int d = -1; d <= 1; ++d) pos.push_back(k + d);
           for (size_t k = size - 20; k <= size; ++k) pos.push_back(k);
           CheckWrite(r, v, compress, buffer, r.pick(pos, "accepted bytes"), 0, size);
         });
MC_SPACE("F02", "files",
         "real files with a size limit at every byte position (small files) and every 512 bytes (large ones), and the always "
         "full device",
         [](Run& r) {
           const bool large = r.choose(2, "large");
           const bool compress = r.choose(2, "compress");
           const File& file = large ? Cached(2, 1500, compress) : Cached(0, 6, compress);
           const auto& v = file.v;
           const size_t size = file.data.size();
           const int n = (int)(large ? size / 512 : size) + 3;
           const int k = r.choose(n, "size limit");
           ScratchDir d;
           r.step();
           r.state(mc::Mix(large, k * 2 + compress));
           if (k == n - 1) {
             struct stat st;
             if (stat("/dev/full", &st) != 0 || !S_ISCHR(st.st_mode)) r.prune();
             if (WriteDelimitedMessagesToFile(v.begin(), v.end(), "/dev/full", compress).ok())
               r.fail("writing %zu records to a full device succeeded", v.size());
             return;
           }
           const size_t limit = large ? (size_t)k * 512 : k;
           const std::string f = d.path + "/x";
           rlimit old, lim;
           getrlimit(RLIMIT_FSIZE, &old);
           lim = old;
           lim.rlim_cur = limit;
           signal(SIGXFSZ, SIG_IGN);
           setrlimit(RLIMIT_FSIZE, &lim);
           const absl::Status s = WriteDelimitedMessagesToFile(v.begin(), v.end(), f, compress);
           setrlimit(RLIMIT_FSIZE, &old);
           if (limit < size && s.ok())
             r.fail("a file limited to %zu of %zu bytes is reported as written", limit, size);
           if (limit >= size && !s.ok()) r.fail("%s", std::string(s.message()).c_str());
           if (s.ok()) {
             std::vector<SideInputRecord> got;
             if (!ReadDelimitedMessagesFromFile(f, got).ok() || got.size() != v.size() ||
                 !SameRecords(got, v, v.size()))
               r.fail("a successful write does not read back");
           }
         },
         false, 0, 30, 32);

// ------------------------------------------------------------------ F03
void CheckPrefix(Run& r, const std::vector<SideInputRecord>& got,
                 const std::vector<SideInputRecord>& v, const char* what, size_t k) {
  if (got.size() > v.size() || !SameRecords(got, v, got.size()))
    r.fail("%s at byte %zu: the %zu records handed out are no prefix of the file", what, k, got.size());
}
void CheckReadFault(Run& r, int set, int n, bool compress, bool fail, size_t chunk, size_t k) {
  const auto& v = Cached(set, n, compress).v;
  const std::string& data = Cached(set, n, compress).data;
  InBuf buf(data, chunk, k, fail);
  std::istream is(&buf);
  std::vector<SideInputRecord> got;
  const absl::Status s = ReadDelimitedMessagesFromIStream(is, got);
  r.step();
  r.state(mc::Mix(mc::Mix(k, set * 8 + fail * 2 + compress), mc::Mix(n, chunk)));
  CheckPrefix(r, got, v, fail ? "read error" : "truncation", k);
  if (k >= data.size()) {
    if (!fail && (!s.ok() || got.size() != v.size())) r.fail("a complete file is not read");
    return;
  }
  if (fail) {
    r.cover("read errors");
    if (s.ok())
      r.fail("read error at byte %zu of %zu is not reported (%zu of %zu records)", k, data.size(),
             got.size(), v.size());
    return;
  }
  std::vector<SideInputRecord> whole;
  if (!Split(Inflate(data.substr(0, k)).raw, &whole)) {
    r.cover("truncations within a record");
    if (s.ok())
      r.fail("truncation at byte %zu of %zu within a record is not reported (%zu of %zu records)", k,
             data.size(), got.size(), v.size());
  }
}
MC_SPACE("F03", "faults",
         "3 kinds of records x {0,1,6,40} records, compressed or not: read error or truncation at every byte position, chunks of "
         "{1,all} bytes",
         [](Run& r) {
           const int ns[] = {0, 1, 6, 40};
           const int set = r.choose(3, "set");
           const int n = ns[r.choose(4, "n")];
           const bool compress = r.choose(2, "compress");
           const size_t size = Cached(set, n, compress).data.size();
           const bool fail = r.choose(2, "fault") == 0;
           const size_t chunk = r.choose(2, "chunk") ? 1 : 1 << 20;
           CheckReadFault(r, set, n, compress, fail, chunk, r.choose((int)size + 1, "position"));
         });
MC_SPACE("F03", "large",
         "1500 (thorough 3000) incompressible records: read error or truncation at every 64th (thorough 8th) byte and around every 4 KiB boundary",
         [](Run& r) {
           const int n = r.thorough() ? 3000 : 1500;
           const bool compress = r.choose(2, "compress"), fail = r.choose(2, "fault") == 0;
           const size_t size = Cached(2, n, compress).data.size();
           std::vector<size_t> pos;
           for (size_t k = 0; k <= size; k += r.thorough() ? 8 : 64) pos.push_back(k);
           for (size_t k = 4096; k <= size; k += 4096)
             for (int d = -1; d <= 1; ++d) pos.push_back(k + d);
           for (size_t k = size - 20; k <= size; ++k) pos.push_back(k);
           CheckReadFault(r, 2, n, compress, fail, 1 << 20, r.pick(pos, "position"));
         });
MC_SPACE("F03", "corruption",
         "3 kinds of records x {0,1,6} records, compressed or not: every single bit flipped and every byte replaced by {0,0xff}",
         [](Run& r) {
           const int ns[] = {0, 1, 6};
           const int set = r.choose(3, "set"), n = ns[r.choose(3, "n")];
           const bool compress = r.choose(2, "compress");
           const auto& v = Cached(set, n, compress).v;
           std::string data = Cached(set, n, compress).data;
           const int pos = r.choose((int)data.size(), "position");
           const int how = r.choose(10, "change");
           const char before = data[pos];
           data[pos] = how < 8 ? before ^ (1 << how) : how == 8 ? 0 : (char)0xff;
           if (data[pos] == before) r.prune();
           std::istringstream is(data);
           std::vector<SideInputRecord> got;
           const absl::Status s = ReadDelimitedMessagesFromIStream(is, got);
           r.step();
           r.state(mc::HashStr(data));
           if (!s.ok()) {
             r.cover("reported");
             return;
           }
           // Only damage without any effect may go unnoticed (e.g. the header's time).
           r.cover("without effect");
           if (got.size() != v.size() || !SameRecords(got, v, v.size())) {
             const Inflated x = Inflate(data);
             std::vector<SideInputRecord> whole;
             if (!x.error && !x.complete && Split(x.raw, &whole)) return;  // as if truncated
             r.fail("change of byte %d of %zu is not reported: %zu of %zu records", pos, data.size(),
                    got.size(), v.size());
           }
         });
MC_SPACE("F03", "payloads",
         "all decompressed contents of up to 4 (thorough 5) bytes over {0,1,2,5,8,0x10,0x80,0xff}: exactly the well-formed records before the first "
         "malformed one are handed out, and malformed contents are reported",
         [](Run& r) {
           const unsigned char al[] = {0, 1, 2, 5, 8, 0x10, 0x80, 0xff};
           const int n = r.choose(r.thorough() ? 6 : 5, "size");
           std::string raw;
           for (int i = 0; i < n; ++i) raw.push_back((char)al[r.choose(8, "byte")]);
           // gzip with a stored block.
           std::string z("\x1f\x8b\x08\0\0\0\0\0\0\xff", 10);
           z += std::string("\x01", 1) + (char)n + '\0' + (char)~n + '\xff' + raw;
           const uint32_t crc = crc32(0, (const Bytef*)raw.data(), raw.size());
           for (int i = 0; i < 4; ++i) z.push_back((char)(crc >> (8 * i)));
           z += std::string(1, (char)n) + std::string(3, '\0');
           std::istringstream is(z);
           std::vector<PriceRecord> got, want;
           const absl::Status s = ReadDelimitedMessagesFromIStream(is, got);
           const bool ok = Split(raw, &want);
           r.step();
           r.state(mc::HashStr(raw));
           if (s.ok() != ok) r.fail("status %s for %s contents", s.ok() ? "ok" : "error", ok ? "well-formed" : "malformed");
           if (got.size() != want.size() || !SameRecords(got, want, got.size()))
             r.fail("%zu records, expected %zu", got.size(), want.size());
         });
MC_SPACE("F03", "garbage",
         "all files of 2 bytes that start neither a gzip nor a zlib stream, 3 text files, and a directory",
         [](Run& r) {
           const int c = r.choose(260, "first");
           std::vector<SideInputRecord> got;
           r.step();
           r.state(c);
           if (c >= 256) {
             ScratchDir d;
             const std::string f = d.path + "/x";
             const char* text[] = {"1483228800,1,2\n", "\n\n\n", "timestamp_sec: 5\n"};
             if (c == 259) {
               mkdir(f.c_str(), 0700);
             } else {
               Spill(f, text[c - 256]);
             }
             if (ReadDelimitedMessagesFromFile(f, got).ok() || !got.empty())
               r.fail("%s is read as %zu records", c == 259 ? "a directory" : "a text file", got.size());
             return;
           }
           for (int b = 0; b < 256; ++b) {
             if (c == 0x1f && b == 0x8b) continue;
             if ((c & 15) == 8 && (c * 256 + b) % 31 == 0) continue;
             std::istringstream is(std::string(1, (char)c) + (char)b);
             got.clear();
             if (ReadDelimitedMessagesFromIStream(is, got).ok() || !got.empty())
               r.fail("the bytes %02x %02x are read as %zu records", c, b, got.size());
             r.step();
           }
         });
}  // namespace
