#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <exception>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>

namespace pbt {
namespace {

constexpr size_t kMaxChoices = 1 << 18;
constexpr size_t kTextMax = 1 << 16;

double Now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

enum Status : int {
  kRunning = 0,
  kPassed = 1,
  kFailed = 2,
  kDiscarded = 3,
  kOverrun = 4,
};

// Shared with the parent so that a crash leaves the choices behind.
struct Slot {
  std::atomic<int> status;
  std::atomic<uint64_t> case_index;
  std::atomic<int> part;
  std::atomic<double> started;
  std::atomic<uint64_t> evaluations;
  std::atomic<uint64_t> discards;
  std::atomic<uint64_t> n;  // choices so far
  uint64_t choices[kMaxChoices];
  char message[kTextMax];
  char log[kTextMax];
};

// State of the case being run in this process.
struct Run {
  Slot* slot = nullptr;
  uint64_t rng = 0;
  bool replay = false;
  const std::vector<uint64_t>* input = nullptr;
  size_t pos = 0;
};
Run g_run;

std::string g_base_dir;

std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

int RmCb(const char* p, const struct stat*, int, struct FTW*) {
  return remove(p);
}
void RemoveTree(const std::string& dir) {
  if (dir.empty() || g_base_dir.empty() || dir.find(g_base_dir) != 0) return;
  nftw(dir.c_str(), RmCb, 16, FTW_DEPTH | FTW_PHYS);
}

// Runs one case in this process; returns its status and fills the slot.
Status RunOne(const Part& part, Slot* slot, Case* c) {
  slot->n.store(0);
  slot->message[0] = 0;
  slot->log[0] = 0;
  slot->started.store(Now());
  slot->status.store(kRunning);
  Src src;
  Status st = kPassed;
  std::string msg;
  try {
    part.fn(src, *c);
  } catch (const Failure& f) {
    st = kFailed;
    msg = f.message;
  } catch (const Discard&) {
    st = kDiscarded;
  } catch (const std::exception& e) {
    st = kFailed;
    msg = std::string("unexpected exception: ") + e.what();
  }
  std::string log = c->log.str();
  snprintf(slot->log, kTextMax, "%s", log.c_str());
  snprintf(slot->message, kTextMax, "%s", msg.c_str());
  if (!c->scratch_.empty()) RemoveTree(c->scratch_);
  slot->status.store(st);
  slot->started.store(0);
  return st;
}

Slot* NewSlot() {
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return new (p) Slot();
}

struct Outcome {
  bool failed = false;
  bool hang = false;
  bool discarded = false;
  std::string message;
  std::string log;
  std::vector<uint64_t> used;
};

std::string TailOfFile(const std::string& path, size_t max) {
  std::ifstream in(path, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string s = ss.str();
  if (s.size() > max) s = s.substr(0, max);
  return s;
}

void RedirectStderr(const std::string& path) {
  int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
}

// Runs a recorded choice list in a forked child.
Outcome RunForked(const Part& part, const std::vector<uint64_t>& input,
                  Slot* slot, double timeout) {
  std::string err = g_base_dir + "/child.err";
  slot->status.store(kRunning);
  slot->n.store(0);
  slot->message[0] = slot->log[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    RedirectStderr(err);
    g_run.slot = slot;
    g_run.replay = true;
    g_run.input = &input;
    g_run.pos = 0;
    Case c;
    Status st = RunOne(part, slot, &c);
    _exit(st == kFailed ? 1 : 0);
  }
  Outcome o;
  double deadline = Now() + timeout;
  int wst = 0;
  int sleep_us = 200;
  while (true) {
    pid_t r = waitpid(pid, &wst, WNOHANG);
    if (r == pid) break;
    if (Now() > deadline) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &wst, 0);
      o.failed = true;
      o.hang = true;
      o.message = "case did not finish";
      break;
    }
    usleep(sleep_us);
    sleep_us = std::min(sleep_us * 2, 5000);
  }
  kill(-pid, SIGKILL);
  size_t n = std::min<uint64_t>(slot->n.load(), kMaxChoices);
  o.used.assign(slot->choices, slot->choices + n);
  if (o.hang) return o;
  int st = slot->status.load();
  if (st == kFailed) {
    o.failed = true;
    o.message = slot->message;
    o.log = slot->log;
  } else if (st == kRunning || !WIFEXITED(wst) ||
             (WIFEXITED(wst) && WEXITSTATUS(wst) != 0)) {
    o.failed = true;
    std::ostringstream os;
    if (WIFSIGNALED(wst)) {
      os << "crashed with signal " << WTERMSIG(wst);
    } else {
      os << "exited unexpectedly with status " << WEXITSTATUS(wst);
    }
    os << "\n" << TailOfFile(err, 3000);
    o.message = os.str();
    o.log = slot->log;
  } else {
    o.discarded = st == kDiscarded;
    o.log = slot->log;
  }
  return o;
}

// Deterministic shrinking over the choice list.
std::vector<uint64_t> Shrink(const Part& part, std::vector<uint64_t> best,
                             Slot* slot, double per_case, double budget,
                             bool want_hang, int* tried) {
  double end = Now() + budget;
  auto fails = [&](const std::vector<uint64_t>& cand,
                   std::vector<uint64_t>* used) {
    ++*tried;
    Outcome o = RunForked(part, cand, slot, per_case);
    if (o.failed && o.hang == want_hang) {
      *used = o.used.size() < cand.size() ? o.used : cand;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && Now() < end && *tried < 4000) {
    progress = false;
    // Delete chunks.
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && Now() < end;) {
        std::vector<uint64_t> cand(best);
        cand.erase(cand.begin() + i, cand.begin() + i + len);
        std::vector<uint64_t> used;
        if (fails(cand, &used)) {
          best = used;
          progress = true;
        } else {
          i += std::max<size_t>(1, len);
        }
      }
      if (len == 1) break;
    }
    // Zero chunks.
    for (size_t len : {8, 4, 2}) {
      for (size_t i = 0; i + len <= best.size() && Now() < end; i += len) {
        bool all0 = true;
        for (size_t k = 0; k < len; ++k) all0 = all0 && best[i + k] == 0;
        if (all0) continue;
        std::vector<uint64_t> cand(best);
        std::fill(cand.begin() + i, cand.begin() + i + len, 0);
        std::vector<uint64_t> used;
        if (fails(cand, &used)) {
          best = used;
          progress = true;
        }
      }
    }
    // Lower single values (binary search).
    for (size_t i = 0; i < best.size() && Now() < end; ++i) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> cand(best), used;
      cand[i] = 0;
      if (fails(cand, &used)) {
        best = used;
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = best[i];
      while (hi - lo > 1 && Now() < end && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        cand = best;
        cand[i] = mid;
        if (fails(cand, &used)) {
          best = used;
          hi = mid;
          progress = true;
        } else {
          lo = mid;
        }
      }
    }
    // Also lower a length-like choice while deleting what follows it.
    for (size_t i = 0; i + 1 < best.size() && Now() < end; ++i) {
      if (best[i] == 0 || best[i] > 64) continue;
      for (size_t len : {1, 2, 3}) {
        if (i + 1 + len > best.size()) break;
        std::vector<uint64_t> cand(best), used;
        cand[i] -= 1;
        cand.erase(cand.begin() + i + 1, cand.begin() + i + 1 + len);
        if (fails(cand, &used)) {
          best = used;
          progress = true;
          break;
        }
      }
    }
  }
  return best;
}

struct WorkerReport {
  std::set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  uint64_t nontrivial = 0;
};

uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

void WriteReport(const WorkerReport& r, const std::string& path) {
  std::ofstream o(path, std::ios::binary);
  o << r.nontrivial << "\n" << r.distinct.size() << "\n";
  for (uint64_t d : r.distinct) o << d << "\n";
  o << r.labels.size() << "\n";
  for (auto& [k, v] : r.labels) o << v << " " << k << "\n";
  o << r.samples.size() << "\n";
  for (auto& s : r.samples) o << s.size() << "\n" << s << "\n";
}

bool ReadReport(const std::string& path, WorkerReport* r) {
  std::ifstream in(path, std::ios::binary);
  if (!in) return false;
  size_t n;
  uint64_t nt;
  in >> nt >> n;
  r->nontrivial += nt;
  for (size_t i = 0; i < n; ++i) {
    uint64_t d;
    in >> d;
    r->distinct.insert(d);
  }
  in >> n;
  for (size_t i = 0; i < n; ++i) {
    uint64_t v;
    std::string k;
    in >> v;
    in.get();
    std::getline(in, k);
    r->labels[k] += v;
  }
  in >> n;
  for (size_t i = 0; i < n; ++i) {
    size_t len;
    in >> len;
    in.get();
    std::string s(len, 0);
    in.read(s.data(), len);
    r->samples.push_back(s);
  }
  return true;
}

[[noreturn]] void Worker(const std::vector<Part>& parts,
                         const std::vector<int>& counts, int worker, int jobs,
                         uint64_t start, uint64_t seed, double deadline,
                         Slot* slot, const std::string& report_path,
                         const std::string& err_path) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  setpgid(0, 0);
  RedirectStderr(err_path);
  WorkerReport rep;
  uint64_t total = 0;
  for (int c : counts) total += c;
  g_run.slot = slot;
  g_run.replay = false;
  // Interleave the parts so that a time cap cuts all of them evenly.
  for (uint64_t i = start; i < total; i += jobs) {
    if (Now() > deadline) break;
    // Part by position: weighted round robin over a pseudo-random order.
    uint64_t r = Mix(i * 0x9e37 + 77) % total, acc = 0;
    int part = 0;
    for (size_t p = 0; p < parts.size(); ++p) {
      acc += counts[p];
      if (r < acc) {
        part = p;
        break;
      }
    }
    slot->case_index.store(i);
    slot->part.store(part);
    g_run.rng = Mix(Mix(seed) ^ Mix(i + 1));
    Case c;
    c.index = i;
    Status st = RunOne(parts[part], slot, &c);
    if (st == kFailed) {
      WriteReport(rep, report_path);
      _exit(1);
    }
    slot->evaluations.fetch_add(1);
    if (st == kDiscarded) {
      slot->discards.fetch_add(1);
      rep.labels["discarded"]++;
      continue;
    }
    for (auto& l : c.labels_) rep.labels[l]++;
    if (c.nontrivial_) {
      rep.nontrivial++;
      uint64_t h;
      if (!c.key_.empty()) {
        h = HashStr(c.key_);
      } else {
        h = 0;
        uint64_t n = slot->n.load();
        for (uint64_t k = 0; k < n && k < kMaxChoices; ++k)
          h = Mix(h ^ slot->choices[k]);
      }
      rep.distinct.insert(h ^ Mix(part));
      if (rep.samples.size() < 3) {
        std::string s = c.log.str();
        if (s.size() > 600) s = s.substr(0, 600) + "...";
        if (s.empty()) {
          std::ostringstream os;
          os << "choices:";
          for (uint64_t k = 0; k < std::min<uint64_t>(slot->n.load(), 24); ++k)
            os << " " << slot->choices[k];
          s = os.str();
        }
        rep.samples.push_back(std::string(parts[part].name) + ": " + s);
      }
    }
  }
  WriteReport(rep, report_path);
  _exit(0);
}

}  // namespace

void Fail(const std::string& message) { throw Failure{message}; }

uint64_t Src::draw(uint64_t n) {
  Run& r = g_run;
  uint64_t v;
  if (r.replay) {
    v = r.pos < r.input->size() ? (*r.input)[r.pos] : 0;
    if (n != 0 && v >= n) v = n - 1;
  } else {
    r.rng += 0x9e3779b97f4a7c15ull;
    v = Mix(r.rng);
    if (n != 0) {
      v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
    }
  }
  ++r.pos;
  uint64_t k = r.slot->n.load(std::memory_order_relaxed);
  if (k >= kMaxChoices) throw Discard{};
  r.slot->choices[k] = v;
  r.slot->n.store(k + 1, std::memory_order_relaxed);
  return v;
}

size_t Src::used() const { return g_run.slot->n.load(); }

int64_t Src::range(int64_t lo, int64_t hi) {
  return lo + static_cast<int64_t>(
                  draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1));
}
uint64_t Src::urange(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }

int64_t Src::small(int64_t lo, int64_t hi) {
  uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
  if (span == 0) return lo;
  // Pick a magnitude first so that small values dominate.
  int bits = 1;
  while (bits < 64 && (span >> bits) != 0) ++bits;
  uint64_t b = draw(bits + 1);
  if (b == 0) return lo;
  uint64_t cap = b >= 64 ? span : std::min<uint64_t>(span, (1ull << b) - 1);
  return lo + static_cast<int64_t>(draw(cap + 1));
}

bool Src::chance(int num, int den) {
  // 0 => false so that shrinking turns optional behaviour off.
  return draw(den) >= static_cast<uint64_t>(den - num);
}

int Src::weighted(std::initializer_list<int> w) {
  return weighted(std::vector<int>(w));
}
int Src::weighted(const std::vector<int>& w) {
  uint64_t total = 0;
  for (int x : w) total += x;
  uint64_t r = draw(total);
  for (size_t i = 0; i < w.size(); ++i) {
    if (r < static_cast<uint64_t>(w[i])) return i;
    r -= w[i];
  }
  return 0;
}

uint64_t Src::edgy(int bits) {
  uint64_t max = bits >= 64 ? ~0ull : (1ull << bits) - 1;
  uint64_t v;
  switch (weighted({4, 3, 3, 2})) {
    case 0:
      v = draw(17);
      break;
    case 1: {
      uint64_t b = draw(bits);
      v = (1ull << b) + draw(3) - 1;
      break;
    }
    case 2:
      v = draw(max == ~0ull ? 0 : max + 1);
      break;
    default:
      v = max - draw(3);
      break;
  }
  return v & max;
}

int64_t Src::edgy_signed() {
  uint64_t v = edgy(64);
  return static_cast<int64_t>(flip() ? ~v + 1 : v);
}

std::string Src::bytes(size_t max_len) {
  return fixed_bytes(small(0, max_len));
}
std::string Src::fixed_bytes(size_t len) {
  std::string s(len, 0);
  int mode = weighted({3, 1, 1});
  if (len > 48) {
    // Long strings come from a seed: they would swamp the choice list.
    uint64_t seed = draw(0);
    for (size_t i = 0; i < len; ++i) {
      if (mode == 1) {
        s[i] = static_cast<char>(seed & 0xff);
      } else if (mode == 2) {
        s[i] = "\x00\xff\x7f\x80"[Mix(seed + i) & 3];
      } else {
        s[i] = static_cast<char>(Mix(seed + i));
      }
    }
    return s;
  }
  for (size_t i = 0; i < len; ++i) {
    s[i] = mode == 2 ? "\x00\xff\x7f\x80"[draw(4)]
                     : static_cast<char>(draw(256));
  }
  return s;
}
std::string Src::str(size_t max_len, const std::string& alphabet) {
  std::string s(small(0, max_len), 0);
  for (char& c : s) c = alphabet[draw(alphabet.size())];
  return s;
}
std::string Src::ident(size_t max_len) {
  std::string s(small(1, max_len), 0);
  for (char& c : s) c = "abcdefghijklmnopqrstuvwxyz"[draw(26)];
  return s;
}

void Case::label(const std::string& name) { labels_.push_back(name); }

const std::string& Case::scratch() {
  if (scratch_.empty()) {
    std::string t = g_base_dir + "/case-XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (mkdtemp(b.data()) == nullptr) {
      perror("mkdtemp");
      _exit(3);
    }
    scratch_ = b.data();
  }
  return scratch_;
}

std::string Hex(const std::string& s, size_t max) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    o += d[(s[i] >> 4) & 15];
    o += d[s[i] & 15];
  }
  if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o;
}
std::string Quote(const std::string& s, size_t max) {
  return JsonStr(s.size() > max ? s.substr(0, max) + "..." : s);
}

int Main(int argc, char** argv, const char* id, const char* rule,
         const std::vector<Part>& parts, bool hang_is_violation, int jobs,
         int case_timeout_s) {
  uint64_t seed = 1;
  std::string tier = "quick", out, replay, replay_dir = ".", scratch = "/tmp";
  double time_cap = 240;
  double scale = 1;
  std::string only;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--tier") tier = next();
    else if (a == "--out") out = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replay-dir") replay_dir = next();
    else if (a == "--scratch") scratch = next();
    else if (a == "--time-cap") time_cap = atof(next().c_str());
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--scale") scale = atof(next().c_str());
    else if (a == "--part") only = next();
  }
  signal(SIGPIPE, SIG_IGN);
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  {
    std::string t = scratch + "/pbt-XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (mkdtemp(b.data()) == nullptr) {
      perror("mkdtemp");
      return 3;
    }
    g_base_dir = b.data();
  }
  struct Cleaner {
    ~Cleaner() { RemoveTree(g_base_dir); }
  } cleaner;

  Slot* shrink_slot = NewSlot();
  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line;
    int part = 0;
    std::vector<uint64_t> choices;
    while (std::getline(in, line)) {
      if (line.rfind("part ", 0) == 0) {
        std::string n = line.substr(5);
        for (size_t p = 0; p < parts.size(); ++p)
          if (n == parts[p].name) part = p;
      } else if (line.rfind("choices ", 0) == 0) {
        std::istringstream is(line.substr(8));
        uint64_t v;
        while (is >> v) choices.push_back(v);
      }
    }
    bool failed = false;
    for (int i = 0; i < 20 && !failed; ++i) {
      Outcome o = RunForked(parts[part], choices, shrink_slot, case_timeout_s * 2);
      if (o.failed && (!o.hang || hang_is_violation)) {
        failed = true;
        printf("%s\n--- history ---\n%s\n", o.message.c_str(), o.log.c_str());
      } else if (i == 0) {
        printf("--- history ---\n%s\n", o.log.c_str());
      }
    }
    printf(failed ? "REPLAY: fails\n" : "REPLAY: passes\n");
    return failed ? 1 : 0;
  }

  std::vector<int> counts;
  for (const Part& p : parts) {
    double n = (tier == "thorough" ? p.thorough_cases : p.quick_cases) * scale;
    if (!only.empty() && only != p.name) n = 0;
    counts.push_back(n < 0 ? 0 : static_cast<int>(n));
  }
  uint64_t total = 0;
  for (int c : counts) total += c;
  double t0 = Now();
  double deadline = t0 + time_cap;

  struct W {
    pid_t pid = 0;
    Slot* slot = nullptr;
    int gen = 0;
    std::vector<std::string> reports;
    std::string err;
    bool done = false;
  };
  std::vector<W> ws(jobs);
  auto spawn = [&](int w, uint64_t start) {
    W& x = ws[w];
    std::string rp = g_base_dir + "/rep-" + std::to_string(w) + "-" +
                     std::to_string(x.gen++);
    x.reports.push_back(rp);
    x.err = g_base_dir + "/err-" + std::to_string(w);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      Worker(parts, counts, w, jobs, start, seed, deadline, x.slot, rp, x.err);
    }
    x.pid = pid;
    x.done = false;
  };
  for (int w = 0; w < jobs; ++w) {
    ws[w].slot = NewSlot();
    spawn(w, w);
  }

  struct Found {
    bool any = false;
    int part = 0;
    bool hang = false;
    std::vector<uint64_t> choices;
    std::string message, log;
    uint64_t index = 0;
  };
  std::vector<Found> found, unstable;
  std::vector<std::string> inconclusive;
  int live = jobs;
  while (live > 0) {
    bool progressed = false;
    for (int w = 0; w < jobs; ++w) {
      W& x = ws[w];
      if (x.done) continue;
      int wst;
      pid_t r = waitpid(x.pid, &wst, WNOHANG);
      bool hang = false;
      if (r == 0) {
        double s = x.slot->started.load();
        if (s > 0 && Now() - s > case_timeout_s) {
          hang = true;
          kill(-x.pid, SIGKILL);
          kill(x.pid, SIGKILL);
          waitpid(x.pid, &wst, 0);
        } else {
          continue;
        }
      }
      progressed = true;
      kill(-x.pid, SIGKILL);
      if (!hang && WIFEXITED(wst) && WEXITSTATUS(wst) == 0 &&
          x.slot->status.load() != kRunning) {
        x.done = true;
        --live;
        continue;
      }
      if (!hang && WIFEXITED(wst) && WEXITSTATUS(wst) == 0 &&
          x.slot->evaluations.load() == 0 && x.slot->n.load() == 0) {
        x.done = true;  // nothing to do for this worker
        --live;
        continue;
      }
      Found f;
      f.any = true;
      f.hang = hang;
      f.part = x.slot->part.load();
      f.index = x.slot->case_index.load();
      size_t n = std::min<uint64_t>(x.slot->n.load(), kMaxChoices);
      f.choices.assign(x.slot->choices, x.slot->choices + n);
      if (x.slot->status.load() == kFailed) {
        f.message = x.slot->message;
        f.log = x.slot->log;
      } else {
        f.message = hang ? "case did not finish"
                         : "crashed\n" + TailOfFile(x.err, 3000);
      }
      x.done = true;
      --live;
      if (hang) {
        // Confirm: it must hang again, alone, with a doubled limit.
        Outcome o = RunForked(parts[f.part], f.choices, shrink_slot,
                              case_timeout_s * 2);
        if (o.failed && !o.hang) {
          f.hang = false;
          f.message = o.message;
          f.log = o.log;
        } else if (!o.hang || !hang_is_violation) {
          inconclusive.push_back("case " + std::to_string(f.index) +
                                 " exceeded its time limit");
          if (Now() < deadline && inconclusive.size() < 20) {
            spawn(w, f.index + jobs);
            ++live;
          }
          continue;
        }
      }
      if (!f.hang) {
        // A failure that does not come back is kept aside and the search goes
        // on; it is looked at again at the end.
        bool back = false;
        for (int i = 0; i < 3 && !back; ++i) {
          Outcome o = RunForked(parts[f.part], f.choices, shrink_slot,
                                case_timeout_s * 2);
          back = o.failed && !o.hang;
        }
        if (!back && unstable.size() < 12) {
          unstable.push_back(f);
          if (Now() < deadline) {
            spawn(w, f.index + jobs);
            ++live;
          }
          continue;
        }
      }
      found.push_back(f);
      // First failure wins: stop the other workers.
      for (W& y : ws) {
        if (!y.done) {
          kill(-y.pid, SIGKILL);
          kill(y.pid, SIGKILL);
          int st;
          waitpid(y.pid, &st, 0);
          y.done = true;
          --live;
        }
      }
      break;
    }
    if (!progressed) usleep(2000);
  }

  WorkerReport rep;
  uint64_t evals = 0, discards = 0;
  for (W& x : ws) {
    for (auto& p : x.reports) ReadReport(p, &rep);
    evals += x.slot->evaluations.load();
    discards += x.slot->discards.load();
  }

  bool violation = false;
  std::string replay_path, vmsg;
  if (found.empty()) found = unstable;
  for (size_t fi = 0; fi < found.size() && !violation; ++fi) {
    Found f = found[fi];
    double per_case = case_timeout_s * (f.hang ? 1.0 : 2.0);
    // Does the raw case fail again?
    int again = 0;
    Outcome raw;
    for (int i = 0; i < 3; ++i) {
      Outcome o = RunForked(parts[f.part], f.choices, shrink_slot, per_case);
      if (o.failed && o.hang == f.hang) {
        ++again;
        raw = o;
      }
    }
    std::vector<uint64_t> best = f.choices;
    int tried = 0;
    bool stable = again == 3;
    if (stable) {
      best = Shrink(parts[f.part], f.choices, shrink_slot,
                    f.hang ? case_timeout_s / 4.0 + 5 : per_case,
                    tier == "thorough" ? 180 : 45, f.hang, &tried);
      int ok = 0;
      for (int i = 0; i < 3; ++i) {
        Outcome o = RunForked(parts[f.part], best, shrink_slot, per_case);
        if (o.failed && o.hang == f.hang) {
          ++ok;
          raw = o;
        }
      }
      if (ok < 3) best = f.choices;
    } else {
      for (int i = 0; i < 40 && again < 3; ++i) {
        Outcome o = RunForked(parts[f.part], f.choices, shrink_slot, per_case);
        if (o.failed && o.hang == f.hang) {
          ++again;
          raw = o;
        }
      }
    }
    if (again >= 1) {
      violation = true;
      vmsg = raw.message.empty() ? f.message : raw.message;
      mkdir(replay_dir.c_str(), 0755);
      replay_path = replay_dir + "/" + id + "-seed" + std::to_string(seed) +
                    "-case" + std::to_string(f.index) + ".replay";
      std::ofstream o(replay_path);
      o << "property " << id << "\npart " << parts[f.part].name << "\nchoices";
      for (uint64_t v : best) o << " " << v;
      o << "\nfailure-begin\n" << vmsg << "\nfailure-end\nhistory-begin\n"
        << (raw.log.empty() ? f.log : raw.log) << "\nhistory-end\n";
      printf("FAILURE %s: %s\n", id, vmsg.c_str());
      printf("--- shrunk history (%zu choices, %d candidates) ---\n%s\n",
             best.size(), tried, raw.log.c_str());
    } else {
      inconclusive.push_back("case " + std::to_string(f.index) +
                             " failed once and never again: " + f.message);
      printf("NOT REPRODUCED: %s\n%s\n", f.message.c_str(), f.log.c_str());
    }
  }

  double wall = Now() - t0;
  if (!out.empty()) {
    std::ofstream o(out);
    o << "{\"id\":" << JsonStr(id) << ",\"evaluations\":" << evals
      << ",\"planned\":" << total << ",\"discarded\":" << discards
      << ",\"nontrivial\":" << rep.nontrivial
      << ",\"distinct_nontrivial\":" << rep.distinct.size()
      << ",\"rule\":" << JsonStr(rule) << ",\"wall_s\":" << wall
      << ",\"violation\":" << (violation ? "true" : "false")
      << ",\"replay\":" << JsonStr(replay_path)
      << ",\"message\":" << JsonStr(vmsg) << ",\"labels\":{";
    bool first = true;
    for (auto& [k, v] : rep.labels) {
      o << (first ? "" : ",") << JsonStr(k) << ":" << v;
      first = false;
    }
    o << "},\"samples\":[";
    first = true;
    int left = 8;
    for (auto& s : rep.samples) {
      if (left-- == 0) break;
      o << (first ? "" : ",") << JsonStr(s);
      first = false;
    }
    o << "],\"inconclusive\":[";
    first = true;
    for (auto& s : inconclusive) {
      o << (first ? "" : ",") << JsonStr(s);
      first = false;
    }
    o << "]}\n";
  }
  printf("%s: %llu cases (%llu planned), %zu distinct non-trivial, %.1f s\n", id,
         (unsigned long long)evals, (unsigned long long)total,
         rep.distinct.size(), wall);
  if (getenv("PBT_VERBOSE")) {
    for (auto& [k, v] : rep.labels)
      printf("  %8llu %s\n", (unsigned long long)v, k.c_str());
    for (size_t si = 0; si < rep.samples.size() && si < 6; ++si) { auto& s = rep.samples[si]; printf("  sample: %s\n", s.c_str()); }
    for (auto& s : inconclusive) printf("  inconclusive: %s\n", s.c_str());
  }
  return violation ? 1 : 0;
}

}  // namespace pbt
