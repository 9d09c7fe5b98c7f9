// LIBS: fcp_client
// C03: the operation-history store against a model of its committed entries.
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <sstream>
#include <thread>

#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "client_fakes.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"
#include "pbt/pbt.h"

static int64_t g_now = 1700000000;

// The store reads the system clock; both routes are replaced here.
extern "C" time_t time(time_t* t) {
  if (t) *t = g_now;
  return g_now;
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
  tv->tv_sec = g_now;
  tv->tv_usec = 0;
  return 0;
}
namespace absl {
ABSL_NAMESPACE_BEGIN
Time Now() { return FromUnixSeconds(g_now); }
ABSL_NAMESPACE_END
}  // namespace absl

namespace {
namespace fs = std::filesystem;
using fcp::client::opstats::OperationalStats;
using fcp::client::opstats::OpStatsDb;
using fcp::client::opstats::OpStatsSequence;
using fcp::client::opstats::PdsBackedOpStatsDb;

struct World {
  pbt::Src& s;
  pbt::Case& c;
  fakes::Log log;
  std::string base;
  int64_t ttl = 1000, limit = 1 << 20;
  std::unique_ptr<OpStatsDb> db;
  OpStatsSequence model;
  bool damaged = false;   // the file is unreadable
  bool monotone = true;   // no clock jumps, no entries without events
  int64_t dropped = 0;    // latest event among everything ever dropped
  int64_t latest = 0;     // latest event of any entry
  int serial = 0, prunes = 0, resets = 0, expirations = 0, commits = 0;

  World(pbt::Src& s, pbt::Case& c) : s(s), c(c), base(c.scratch() + "/base") {
    fs::create_directories(base);
    g_now = 1700000000;
  }
  ~World() { protostore::fault_hook() = nullptr; }

  static int64_t Last(const OperationalStats& o) {
    for (int i = o.phase_stats_size() - 1; i >= 0; --i)
      if (o.phase_stats(i).events_size())
        return o.phase_stats(i).events(o.phase_stats(i).events_size() - 1).timestamp().seconds();
    if (o.events_size()) return o.events(o.events_size() - 1).timestamp().seconds();
    return -1;
  }
  void Dropping(const OperationalStats& o) { dropped = std::max(dropped, Last(o)); }
  void SetNow() {
    model.mutable_earliest_trustworthy_time()->set_seconds(g_now);
    model.mutable_earliest_trustworthy_time()->set_nanos(0);
  }
  void Reset() {
    for (auto& o : model.opstats()) Dropping(o);
    model.Clear();
    SetNow();
    damaged = false;
    ++resets;
  }

  void Open(bool fault = false) {
    db.reset();
    if (fault) {
      // The first access fails; nothing may stay locked.
      fs::remove_all(base + "/fcp");
      Forget();
      int at = s.range(0, 1);
      protostore::fault_hook() = [at](const char* op, const std::string&) {
        return (std::string(op) == (at ? "write" : "size")) ? absl::InternalError("fault")
                                                            : absl::OkStatus();
      };
      auto r = PdsBackedOpStatsDb::Create(base, absl::Seconds(ttl), log, limit);
      protostore::fault_hook() = nullptr;
      PBT_CHECK(!r.ok(), "opened although its storage failed");
      c.log << " open-fault";
    }
    bool fresh = !fs::exists(File()) || fs::file_size(File()) == 0;
    auto r = PdsBackedOpStatsDb::Create(base, absl::Seconds(ttl), log, limit);
    PBT_CHECK(r.ok(), "cannot open: " << r.status());
    db = std::move(*r);
    if (fresh) {
      model.Clear();
      SetNow();
      damaged = false;
    }
  }
  std::string File() { return base + "/fcp/opstats/opstats.pb"; }
  void Forget() {
    for (auto& o : model.opstats()) Dropping(o);
    model.Clear();
  }

  OperationalStats Entry() {
    OperationalStats o;
    o.set_session_name("s" + std::to_string(++serial));
    if (s.chance(1, 3)) o.set_population_name(s.str(20, "pq/"));
    int64_t t = g_now - s.range(0, 3), before = latest ? latest : g_now - 3 * ttl;
    t = latest = std::max(latest, t);
    switch (s.weighted({3, 3, 2, 1})) {
      case 0:  // the current form: events in phases
        for (int p = 0, n = s.range(1, 3); p < n; ++p) {
          auto* ph = o.add_phase_stats();
          ph->set_phase(static_cast<OperationalStats::PhaseStats::Phase>(s.range(1, 6)));
          for (int i = 0, k = s.range(p ? 0 : 1, 2); i < k; ++i)
            ph->add_events()->mutable_timestamp()->set_seconds(t);
        }
        break;
      case 1:  // the older form
        for (int i = 0, k = s.range(1, 3); i < k; ++i)
          o.add_events()->mutable_timestamp()->set_seconds(t);
        break;
      case 2:  // both
        o.add_events()->mutable_timestamp()->set_seconds(t);
        o.add_phase_stats()->add_events()->mutable_timestamp()->set_seconds(t);
        break;
      default:
        if (s.chance(1, 2)) {
          o.add_phase_stats();
          monotone = false;
        } else {
          o.add_events()->mutable_timestamp()->set_seconds(t);
        }
    }
    // A run takes a while, but begins after the one before it.
    std::vector<google::protobuf::Timestamp*> at;
    for (auto& e : *o.mutable_events()) at.push_back(e.mutable_timestamp());
    for (auto& p : *o.mutable_phase_stats())
      for (auto& e : *p.mutable_events()) at.push_back(e.mutable_timestamp());
    for (int i = static_cast<int>(at.size()) - 2; i >= 0; --i)
      at[i]->set_seconds(std::max(
          std::min(before, at[i + 1]->seconds()),
          at[i + 1]->seconds() -
              (s.chance(1, 2) ? 0 : s.chance(1, 2) ? s.range(0, 5) : s.range(0, 2 * ttl))));
    if (s.chance(1, 4)) o.set_task_name(std::string(s.range(0, 300), 't'));
    return o;
  }

  void Expect(const OpStatsSequence& got, const char* when) {
    PBT_EQ(got.opstats_size(), model.opstats_size(), "number of entries " << when);
    for (int i = 0; i < got.opstats_size(); ++i)
      PBT_EQ(got.opstats(i).SerializeAsString(), model.opstats(i).SerializeAsString(),
             "entry " << i << " (" << model.opstats(i).session_name() << ") " << when);
  }

  void CheckTrust(const OpStatsSequence& got, bool changed, const char* when) {
    PBT_CHECK(got.has_earliest_trustworthy_time(), "no trustworthy time " << when);
    int64_t t = got.earliest_trustworthy_time().seconds();
    if (!changed) {
      PBT_EQ(t, model.earliest_trustworthy_time().seconds(), "trustworthy time " << when);
    }
    if (monotone) {
      PBT_CHECK(t >= dropped, "history claimed complete since " << t - 1700000000
                                  << " but an entry of " << dropped - 1700000000
                                  << " was dropped, " << when);
      PBT_CHECK(t <= g_now, "trustworthy time in the future " << when);
    }
    *model.mutable_earliest_trustworthy_time() = got.earliest_trustworthy_time();
  }

  // 0 none, 1 reading fails, 2 writing fails, 3 both
  void SetFault(int kind) {
    if (!kind) return;
    auto left = std::make_shared<int>(1);
    protostore::fault_hook() = [kind, left](const char* op, const std::string&) {
      std::string o = op;
      if (o == "read" && (kind & 1) && (*left)-- > 0) return absl::InternalError("read fault");
      if (o == "write" && (kind & 2)) return absl::InternalError("write fault");
      return absl::OkStatus();
    };
    c.log << " fault" << kind;
  }

  void Read(int fault) {
    c.log << " read";
    SetFault(fault);
    auto r = db->Read();
    protostore::fault_hook() = nullptr;
    bool unreadable = damaged || (fault & 1);
    if (unreadable) {
      PBT_CHECK(!r.ok(), "unreadable storage was read");
      if (!(fault & 2)) Reset();
      return;
    }
    PBT_CHECK(r.ok(), "read fails: " << r.status());
    Expect(*r, "in a read");
    CheckTrust(*r, false, "in a read");
  }

  void Commit(int fault) {
    std::vector<std::function<void(OpStatsSequence&)>> edits;
    int n = s.range(0, 3);
    for (int i = 0; i < n; ++i) {
      if (s.chance(3, 4)) {
        auto e = Entry();
        c.log << " add(" << e.session_name() << "@" << Last(e) - 1700000000 << ","
              << e.ByteSizeLong() << ")";
        edits.push_back([e](OpStatsSequence& d) { *d.add_opstats() = e; });
      } else {
        int64_t t = latest = std::max(latest, g_now);
        c.log << " extend";
        edits.push_back([t](OpStatsSequence& d) {
          if (!d.opstats_size()) return;
          auto* o = d.mutable_opstats(d.opstats_size() - 1);
          auto* p = o->phase_stats_size() && o->phase_stats_size() % 2
                        ? o->mutable_phase_stats(o->phase_stats_size() - 1)
                        : o->add_phase_stats();
          p->add_events()->mutable_timestamp()->set_seconds(t);
        });
      }
    }
    c.log << " commit";
    SetFault(fault);
    int calls = 0;
    auto st = db->Transform([&](OpStatsSequence& d) {
      ++calls;
      for (auto& e : edits) e(d);
    });
    protostore::fault_hook() = nullptr;
    bool unreadable = damaged || (fault & 1);
    if (fault & 2) {
      PBT_CHECK(!st.ok(), "update succeeded although nothing could be written");
      if (unreadable) PBT_EQ(calls, 0, "update applied after a failed reset");
      return;  // nothing changes
    }
    PBT_CHECK(st.ok(), "update fails: " << st);
    PBT_EQ(calls, 1, "number of times the update was applied");
    ++commits;
    bool changed = unreadable;
    if (unreadable) {
      Reset();
    } else {
      OpStatsSequence kept;
      for (auto& o : model.opstats()) {
        if (Last(o) < g_now - ttl) {
          Dropping(o);
          changed = true;
          ++expirations;
        } else {
          *kept.add_opstats() = o;
        }
      }
      *model.mutable_opstats() = kept.opstats();
    }
    for (auto& e : edits) e(model);
    auto r = db->Read();
    PBT_CHECK(r.ok(), "read after a commit fails: " << r.status());
    // The newest entries that fit are kept.
    int gone = model.opstats_size() - r->opstats_size();
    PBT_CHECK(gone >= 0, "entries appeared from nowhere");
    OpStatsSequence all = model;
    *all.mutable_earliest_trustworthy_time() = r->earliest_trustworthy_time();
    int64_t size = all.ByteSizeLong(), conservative = size;
    int most = 0;
    while (conservative > limit && most < all.opstats_size())
      conservative -= all.opstats(most++).ByteSizeLong();
    // One more entry may go when the time itself takes a few bytes.
    int slack = std::abs(size - limit) < 24 || std::abs(conservative - limit) < 24 ? 1 : 0;
    PBT_CHECK(gone <= most + slack, gone << " entries were dropped to fit " << limit
                                         << " bytes, " << most << " would do");
    // After a reset the time is filled in last and may add its own few bytes.
    OpStatsSequence measured = *r;
    if (unreadable) measured.clear_earliest_trustworthy_time();
    PBT_CHECK(r->opstats_size() == 0 || static_cast<int64_t>(measured.ByteSizeLong()) <= limit,
              "history of " << measured.ByteSizeLong() << " bytes kept, limit " << limit);
    for (int i = 0; i < gone; ++i) {
      Dropping(model.opstats(i));
      changed = true;
      ++prunes;
    }
    model.mutable_opstats()->DeleteSubrange(0, gone);
    Expect(*r, "after a commit");
    CheckTrust(*r, changed, "after a commit");
  }

  void OpenTwice() {
    std::string alias = c.scratch() + "/alias";
    if (!fs::exists(alias)) fs::create_directory_symlink(base, alias);
    std::string where = s.pick(std::vector<std::string>{base, base + "/", base + "/.", alias});
    if (s.chance(1, 3)) {
      pid_t pid = fork();
      if (pid == 0) {
        auto r = PdsBackedOpStatsDb::Create(where, absl::Seconds(ttl), log, limit);
        _exit(r.ok() ? 9 : 0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "another process opened the same store");
      c.log << " other-process";
    } else {
      auto r = PdsBackedOpStatsDb::Create(where, absl::Seconds(ttl), log, limit);
      PBT_CHECK(!r.ok(), "the same store was opened twice");
      c.log << " open-twice";
    }
    if (s.chance(1, 4)) HeldElsewhere();
    // An unrelated store is not affected.
    auto r = PdsBackedOpStatsDb::Create(c.scratch() + "/unrelated", absl::Seconds(ttl), log, limit);
    PBT_CHECK(r.ok(), "an unrelated store cannot be opened: " << r.status());
  }

  // Another process has the store: it cannot be opened until that one is gone.
  void HeldElsewhere() {
    int up[2], down[2];
    PBT_CHECK(pipe(up) == 0 && pipe(down) == 0, "pipe");
    db.reset();
    pid_t pid = fork();
    if (pid == 0) {
      close(down[1]);
      auto r = PdsBackedOpStatsDb::Create(base, absl::Seconds(ttl), log, limit);
      char b = r.ok() ? 'y' : 'n';
      (void)!write(up[1], &b, 1);
      (void)!read(down[0], &b, 1);
      _exit(0);
    }
    close(up[1]);
    close(down[0]);
    char b = 0;
    bool told = read(up[0], &b, 1) == 1;
    bool refused = !PdsBackedOpStatsDb::Create(base, absl::Seconds(ttl), log, limit).ok();
    close(down[1]);
    close(up[0]);
    waitpid(pid, nullptr, 0);
    PBT_CHECK(told && b == 'y', "another process cannot open a closed store");
    PBT_CHECK(refused, "opened while another process has it");
    c.log << " held-elsewhere";
    c.label("held by another process");
    Open(false);
  }

  void Damage() {
    db.reset();
    std::string d;
    {
      std::ifstream in(File(), std::ios::binary);
      std::stringstream ss;
      ss << in.rdbuf();
      d = ss.str();
    }
    if (d.empty()) return;
    switch (s.weighted({2, 2, 1, 1})) {
      case 0:
        d[s.urange(0, d.size() - 1)] ^= static_cast<char>(s.range(1, 255));
        break;
      case 1:
        d.resize(s.urange(0, d.size() - 1));
        break;
      case 2:
        d = "not a proto";
        break;
      default:
        d.clear();
    }
    std::ofstream(File(), std::ios::binary | std::ios::trunc) << d;
    if (d.empty()) {
      Forget();
    } else {
      damaged = true;
    }
    c.log << " damage";
    Open();
  }
};

void Histories(pbt::Src& s, pbt::Case& c) {
  World w(s, c);
  w.ttl = s.pick(std::vector<int64_t>{5, 50, 1000});
  w.limit = s.pick(std::vector<int64_t>{60, 150, 600, 1 << 20});
  w.Open();
  bool jumps = s.chance(1, 5);
  int n = s.range(3, 25);
  for (int i = 0; i < n; ++i) {
    if (jumps && s.chance(1, 4)) {
      g_now += s.range(-3000, 3000);
      w.latest = 0;
      w.monotone = false;
    } else {
      g_now += s.weighted({3, 3, 1}) == 0 ? 0 : s.range(0, w.ttl);
    }
    c.log << " t" << g_now - 1700000000;
    int fault = s.chance(1, 8) ? s.range(1, 3) : 0;
    switch (s.weighted({8, 4, 2, 1, 1, 1})) {
      case 0:
        w.Commit(fault);
        break;
      case 1:
        w.Read(fault);
        break;
      case 2:
        if (s.chance(1, 3)) {
          w.ttl = s.pick(std::vector<int64_t>{5, 50, 1000});
          w.limit = s.pick(std::vector<int64_t>{60, 150, 600, 1 << 20});
        }
        c.log << " reopen";
        w.Open();
        break;
      case 3:
        w.OpenTwice();
        break;
      case 4:
        w.Damage();
        break;
      default:
        if (s.chance(1, 3)) w.Open(true);
    }
  }
  // Whatever happened: one failing read at most, then it works.
  if (w.damaged) w.Read(0);
  w.Read(0);
  w.Commit(0);
  w.Read(0);
  if (w.prunes) c.label("size limit");
  if (w.expirations) c.label("age limit");
  if (w.resets) c.label("resets");
  c.nontrivial(w.commits >= 2 && (w.prunes || w.expirations || w.resets));
}

// Updates from several threads are all kept.
void Threads(pbt::Src& s, pbt::Case& c) {
  World w(s, c);
  w.ttl = 1000;
  w.Open();
  int threads = s.range(2, 4), each = s.range(2, 12);
  std::vector<std::thread> ts;
  std::atomic<int> bad{0};
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      for (int i = 0; i < each; ++i) {
        auto st = w.db->Transform([&](OpStatsSequence& d) {
          auto* o = d.add_opstats();
          o->set_session_name(std::to_string(t) + "/" + std::to_string(i));
          o->add_events()->mutable_timestamp()->set_seconds(g_now);
        });
        if (!st.ok() || !w.db->Read().ok()) ++bad;
      }
    });
  for (auto& t : ts) t.join();
  PBT_EQ(bad.load(), 0, "failed updates");
  auto r = w.db->Read();
  PBT_CHECK(r.ok(), "read");
  PBT_EQ(r->opstats_size(), threads * each, "entries kept");
  std::vector<int> next(threads, 0);
  for (auto& o : r->opstats()) {
    int t, i;
    sscanf(o.session_name().c_str(), "%d/%d", &t, &i);
    PBT_EQ(i, next[t]++, "order of the entries of one thread");
  }
  c.nontrivial(true);
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "C03",
      "histories of up to 25 commits, reads, reopenings, second openings, clock "
      "moves, read/write faults and damaged files under age limits 5-1000 s and "
      "size limits from 60 bytes; non-trivial when two commits succeeded and "
      "entries were dropped by age, size or reset",
      {{"histories", Histories, 8000, 250000}, {"threads", Threads, 60, 2000}});
}
