// LIBS: fcp_client
// C01: the resource cache returns exactly what was stored, within its limits.
#define VERIF_FSFAULT_DEFINE
#include "fsfault.h"

#include <sys/wait.h>

#include <filesystem>
#include <fstream>
#include <sstream>
#include <thread>

#include "absl/strings/cord.h"
#include "client_fakes.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/client/cache/file_backed_resource_cache.h"
#include "google/protobuf/wrappers.pb.h"
#include "pbt/pbt.h"

namespace {
namespace fs = std::filesystem;
using fcp::client::cache::FileBackedResourceCache;

struct Val {
  std::string bytes, meta;
  bool operator==(const Val& o) const { return bytes == o.bytes && meta == o.meta; }
};
struct Ent {
  bool sure = true;
  std::vector<Val> ok;  // the last one is the most recent
  absl::Time access, expiry;
};

std::string Slurp(const fs::path& p) {
  std::ifstream in(p, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

google::protobuf::Any MetaAny(const std::string& s) {
  google::protobuf::StringValue v;
  v.set_value(s);
  google::protobuf::Any a;
  a.PackFrom(v);
  return a;
}

absl::Cord ToCord(const std::string& b, int pieces) {
  absl::Cord c;
  size_t at = 0;
  for (int i = 0; i < pieces; ++i) {
    size_t n = i + 1 == pieces ? b.size() - at : b.size() / pieces;
    absl::Cord part(b.substr(at, n));
    c.Append(part);
    at += n;
  }
  return c;
}

struct World {
  pbt::Src& s;
  pbt::Case& c;
  fakes::Log log;
  fcp::SimulatedClock clock{absl::FromUnixSeconds(1600000000)};
  std::string base, dir;
  int64_t max = 0;
  std::unique_ptr<FileBackedResourceCache> cache;
  std::map<std::string, Ent> ents;
  bool exact = true;
  int serial = 0, hits = 0, evictions = 0, faults = 0, restarts = 0;

  World(pbt::Src& s, pbt::Case& c) : s(s), c(c) {
    base = c.scratch() + "/top/root/base";
    dir = c.scratch() + "/top/root/cache";
    fs::create_directories(base);
    fs::create_directories(dir);
  }

  void Tick() {
    clock.AdvanceTime(s.chance(1, 6) ? absl::Seconds(s.range(1, 120))
                                     : absl::Milliseconds(s.range(1, 900)));
  }
  uint64_t Disk() {
    uint64_t n = 0;
    for (auto& e : fs::recursive_directory_iterator(dir))
      if (e.is_regular_file()) n += e.file_size();
    return n;
  }
  uint64_t Sum() {
    uint64_t n = 0;
    for (auto& [k, e] : ents) n += e.ok.back().bytes.size();
    return n;
  }
  void Unsure() {
    exact = false;
    for (auto& [k, e] : ents) e.sure = false;
  }
  // What tidying up removes before `need` more bytes are stored.
  void Tidy(uint64_t need, const std::string& key) {
    if (!exact) {
      uint64_t most = need;
      for (auto& [k, e] : ents) {
        size_t n = 0;
        for (auto& o : e.ok) n = std::max(n, o.bytes.size());
        most += n;
        if (e.expiry < clock.Now()) e.sure = false;
      }
      if (most >= static_cast<uint64_t>(max)) Unsure();
      return;
    }
    for (auto i = ents.begin(); i != ents.end();)
      i = i->second.expiry < clock.Now() ? ents.erase(i) : std::next(i);
    uint64_t total = Sum();
    int64_t allowed = max - static_cast<int64_t>(need);
    if (static_cast<int64_t>(total) <= allowed) return;
    // Replacing a key may or may not count the old bytes as freed.
    uint64_t old = ents.count(key) ? ents[key].ok.back().bytes.size() : 0;
    std::vector<std::pair<absl::Time, std::string>> lru;
    for (auto& [k, e] : ents) lru.push_back({e.access, k});
    std::sort(lru.begin(), lru.end());
    for (auto& [t, k] : lru) {
      if (static_cast<int64_t>(total) < allowed) break;
      uint64_t size = ents[k].ok.back().bytes.size();
      bool needed = static_cast<int64_t>(total - old) > allowed;
      if (needed) {
        ents.erase(k);
        ++evictions;
      } else {
        ents[k].sure = false;
        exact = false;
      }
      if (k == key) old = 0;
      total -= size;
    }
  }
  void CheckDisk(const char* when) {
    uint64_t used = Disk();
    if (exact) {
      PBT_EQ(used, Sum(), "bytes kept on disk " << when);
    }
    if (max > 0)
      PBT_CHECK(used <= static_cast<uint64_t>(max),
                when << ": " << used << " bytes used, limit " << max);
  }

  void Open(bool may_fail = false) {
    cache.reset();
    auto r = FileBackedResourceCache::Create(base, dir, &log, &clock, max);
    if (!r.ok() && may_fail) {
      c.log << " open:" << r.status();
      r = FileBackedResourceCache::Create(base, dir, &log, &clock, max);
    }
    PBT_CHECK(r.ok(), "cache cannot be opened: " << r.status());
    cache = std::move(*r);
    ++restarts;
    Tidy(0, "");
    CheckDisk("after opening");
  }

  void Got(const std::string& k, const FileBackedResourceCache::ResourceAndMetadata& r,
           std::optional<absl::Duration> age) {
    google::protobuf::StringValue v;
    PBT_CHECK(r.metadata.UnpackTo(&v), "metadata type changed");
    Val got{std::string(r.resource), v.value()};
    auto it = ents.find(k);
    PBT_CHECK(it != ents.end(), "lookup of " << pbt::Quote(k)
                                             << " returns something never stored or removed");
    bool known = false;
    for (auto& o : it->second.ok) known |= o == got;
    PBT_CHECK(known, "lookup of " << pbt::Quote(k) << " returns " << got.bytes.size()
                                  << " bytes with metadata " << pbt::Quote(got.meta)
                                  << ", last stored " << it->second.ok.back().bytes.size()
                                  << " bytes with metadata "
                                  << pbt::Quote(it->second.ok.back().meta));
    it->second.ok = {got};
    if (age) it->second.sure = true;  // otherwise its expiry may be unknown
    it->second.access = clock.Now();
    if (age) it->second.expiry = clock.Now() + *age;
    ++hits;
  }

  void Get(const std::string& k, std::optional<absl::Duration> age) {
    auto r = cache->Get(k, age);
    c.log << " get(" << k << ")=" << (r.ok() ? "hit" : "miss");
    if (r.ok()) {
      Got(k, *r, age);
      return;
    }
    auto it = ents.find(k);
    if (it == ents.end()) {
      if (!faults)
        PBT_CHECK(absl::IsNotFound(r.status()), "missing key reported as " << r.status());
      return;
    }
    PBT_CHECK(!it->second.sure || it->second.expiry < clock.Now(),
              "lookup of the stored key " << pbt::Quote(k) << " fails: " << r.status());
  }

  Val NewVal() {
    int64_t half = max / 2;
    size_t n = s.weighted({2, 5, 2, 1, 1}) == 0
                   ? s.small(0, 20)
                   : static_cast<size_t>(s.range(0, std::max<int64_t>(1, half + half / 8)));
    if (s.chance(1, 10)) n = half + s.range(-1, 1);
    std::string b = "#" + std::to_string(++serial) + ":";
    uint64_t x = serial * 2654435761u;
    while (b.size() < n) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      b.push_back(static_cast<char>(x >> 56));
    }
    b.resize(n);
    return {b, s.chance(1, 6) ? "" : "m" + std::to_string(serial)};
  }

  // mode: 0 plain, 1 a file operation fails, 2 the process ends on the way
  void Put(const std::string& k, int mode) {
    Val v = NewVal();
    absl::Duration age = absl::Seconds(s.weighted({1, 3, 4}) == 0 ? 0 : s.range(1, 400));
    int pieces = s.small(1, 3);
    c.log << " put(" << k << "," << v.bytes.size() << "," << age << ")";
    bool big = v.bytes.size() > static_cast<size_t>(max) / 2;
    if (mode == 2) {
      ++faults;
      int nth = s.range(0, 9);
      auto m = s.flip() ? fsfault::kExit : fsfault::kPartialExit;
      pid_t pid = fork();
      if (pid == 0) {
        fsfault::Arm(m, nth);
        (void)cache->Put(k, ToCord(v.bytes, pieces), MetaAny(v.meta), age);
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      c.log << "!ends@" << nth;
      Unsure();
      auto& e = ents[k];
      e.sure = false;
      e.ok.push_back(v);
      e.expiry = absl::InfiniteFuture();
      cache.reset();
      Resync();
      return;
    }
    if (mode == 1) {
      ++faults;
      int nth = s.range(0, 9);
      auto m = s.flip() ? fsfault::kFail : fsfault::kPartial;
      fsfault::Arm(m, nth);
      c.log << "!fails@" << nth;
    }
    auto st = cache->Put(k, ToCord(v.bytes, pieces), MetaAny(v.meta), age);
    fsfault::Disarm();
    bool fired = mode == 1 && fsfault::Fired();
    if (fired) Unsure();
    c.log << "=" << (st.ok() ? "ok" : absl::StatusCodeToString(st.code()));
    if (big) {
      PBT_EQ(static_cast<int>(st.code()), static_cast<int>(absl::StatusCode::kResourceExhausted),
             "storing more than half the limit");
      if (!fired) return;
    }
    if (!fired)
      PBT_CHECK(st.ok(), "storing " << v.bytes.size() << " bytes fails: " << st);
    if (!st.ok()) {
      auto& e = ents[k];
      e.sure = false;
      e.ok.push_back(v);
      e.expiry = absl::InfiniteFuture();
    } else {
      Tidy(v.bytes.size(), k);
      auto& e = ents[k];
      e.ok = {v};
      e.sure = true;
      e.access = clock.Now();
      e.expiry = clock.Now() + age;
      if (!fired) CheckDisk("after storing");
    }
  }

  // Reopens the cache and finds out what is left in it.
  void Resync() {
    Open(true);
    c.log << " resync";
    std::map<std::string, Ent> left;
    for (auto& [k, e] : std::map<std::string, Ent>(ents)) {
      clock.AdvanceTime(absl::Milliseconds(1));
      auto r = cache->Get(k, absl::Seconds(300));
      if (r.ok()) {
        Got(k, *r, absl::Seconds(300));
        left[k] = ents[k];
      } else {
        PBT_CHECK(!e.sure, "lookup of the stored key " << pbt::Quote(k) << " fails: " << r.status());
      }
    }
    ents = left;
    exact = true;
    CheckDisk("after reopening");
  }

  void DamageIndex() {
    cache.reset();
    fs::path m = base + "/fcp/cache_manifest.pb";
    // A failed write may have removed it already.
    bool empty = !fs::exists(m) || fs::file_size(m) == 0;
    switch (empty ? 4 : s.weighted({2, 2, 1, 1})) {
      case 4:
        break;
      case 0: {
        std::string d = Slurp(m);
        size_t at = s.urange(0, d.size() - 1);
        d[at] ^= static_cast<char>(s.range(1, 255));
        std::ofstream(m, std::ios::binary) << d;
        c.log << " index-byte";
        break;
      }
      case 1: {
        uint64_t n = fs::file_size(m);
        fs::resize_file(m, s.urange(0, n - 1));
        c.log << " index-cut";
        break;
      }
      case 2:
        fs::remove(m);
        c.log << " index-lost";
        break;
      case 3:
        fs::resize_file(m, 0);
        c.log << " index-empty";
    }
    ++faults;
    Unsure();
    Resync();
  }

  void LoseFile() {
    std::vector<std::string> keys;
    for (auto& [k, e] : ents)
      if (e.sure && e.ok.back().bytes.size() > 8) keys.push_back(k);
    if (keys.empty()) return;
    std::string k = s.pick(keys);
    for (auto& e : fs::recursive_directory_iterator(dir)) {
      if (e.is_regular_file() && Slurp(e.path()) == ents[k].ok.back().bytes) {
        fs::remove(e.path());
        ents.erase(k);
        c.log << " lose(" << k << ")";
        return;
      }
    }
    pbt::Fail("no file holds the stored resource");
  }
};

std::vector<std::string> Keys(pbt::Src& s) {
  std::vector<std::string> k;
  int n = s.range(1, 6);
  for (int i = 0; i < n; ++i) k.push_back("k" + std::to_string(i));
  return k;
}

void Histories(pbt::Src& s, pbt::Case& c) {
  World w(s, c);
  w.max = s.pick(std::vector<int64_t>{200, 1000, 5000, 60000});
  w.Open();
  auto keys = Keys(s);
  bool faulty = s.chance(1, 2);
  int n = s.range(3, 22);
  for (int i = 0; i < n; ++i) {
    w.Tick();
    std::string k = s.pick(keys);
    switch (s.weighted({8, 6, 2, 1, 1, faulty ? 3 : 0, faulty ? 2 : 0, faulty ? 1 : 0})) {
      case 0:
        w.Put(k, 0);
        break;
      case 1:
        w.Get(k, s.chance(1, 3) ? std::optional<absl::Duration>(absl::Seconds(s.range(0, 400)))
                                : std::nullopt);
        break;
      case 2:
        if (s.chance(1, 4)) w.max = s.pick(std::vector<int64_t>{200, 1000, 5000, 60000});
        c.log << " reopen(" << w.max << ")";
        w.Open();
        break;
      case 3:
        w.LoseFile();
        break;
      case 4: {
        std::ofstream f(w.dir + "/fcp/cache/stray" + std::to_string(i));
        f << "stray";
        c.log << " stray";
        break;
      }
      case 5:
        w.Put(k, 1);
        if (s.flip()) {
          w.Tick();
          w.Get(k, std::nullopt);
        }
        if (s.chance(2, 3)) w.Resync();
        break;
      case 6:
        w.Put(k, 2);
        break;
      default:
        w.DamageIndex();
    }
  }
  w.Tick();
  w.Resync();
  // Whatever happened, the cache still works.
  w.Tick();
  w.max = 5000;
  w.Open();
  w.Put("k0", 0);
  w.Tick();
  w.Get("k0", std::nullopt);
  c.label(faulty ? "faults" : "no faults");
  if (w.evictions) c.label("evictions");
  c.nontrivial(w.hits >= 2 && (w.evictions || w.faults || w.restarts > 3));
}

// Keys are arbitrary strings: none may reach another key's data or a file
// outside the cache's own directories.
void Names(pbt::Src& s, pbt::Case& c) {
  World w(s, c);
  w.exact = false;  // other files live next to it
  w.max = 20000;
  std::string top = c.scratch() + "/top";
  std::vector<std::string> outside = {top + "/outside", w.base + "/near", w.dir + "/near",
                                      w.dir + "/fcp/beside", w.base + "/fcp/beside"};
  w.Open();
  for (auto& o : outside) std::ofstream(o) << "keep";
  std::vector<std::string> pool = {
      "a", "b", "a/b", "./a", "a/", "x/../a", "..", ".", "", "../a", "../../near",
      "../beside", "../../../outside", "../../../base/near",
      "../../../base/fcp/cache_manifest.pb", w.dir + "/near", top + "/outside",
      w.dir + "/fcp/cache/a", std::string("a\0b", 3), "a b", "%2e%2e%2fa", "a\nb",
      std::string(200, 'n'), std::string(300, 'n'), "\xc3\xa9", "~", "*", "-rf"};
  int n = s.range(2, 12);
  int odd = 0;
  for (int i = 0; i < n; ++i) {
    w.Tick();
    std::string k = s.chance(1, 4) ? s.str(6, "ab./\\") : s.pick(pool);
    if (k != "a" && k != "b") ++odd;
    Val v = {"#" + std::to_string(i) + ":" + std::string(s.range(0, 30), 'v'),
             "m" + std::to_string(i)};
    auto st = w.cache->Put(k, absl::Cord(v.bytes), MetaAny(v.meta), absl::Hours(10));
    c.log << " put(" << pbt::Quote(k) << ")=" << (st.ok() ? "ok" : "refused");
    if (st.ok()) {
      auto& e = w.ents[k];
      e.ok = {v};
      e.access = w.clock.Now();
      e.expiry = absl::InfiniteFuture();
    } else {
      PBT_CHECK(k != "a" && k != "b" && k != "a b", "plain key refused: " << st);
      if (w.ents.count(k)) w.ents[k].ok.push_back(v);
    }
    if (s.chance(1, 5)) w.Open();
    for (auto& k2 : pool) {
      if (!s.chance(1, 3) && k2 != k) continue;
      w.Tick();
      w.clock.AdvanceTime(-absl::Minutes(2));
      auto r = w.cache->Get(k2, std::nullopt);
      if (r.ok()) {
        w.Got(k2, *r, std::nullopt);
      } else if (w.ents.count(k2)) {
        PBT_CHECK(!w.ents[k2].sure, "stored key " << pbt::Quote(k2) << " lost: " << r.status());
      }
    }
    for (auto& o : outside)
      PBT_EQ(Slurp(o), std::string("keep"), "file outside the cache " << o.substr(top.size()));
    std::set<std::string> seen;
    for (auto& e : fs::recursive_directory_iterator(top)) {
      std::string p = e.path().string().substr(top.size());
      if (!e.is_regular_file()) continue;
      if (std::find(outside.begin(), outside.end(), e.path().string()) != outside.end()) continue;
      PBT_CHECK(p.rfind("/root/cache/fcp/", 0) == 0 || p.rfind("/root/base/fcp/", 0) == 0,
                "a file appeared outside the cache's directories: " << p);
    }
  }
  c.nontrivial(odd > 0 && w.hits > 1);
}

// Several threads on one cache.
void Threads(pbt::Src& s, pbt::Case& c) {
  World w(s, c);
  w.max = 3000;
  w.Open();
  int threads = s.range(2, 4), ops = s.range(5, 20);
  std::vector<std::vector<std::pair<int, int>>> plan(threads);
  for (auto& p : plan)
    for (int i = 0; i < ops; ++i) p.push_back({s.range(0, 3), s.range(0, 2)});
  std::atomic<int> bad{0}, hits{0};
  std::string what;
  std::mutex mu;
  std::vector<std::thread> ts;
  auto bytes = [](int key, int t, int i) {
    return "k" + std::to_string(key) + "t" + std::to_string(t) + "i" + std::to_string(i) + ":" +
           std::string(100 + 37 * i + 11 * t, static_cast<char>('a' + key));
  };
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      for (int i = 0; i < ops; ++i) {
        auto [key, op] = plan[t][i];
        std::string k = "k" + std::to_string(key);
        std::string problem;
        if (op == 0) {
          auto b = bytes(key, t, i);
          auto st = w.cache->Put(k, absl::Cord(b), MetaAny(b.substr(0, b.find(':'))), absl::Hours(1));
          if (!st.ok()) problem = "store fails: " + st.ToString();
        } else {
          auto r = w.cache->Get(k, std::nullopt);
          if (r.ok()) {
            ++hits;
            google::protobuf::StringValue v;
            r->metadata.UnpackTo(&v);
            std::string b(r->resource);
            int kk, tt, ii;
            if (sscanf(v.value().c_str(), "k%dt%di%d", &kk, &tt, &ii) != 3 || kk != key ||
                b != bytes(kk, tt, ii))
              problem = "lookup returns mixed data under " + k;
          } else if (!absl::IsNotFound(r.status())) {
            problem = "lookup fails: " + r.status().ToString();
          }
        }
        if (!problem.empty()) {
          std::lock_guard<std::mutex> l(mu);
          what = problem;
          ++bad;
        }
      }
    });
  for (auto& t : ts) t.join();
  PBT_CHECK(bad == 0, what);
  PBT_CHECK(w.Disk() <= 3000, "limit exceeded");
  c.nontrivial(hits > 0);
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "C01",
      "histories of up to 22 store, lookup, reopen, time, lost-file, stray-file, "
      "damaged-index, failed-write and killed-process steps on up to 6 keys, "
      "arbitrary key strings, and threads; non-trivial when at least two lookups "
      "hit and an eviction, fault or reopening happened",
      {{"histories", Histories, 5000, 150000},
       {"names", Names, 600, 20000},
       {"threads", Threads, 200, 5000}});
}
