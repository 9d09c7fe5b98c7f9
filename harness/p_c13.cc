// LIBS: fcp_client pbt
// C13: slices fetched for a plan.
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "client_fakes.h"
#include "fake_http.h"
#include "fcp/client/federated_select.h"
#include "pbt/pbt.h"
#include "runner_box.h"
#define VERIF_FSFAULT_DEFINE
#include "fsfault.h"

namespace fc = fcp::client;
using fakes::Reply;
using fakes::Seen;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::SlicesSelector;
using pbt::Case;
using pbt::Src;

namespace {

class TempFiles : public fc::Files {
 public:
  explicit TempFiles(std::string dir) : dir_(std::move(dir)) {}
  absl::StatusOr<std::string> CreateTempFile(const std::string& prefix,
                                             const std::string& suffix) override {
    if (fail) return absl::InvalidArgumentError("no space for another file");
    std::string f = absl::StrCat(dir_, "/", prefix, made.size(), suffix);
    std::ofstream(f) << "left over";
    made.push_back(f);
    return f;
  }
  bool fail = false;
  std::vector<std::string> made;

 private:
  std::string dir_;
};

std::string Read(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  PBT_CHECK(in.good(), "the named file cannot be read");
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}

std::string Content(Src& s) {
  switch (s.weighted({2, 6, 2, 1})) {
    case 0: return "";
    case 1: return s.bytes(20);
    case 2: return std::string(s.urange(20, 700), char('a' + s.draw(4)));
    default: {
      std::string b;
      uint64_t x = s.draw(0) | 1;
      int n = s.urange(4000, 40000);
      for (int i = 0; i < n; ++i) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        b += char(x >> 56);
      }
      return b;
    }
  }
}

// A template in pieces: the address follows from them directly.
struct Template {
  std::vector<std::pair<int, std::string>> parts;  // 0 text, 1 id, 2 key
  std::string Text() const {
    std::string t;
    for (auto& p : parts) t += p.first == 0 ? p.second : p.first == 1 ? "{served_at_id}" : "{key_base10}";
    return t;
  }
  std::string Address(const std::string& id, int32_t key) const {
    std::string t;
    for (auto& p : parts) t += p.first == 0 ? p.second : p.first == 1 ? id : std::to_string(key);
    return t;
  }
};

Template DrawTemplate(Src& s) {
  Template t;
  t.parts.push_back({0, s.of<std::string>({"https://h/", "https://s.example/a/", "http://localhost:80/", "https://h/{key}/"})});
  int n = s.urange(1, 5);
  for (int i = 0; i < n; ++i) {
    int k = s.weighted({3, 3, 4});
    t.parts.push_back({k, k ? "" : s.of<std::string>({"/", "-", "x", "{other}", "?q=", "%7B", "{}"})});
  }
  return t;
}

int32_t DrawKey(Src& s, const std::vector<int32_t>& before) {
  switch (s.weighted({6, before.empty() ? 0 : 2, 1, 1, 1})) {
    case 0: return s.draw(12);
    case 1: return before[s.draw(before.size())];
    case 2: return -int32_t(s.draw(5)) - 1;
    case 3: return s.of<int32_t>({2147483647, -2147483647 - 1, 1000000000, 0});
    default: return int32_t(s.draw(1u << 31));
  }
}

// One iteration in progress.
struct Query {
  std::unique_ptr<fc::ExampleIterator> it;
  std::vector<std::string> want;
  size_t at = 0;
  size_t file;  // index of its file
  bool ended = false;
};

void Slices(Src& s, Case& c, bool faults) {
  fakes::Log log;
  fakes::Http http;
  http.pick = [&s](size_t n) { return size_t(s.draw(n)); };
  TempFiles files(c.scratch());
  std::atomic<bool> abort{false};
  http.on_hang = [&] { abort = true; };
  fc::HttpFederatedSelectManager manager(&log, &files, &http, [&] { return abort.load(); }, fakes::PatientTiming());

  struct Held {
    std::string data;
    int amount;
  };
  std::map<std::string, Held> held;
  std::map<std::string, int> broken;  // address -> how it fails
  int64_t up = 0, down = 0;
  std::string problem;  // the server runs on another thread
  auto serve = [&](const Seen& q) {
    Reply r;
    auto it = held.find(q.uri);
    if (it == held.end()) {
      problem = "requested at another address: " + pbt::Quote(q.uri);
      return r;
    }
    if (q.method != fc::http::HttpRequest::Method::kGet || !q.body.empty()) {
      problem = "not a plain fetch: " + q.uri;
    }
    r.body = it->second.data;
    r.sent = 7 + it->second.amount;
    r.received = 1000 + 3 * it->second.amount;
    up += r.sent;
    down += r.received;
    r.pieces = {1, 4, 100};
    if (it->second.amount % 3) r.headers.push_back({"Content-Length", std::to_string(r.body.size())});
    auto b = broken.find(q.uri);
    if (b != broken.end()) {
      switch (b->second) {
        case 0: r.code = 404; break;
        case 1: r.code = 503; break;
        case 2: r.fail = Reply::kBeforeHeaders; break;
        case 3: r.fail = Reply::kDuringBody; r.fail_after = 1; break;
        case 4: r.headers.clear(); r.headers.push_back({"Content-Length", std::to_string(r.body.size() + 1)}); break;
        case 5: r.fail = Reply::kHang; break;
        case 6: r.fail = Reply::kHangInBody; r.fail_after = 1; break;
        case 7: r.code = 416; break;
        default: r.code = 302; break;
      }
    }
    return r;
  };
  http.handler = serve;

  std::vector<Template> templates;
  std::vector<std::unique_ptr<fc::engine::ExampleIteratorFactory>> factories;
  int ntemplates = s.urange(1, 2);
  for (int i = 0; i < ntemplates; ++i) {
    templates.push_back(DrawTemplate(s));
    factories.push_back(manager.CreateExampleIteratorFactoryForUriTemplate(templates.back().Text()));
    PBT_CHECK(!factories.back()->ShouldCollectStats(), "slice queries are recorded");
    c.log << "template " << i << ": " << templates.back().Text() << "\n";
  }

  std::vector<std::unique_ptr<Query>> open;
  int served = 0, failed = 0, store_failed = 0, interleaved = 0;
  int nops = s.urange(2, 16);
  for (int op = 0; op < nops; ++op) {
    int kind = open.empty() ? 0 : s.weighted({2, 8, 1});
    if (kind == 0) {
      int f = s.draw(templates.size());
      SlicesSelector sel;
      std::string id = s.of<std::string>({"", "id", "a/b", "{key_base10}", "{served_at_id}", "x%2Fy", "7"});
      if (s.chance(1, 4)) id = s.ident(8);
      sel.set_served_at_id(id);
      std::vector<int32_t> keys;
      int n = s.weighted({1, 2, 4, 4, 2}) + (s.chance(1, 8) ? s.draw(12) : 0);
      for (int i = 0; i < n; ++i) {
        keys.push_back(DrawKey(s, keys));
        sel.add_keys(keys.back());
      }
      ExampleSelector e;
      e.set_collection_uri(fc::kFederatedSelectCollectionUri);
      e.mutable_criteria()->PackFrom(sel);
      bool bad_criteria = faults && s.chance(1, 12);
      if (bad_criteria) e.mutable_criteria()->PackFrom(ExampleSelector());
      PBT_CHECK(factories[f]->CanHandle(e), "slice query not handled");
      c.log << op << ": query template " << f << " id " << pbt::Quote(id) << " keys";
      std::set<std::string> addresses;
      auto q = std::make_unique<Query>();
      broken.clear();
      for (int32_t k : keys) {
        std::string a = templates[f].Address(id, k);
        addresses.insert(a);
        if (!held.count(a)) held[a] = Held{Content(s), int(held.size()) + int(s.draw(9))};
        q->want.push_back(held[a].data);
        c.log << " " << k << "(" << q->want.back().size() << ")";
      }
      if (faults) {
        for (auto& a : addresses) {
          if (s.chance(1, 8)) {
            broken[a] = s.draw(9);
            c.log << " broken " << a << "=" << broken[a];
          }
        }
      }
      files.fail = faults && s.chance(1, 10);
      c.log << (files.fail ? " no-file" : "") << (bad_criteria ? " bad-criteria" : "") << "\n";
      size_t seen0 = http.seen.size();
      size_t made0 = files.made.size();
      auto it = factories[f]->CreateExampleIterator(e);
      PBT_CHECK(http.misuse.empty(), http.misuse);
      PBT_CHECK(problem.empty(), problem);
      abort = false;
      std::set<std::string> asked;
      for (size_t i = seen0; i < http.seen.size(); ++i) {
        PBT_CHECK(addresses.count(http.seen[i].uri), "a slice that was not asked for: " + http.seen[i].uri);
        asked.insert(http.seen[i].uri);
      }
      if (bad_criteria || files.fail || !broken.empty()) {
        PBT_CHECK(!it.ok(), "the query was accepted although it cannot be answered");
        failed++;
        // A file made for a failed query belongs to nobody.
        for (size_t i = made0; i < files.made.size(); ++i) unlink(files.made[i].c_str());
      } else {
        PBT_CHECK(it.ok(), "query: " + it.status().ToString());
        PBT_CHECK(asked == addresses, "not every slice was requested");
        PBT_EQ(files.made.size(), made0 + 1, "files made for the query");
        q->it = std::move(*it);
        q->file = made0;
        open.push_back(std::move(q));
        if (open.size() > 1) interleaved++;
      }
      auto stats = manager.GetNetworkStats();
      PBT_EQ(stats.bytes_uploaded, up, "bytes sent");
      PBT_EQ(stats.bytes_downloaded, down, "bytes received");
      PBT_CHECK(stats.network_duration >= absl::ZeroDuration(), "time spent");
      continue;
    }
    size_t i = s.draw(open.size());
    Query& q = *open[i];
    if (kind == 2) {
      bool close = s.flip();
      c.log << op << ": " << (close ? "close " : "drop ") << i << "\n";
      if (close) {
        q.it->Close();
        PBT_CHECK(access(files.made[q.file].c_str(), F_OK) != 0, "file left after closing");
        auto n = q.it->Next();
        PBT_CHECK(!n.ok(), "a slice after closing");
      }
      q.it.reset();
      PBT_CHECK(access(files.made[q.file].c_str(), F_OK) != 0, "file left behind");
      open.erase(open.begin() + i);
      continue;
    }
    int fault = 0;
    if (faults && q.at < q.want.size() && s.chance(1, 4)) fault = s.urange(1, 3);
    std::string blocked;
    if (fault == 3) {
      // The file cannot be opened.
      blocked = files.made[q.file];
      unlink(blocked.c_str());
      PBT_CHECK(mkdir(blocked.c_str(), 0700) == 0, "harness: mkdir");
    } else if (fault) {
      fsfault::Arm(fault == 1 ? fsfault::kFail : fsfault::kPartial, s.draw(3));
    }
    c.log << op << ": next " << i;
    auto n = q.it->Next();
    if (fault == 1 || fault == 2) {
      fsfault::Disarm();
      if (!fsfault::Fired()) fault = 0;
    }
    c.log << (fault ? " fault " + std::to_string(fault) : "") << (n.ok() ? "" : " -> " + n.status().ToString()) << "\n";
    if (!blocked.empty()) PBT_CHECK(rmdir(blocked.c_str()) == 0, "harness: rmdir");
    if (q.at == q.want.size()) {
      PBT_CHECK(!n.ok() && absl::IsOutOfRange(n.status()), "no end after the last slice");
      PBT_CHECK(access(files.made[q.file].c_str(), F_OK) != 0, "file left after the end");
      q.ended = true;
    } else if (fault && !n.ok()) {
      // Where the write went wrong but the data still got there, succeeding is
      // fine too; failing must not look like the end.
      PBT_CHECK(!absl::IsOutOfRange(n.status()), "a slice that could not be stored looks like the end");
      store_failed++;
      // The consumer gives up here, or asks again and gets the same slice.
      if (s.flip()) {
        q.it.reset();
        open.erase(open.begin() + i);
      }
    } else {
      PBT_CHECK(n.ok(), "slice: " + n.status().ToString());
      std::string got = Read(*n);
      PBT_CHECK(got == q.want[q.at], absl::StrCat("slice ", q.at, ": ", got.size(), " bytes of other data than the ", q.want[q.at].size(), " bytes the server holds"));
      q.at++;
      served++;
    }
  }
  PBT_CHECK(manager.GetNetworkStats().bytes_uploaded == up && manager.GetNetworkStats().bytes_downloaded == down, "statistics changed without an exchange");
  open.clear();
  for (auto& f : files.made) {
    PBT_CHECK(access(f.c_str(), F_OK) != 0, "file left behind: " + f);
  }
  c.nontrivial(served > 1 || failed || store_failed);
  if (failed) c.label("failed query");
  if (store_failed) c.label("slice could not be stored");
  if (interleaved) c.label("interleaved");
}

void Plain(Src& s, Case& c) { Slices(s, c, false); }
void Faulty(Src& s, Case& c) { Slices(s, c, true); }

// Without a template, or with the feature off, every query is refused.
void Disabled(Src& s, Case& c) {
  fakes::Log log;
  fakes::Http http;
  http.handler = [](const Seen&) { return Reply(); };
  TempFiles files(c.scratch());
  fc::HttpFederatedSelectManager manager(&log, &files, &http, [] { return false; }, fakes::PatientTiming());
  fc::DisabledFederatedSelectManager off(&log);
  bool is_off = s.flip();
  auto f = is_off ? off.CreateExampleIteratorFactoryForUriTemplate(s.flip() ? "" : DrawTemplate(s).Text())
                  : manager.CreateExampleIteratorFactoryForUriTemplate("");
  ExampleSelector e;
  std::string uri = s.of<std::string>({fc::kFederatedSelectCollectionUri, "internal:/federated_select/", "internal:/federated_selec", "app:/x", "", "INTERNAL:/federated_select"});
  e.set_collection_uri(uri);
  SlicesSelector sel;
  int n = s.draw(4);
  for (int i = 0; i < n; ++i) sel.add_keys(DrawKey(s, {}));
  e.mutable_criteria()->PackFrom(sel);
  c.log << (is_off ? "off " : "no template ") << pbt::Quote(uri) << " " << n << " keys";
  c.nontrivial(n > 0);
  PBT_EQ(f->CanHandle(e), uri == fc::kFederatedSelectCollectionUri, "which queries are handled");
  auto it = f->CreateExampleIterator(e);
  PBT_CHECK(!it.ok(), "query answered although disabled");
  PBT_CHECK(http.seen.empty(), "request although disabled");
  auto st = is_off ? off.GetNetworkStats() : manager.GetNetworkStats();
  PBT_CHECK(st.bytes_uploaded == 0 && st.bytes_downloaded == 0, "statistics without an exchange");
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C13", "at least two slices were read, or a query or a store failed; a disabled query had keys",
                   {{"slices", Plain, 12000, 120000}, {"faults", Faulty, 16000, 160000}, {"disabled", Disabled, 600, 6000}},
                   true, 8, 30);
}
