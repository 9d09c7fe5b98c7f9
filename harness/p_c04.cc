// LIBS: fcp_client
// Queries over recorded run histories against a direct reading of the plan the
// history was generated from.
#include <map>
#include <optional>
#include <string>
#include <vector>

#include "client_fakes.h"
#include "fcp/client/opstats/opstats_example_store.h"
#include "fcp/client/opstats/opstats_logger.h"
#include "fcp/client/opstats/opstats_utils.h"
#include "fcp/protos/opstats.pb.h"
#include "google/protobuf/util/message_differencer.h"
#include "google/protobuf/util/time_util.h"
#include "pbt/pbt.h"
#include "re2/re2.h"
#include "tensorflow/core/example/example.pb.h"

namespace {

using fcp::client::opstats::OperationalStats;
using fcp::client::opstats::OpStatsSequence;
using google::internal::federated::plan::ExampleSelector;
using google::protobuf::util::MessageDifferencer;
using google::protobuf::util::TimeUtil;
using Kind = OperationalStats::Event;
using Phase = OperationalStats::PhaseStats;

// What one task of one run did, as the generator planned it.
struct Entry {
  OperationalStats stats;  // flat layout
  bool started = false, rejected = false;
  int64_t contributed_ms = 0;
  int64_t last_ms = 0;
  bool has_events = false;
};

struct World {
  OpStatsSequence data;
  std::vector<Entry> entries;  // in recorded order
};

const std::vector<std::string>& Names() {
  static const std::vector<std::string> n = {
      "pop/task", "pop/task/a", "pop/task/ab", "pop.task", "a", "ab", "b", ""};
  return n;
}

int64_t g_clock;

OperationalStats::Event MakeEvent(pbt::Src& s, Kind::EventKind kind) {
  OperationalStats::Event e;
  e.set_event_type(kind);
  g_clock += s.chance(1, 6) ? 0 : s.range(0, 5);
  *e.mutable_timestamp() = TimeUtil::MillisecondsToTimestamp(g_clock);
  return e;
}

// Other kinds of events that must not be taken for a contribution.
Kind::EventKind Noise(pbt::Src& s) {
  return s.of<Kind::EventKind>(
      {Kind::EVENT_KIND_CHECKIN_STARTED, Kind::EVENT_KIND_CHECKIN_ACCEPTED,
       Kind::EVENT_KIND_COMPUTATION_STARTED,
       Kind::EVENT_KIND_COMPUTATION_FINISHED,
       Kind::EVENT_KIND_FAILURE_UPLOAD_STARTED,
       Kind::EVENT_KIND_FAILURE_UPLOAD_SERVER_ABORTED,
       Kind::EVENT_KIND_ELIGIBILITY_CHECKIN_SERVER_ABORTED,
       Kind::EVENT_KIND_CHECKIN_SERVER_ABORTED,
       Kind::EVENT_KIND_TRAIN_NOT_STARTED});
}

std::vector<Kind::EventKind> UploadEvents(pbt::Src& s) {
  std::vector<Kind::EventKind> v;
  switch (s.weighted({4, 3, 2, 2, 2, 1})) {
    case 0:
      v = {Kind::EVENT_KIND_RESULT_UPLOAD_STARTED,
           Kind::EVENT_KIND_RESULT_UPLOAD_FINISHED};
      break;
    case 1:
      v = {Kind::EVENT_KIND_RESULT_UPLOAD_STARTED,
           Kind::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED};
      break;
    case 2:
      v = {Kind::EVENT_KIND_RESULT_UPLOAD_STARTED,
           s.flip() ? Kind::EVENT_KIND_RESULT_UPLOAD_ERROR_IO
                    : Kind::EVENT_KIND_RESULT_UPLOAD_CLIENT_INTERRUPTED};
      break;
    case 3:
      v = {Kind::EVENT_KIND_RESULT_UPLOAD_STARTED};
      break;
    case 4:
      v = {Kind::EVENT_KIND_FAILURE_UPLOAD_STARTED,
           s.flip() ? Kind::EVENT_KIND_FAILURE_UPLOAD_FINISHED
                    : Kind::EVENT_KIND_FAILURE_UPLOAD_SERVER_ABORTED};
      break;
    case 5:
      v = {Kind::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED};
      break;
  }
  return v;
}

template <class M>
void AddDatasets(pbt::Src& s, M* to) {
  int n = s.weighted({3, 2, 1});
  for (int i = 0; i < n; i++) {
    auto& d = (*to->mutable_dataset_stats())[s.of<std::string>(
        {"app:/x", "app:/y", "internal:/opstats"})];
    d.set_num_examples_read(s.range(0, 50));
    d.set_num_bytes_read(s.range(0, 5000));
    *d.mutable_first_access_timestamp() =
        TimeUtil::MillisecondsToTimestamp(g_clock - s.range(0, 300));
  }
}

void Finish(Entry* e) {
  for (const auto& ev : e->stats.events()) {
    int64_t ms = TimeUtil::TimestampToMilliseconds(ev.timestamp());
    if (ev.event_type() == Kind::EVENT_KIND_RESULT_UPLOAD_STARTED) {
      if (!e->started) e->contributed_ms = ms;
      e->started = true;
    }
    if (ev.event_type() == Kind::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED)
      e->rejected = true;
    e->last_ms = ms;
    e->has_events = true;
  }
}

void Common(pbt::Src& s, OperationalStats* o) {
  o->set_population_name(s.of<std::string>({"pop", "other"}));
  o->set_session_name(absl::StrCat("s", s.draw(1000)));
  if (s.flip()) {
    *o->mutable_retry_window()->mutable_delay_min() =
        TimeUtil::MillisecondsToDuration(s.range(0, 100000));
    *o->mutable_retry_window()->mutable_delay_max() =
        TimeUtil::MillisecondsToDuration(s.range(0, 100000));
  }
  if (s.flip()) o->set_min_sep_policy_index(s.edgy_signed());
}

void FlatRun(pbt::Src& s, pbt::Case& c, World* w) {
  OperationalStats* o = w->data.add_opstats();
  Common(s, o);
  o->set_task_name(s.pick(Names()));
  int before = s.small(0, 4);
  for (int i = 0; i < before; i++) *o->add_events() = MakeEvent(s, Noise(s));
  if (s.chance(3, 4))
    for (auto k : UploadEvents(s)) *o->add_events() = MakeEvent(s, k);
  if (s.chance(1, 6)) *o->add_events() = MakeEvent(s, Noise(s));
  AddDatasets(s, o);
  if (s.chance(1, 4)) o->set_error_message("e" + s.ident(4));
  o->set_chunking_layer_bytes_downloaded(s.range(0, 9999));
  o->set_chunking_layer_bytes_uploaded(s.range(0, 9999));
  if (s.flip())
    *o->mutable_network_duration() =
        TimeUtil::MillisecondsToDuration(s.range(1, 9999));
  Entry e;
  e.stats = *o;
  Finish(&e);
  c.log << " flat(" << o->task_name() << "," << o->events_size()
        << (e.started ? "+up" : "") << (e.rejected ? "-rej" : "") << ")";
  w->entries.push_back(e);
}

void FillPhase(pbt::Src& s, Phase* p) {
  if (s.chance(1, 3)) {
    p->set_bytes_downloaded(s.range(0, 9999));
    p->set_bytes_uploaded(s.range(0, 9999));
  }
  if (s.chance(1, 3))
    *p->mutable_network_duration() =
        TimeUtil::MillisecondsToDuration(s.range(1, 9999));
  if (s.chance(1, 4)) p->set_error_message("e" + s.ident(4));
  AddDatasets(s, p);
}

Entry Flatten(const OperationalStats& run, const std::vector<Phase>& phases) {
  Entry e;
  OperationalStats& o = e.stats;
  o.set_population_name(run.population_name());
  o.set_session_name(run.session_name());
  if (run.has_retry_window()) *o.mutable_retry_window() = run.retry_window();
  if (run.has_min_sep_policy_index())
    o.set_min_sep_policy_index(run.min_sep_policy_index());
  int64_t down = 0, up = 0, net = 0;
  std::map<std::string, std::vector<const OperationalStats::DatasetStats*>> ds;
  for (const Phase& p : phases) {
    if (!p.task_name().empty()) o.set_task_name(p.task_name());
    if (!p.error_message().empty()) o.set_error_message(p.error_message());
    for (const auto& ev : p.events()) *o.add_events() = ev;
    down += p.bytes_downloaded();
    up += p.bytes_uploaded();
    net += TimeUtil::DurationToMilliseconds(p.network_duration());
    for (const auto& kv : p.dataset_stats())
      ds[kv.first].push_back(&kv.second);
  }
  for (const auto& [uri, list] : ds) {
    auto& d = (*o.mutable_dataset_stats())[uri];
    int64_t ex = 0, by = 0, first = INT64_MAX;
    for (auto* x : list) {
      ex += x->num_examples_read();
      by += x->num_bytes_read();
      first = std::min(first, TimeUtil::TimestampToMilliseconds(
                                  x->first_access_timestamp()));
    }
    d.set_num_examples_read(ex);
    d.set_num_bytes_read(by);
    *d.mutable_first_access_timestamp() =
        TimeUtil::MillisecondsToTimestamp(first);
  }
  o.set_chunking_layer_bytes_downloaded(down);
  o.set_chunking_layer_bytes_uploaded(up);
  if (net)
    *o.mutable_network_duration() = TimeUtil::MillisecondsToDuration(net);
  Finish(&e);
  return e;
}

void PhasedRun(pbt::Src& s, pbt::Case& c, World* w) {
  OperationalStats* o = w->data.add_opstats();
  Common(s, o);
  c.log << " phased(";
  std::vector<Phase> shared, all;
  if (s.chance(1, 2)) {
    int n = 1 + s.draw(2);
    for (int i = 0; i < n; i++) {
      Phase p;
      p.set_phase(i ? Phase::ELIGIBILITY_COMPUTATION
                    : Phase::ELIGIBILITY_EVAL_CHECKIN);
      int k = 1 + s.draw(2);
      for (int j = 0; j < k; j++) *p.add_events() = MakeEvent(s, Noise(s));
      FillPhase(s, &p);
      shared.push_back(p);
      all.push_back(p);
    }
  }
  std::optional<Phase> assignment;
  int blocks = s.weighted({1, 5, 3}), tasks = 0;
  for (int b = 0; b < blocks; b++) {
    Phase a;
    bool many = s.flip();
    a.set_phase(many ? Phase::MULTIPLE_TASK_ASSIGNMENTS : Phase::CHECKIN);
    int k = 1 + s.draw(2);
    for (int j = 0; j < k; j++) *a.add_events() = MakeEvent(s, Noise(s));
    FillPhase(s, &a);
    int n = s.weighted({1, 4, many ? 3 : 0, many ? 1 : 0});
    std::vector<std::string> names;
    for (int t = 0; t < n; t++) names.push_back(s.pick(Names()));
    if (!many && n) a.set_task_name(names[0]);
    all.push_back(a);
    assignment = a;
    for (int t = 0; t < n; t++, tasks++) {
      std::vector<Phase> mine = shared;
      mine.push_back(a);
      Phase comp;
      comp.set_phase(Phase::COMPUTATION);
      comp.set_task_name(names[t]);
      int k = 1 + s.draw(2);
      for (int j = 0; j < k; j++) *comp.add_events() = MakeEvent(s, Noise(s));
      FillPhase(s, &comp);
      all.push_back(comp);
      mine.push_back(comp);
      for (int ups = s.weighted({4, 12, 2}); ups > 0; --ups) {
        Phase up;
        up.set_phase(Phase::UPLOAD);
        for (auto k : UploadEvents(s)) *up.add_events() = MakeEvent(s, k);
        FillPhase(s, &up);
        all.push_back(up);
        mine.push_back(up);
      }
      w->entries.push_back(Flatten(*o, mine));
      const Entry& e = w->entries.back();
      c.log << " " << names[t] << (e.started ? "+up" : "")
            << (e.rejected ? "-rej" : "");
    }
  }
  if (!tasks && !all.empty()) {
    // A run that never computed anything is one entry.
    std::vector<Phase> mine = shared;
    if (assignment) mine.push_back(*assignment);
    w->entries.push_back(Flatten(*o, mine));
  }
  if (all.empty()) {
    w->entries.push_back(Entry{*o});
    Finish(&w->entries.back());
  }
  for (auto& p : all) *o->add_phase_stats() = p;
  if (tasks > 1) c.label("several tasks in a run");
  c.log << ")";
}

World MakeWorld(pbt::Src& s, pbt::Case& c) {
  World w;
  g_clock = 1600000000000;
  int runs = s.small(0, 8);
  int layout = s.draw(3);
  for (int i = 0; i < runs; i++) {
    g_clock += s.range(0, 200);
    if (s.chance(1, 20)) g_clock -= s.range(0, 500);  // clock set back
    bool phased = layout == 1 || (layout == 2 && s.flip());
    if (phased)
      PhasedRun(s, c, &w);
    else
      FlatRun(s, c, &w);
  }
  if (s.chance(3, 4))
    *w.data.mutable_earliest_trustworthy_time() =
        TimeUtil::MillisecondsToTimestamp(1600000000000 + s.range(0, 5000));
  return w;
}

bool Same(const OperationalStats& a, const OperationalStats& b) {
  return MessageDifferencer::Equivalent(a, b);
}

template <class P>
const Entry* LastContribution(const World& w, P match) {
  for (auto it = w.entries.rbegin(); it != w.entries.rend(); ++it)
    if (match(it->stats.task_name()) && it->started && !it->rejected)
      return &*it;
  return nullptr;
}

void Queries(pbt::Src& s, pbt::Case& c) {
  World w = MakeWorld(s, c);
  int contributions = 0;
  for (auto& e : w.entries) contributions += e.started && !e.rejected;
  c.nontrivial(w.entries.size() >= 2 && contributions >= 1);
  for (const std::string& task : Names()) {
    const Entry* want =
        LastContribution(w, [&](const std::string& n) { return n == task; });
    auto got =
        fcp::client::opstats::GetLastSuccessfulContribution(w.data, task);
    PBT_EQ(got.has_value(), want != nullptr,
           "whether " << task << " has a contribution");
    auto when =
        fcp::client::opstats::GetLastSuccessfulContributionTime(w.data, task);
    PBT_EQ(when.has_value(), want != nullptr, "contribution time of " << task);
    auto index =
        fcp::client::opstats::GetLastSuccessfulContributionMinSepPolicyIndex(
            w.data, task);
    auto access = fcp::client::opstats::GetPreviousCollectionFirstAccessTimeMap(
        w.data, task);
    PBT_EQ(access.has_value(), want != nullptr, "access times of " << task);
    if (!want) {
      PBT_CHECK(!index.has_value(), "index without a contribution");
      continue;
    }
    c.label("contribution found");
    PBT_CHECK(Same(*got, want->stats),
              "wrong contribution of " << task << ":\n"
                                       << got->ShortDebugString()
                                       << "\nexpected\n"
                                       << want->stats.ShortDebugString());
    PBT_EQ(TimeUtil::TimestampToMilliseconds(*when), want->contributed_ms,
           "contribution time of " << task);
    PBT_EQ(index.has_value(), want->stats.has_min_sep_policy_index(),
           "index of " << task);
    if (index)
      PBT_EQ(*index, want->stats.min_sep_policy_index(), "index of " << task);
    PBT_EQ(access->size(), size_t(want->stats.dataset_stats().size()),
           "collections of " << task);
    for (auto& kv : want->stats.dataset_stats()) {
      PBT_CHECK(access->contains(kv.first), "collection missing");
      PBT_EQ(TimeUtil::TimestampToNanoseconds((*access)[kv.first]),
             TimeUtil::TimestampToNanoseconds(
                 kv.second.first_access_timestamp()),
             "first access of " << kv.first);
    }
  }
  // Patterns must match the whole name.
  for (int i = 0; i < 3; i++) {
    std::string a = s.pick(Names()), b = s.pick(Names());
    std::string pattern;
    std::function<bool(const std::string&)> match;
    switch (s.draw(5)) {
      case 0:
        pattern = RE2::QuoteMeta(a);
        match = [=](const std::string& n) { return n == a; };
        break;
      case 1:
        pattern = RE2::QuoteMeta(a) + ".*";
        match = [=](const std::string& n) {
          return n.compare(0, a.size(), a) == 0;
        };
        break;
      case 2:
        pattern = ".*" + RE2::QuoteMeta(a);
        match = [=](const std::string& n) {
          return n.size() >= a.size() &&
                 n.compare(n.size() - a.size(), a.size(), a) == 0;
        };
        break;
      case 3:
        pattern = RE2::QuoteMeta(a) + "|" + RE2::QuoteMeta(b);
        match = [=](const std::string& n) { return n == a || n == b; };
        break;
      case 4:
        pattern = "[a-b]+";
        match = [=](const std::string& n) {
          return !n.empty() && n.find_first_not_of("ab") == std::string::npos;
        };
        break;
    }
    RE2 re(pattern);
    const Entry* want = LastContribution(w, match);
    auto got = fcp::client::opstats::GetLastSuccessfulContributionTimeForPattern(
        w.data, re);
    PBT_EQ(got.has_value(), want != nullptr, "contribution for " << pattern);
    if (want)
      PBT_EQ(TimeUtil::TimestampToMilliseconds(*got), want->contributed_ms,
             "contribution time for " << pattern);
  }
}

// ---- examples made from the history ----

class Db : public fcp::client::opstats::OpStatsDb {
 public:
  absl::StatusOr<OpStatsSequence> Read() override {
    if (fail) return absl::DataLossError("unreadable");
    return data;
  }
  OpStatsSequence data;
  bool fail = false;
};

class Logger : public fcp::client::opstats::OpStatsLogger {
 public:
  fcp::client::opstats::OpStatsDb* GetOpStatsDb() override { return &db; }
  std::string GetCurrentTaskName() override { return task; }
  Db db;
  std::string task;
};

std::vector<std::string> Strings(const tensorflow::Example& e,
                                 const std::string& k) {
  PBT_CHECK(e.features().feature().count(k), "example lacks " << k);
  const auto& l = e.features().feature().at(k).bytes_list().value();
  return {l.begin(), l.end()};
}
std::vector<int64_t> Ints(const tensorflow::Example& e, const std::string& k) {
  PBT_CHECK(e.features().feature().count(k), "example lacks " << k);
  const auto& l = e.features().feature().at(k).int64_list().value();
  return {l.begin(), l.end()};
}

void CheckExample(const std::string& bytes, const OperationalStats& want,
                  int64_t trust_ms) {
  tensorflow::Example e;
  PBT_CHECK(e.ParseFromString(bytes), "unreadable example");
  using V = std::vector<int64_t>;
  using S = std::vector<std::string>;
  PBT_CHECK(Strings(e, "population_name") == S{want.population_name()},
            "population");
  PBT_CHECK(Strings(e, "session_name") == S{want.session_name()}, "session");
  PBT_CHECK(Strings(e, "task_name") == S{want.task_name()}, "task");
  PBT_CHECK(Strings(e, "error_message") == S{want.error_message()}, "error");
  V types, times;
  for (auto& ev : want.events()) {
    types.push_back(ev.event_type());
    times.push_back(TimeUtil::TimestampToMilliseconds(ev.timestamp()));
  }
  PBT_CHECK(Ints(e, "events-event_type") == types, "event kinds");
  PBT_CHECK(Ints(e, "events-timestamp") == times, "event times");
  // Per-collection columns are parallel, in any order of the collections.
  auto uris = Strings(e, "dataset_stats-uri");
  auto examples = Ints(e, "dataset_stats-num_examples_read");
  auto sizes = Ints(e, "dataset_stats-num_bytes_read");
  PBT_EQ(uris.size(), size_t(want.dataset_stats().size()), "collections");
  PBT_CHECK(examples.size() == uris.size() && sizes.size() == uris.size(),
            "uneven columns");
  std::map<std::string, int> seen;
  for (size_t i = 0; i < uris.size(); i++) {
    PBT_EQ(seen[uris[i]]++, 0, "collection twice");
    auto it = want.dataset_stats().find(uris[i]);
    PBT_CHECK(it != want.dataset_stats().end(), "unknown collection");
    PBT_EQ(examples[i], it->second.num_examples_read(), "examples read");
    PBT_EQ(sizes[i], it->second.num_bytes_read(), "bytes read");
  }
  PBT_CHECK(Ints(e, "retry_window-delay_min") ==
                V{TimeUtil::DurationToMilliseconds(
                    want.retry_window().delay_min())},
            "retry window start");
  PBT_CHECK(Ints(e, "retry_window-delay_max") ==
                V{TimeUtil::DurationToMilliseconds(
                    want.retry_window().delay_max())},
            "retry window end");
  PBT_CHECK(Ints(e, "chunking_layer_bytes_downloaded") ==
                V{want.chunking_layer_bytes_downloaded()},
            "bytes downloaded");
  PBT_CHECK(Ints(e, "chunking_layer_bytes_uploaded") ==
                V{want.chunking_layer_bytes_uploaded()},
            "bytes uploaded");
  PBT_CHECK(
      Ints(e, "network_duration") ==
          V{TimeUtil::DurationToMilliseconds(want.network_duration())},
      "network time");
  PBT_CHECK(Ints(e, "earliest_trustworthy_time") == V{trust_ms},
            "trustworthy time");
}

void Examples(pbt::Src& s, pbt::Case& c) {
  World w = MakeWorld(s, c);
  Logger logger;
  fakes::Log log;
  logger.db.data = w.data;
  int64_t trust =
      TimeUtil::TimestampToMilliseconds(w.data.earliest_trustworthy_time());
  fcp::client::opstats::OpStatsExampleIteratorFactory factory(&logger, &log);
  bool some = false;
  for (int round = 0; round < 4; round++) {
    ExampleSelector sel;
    bool right_uri = !s.chance(1, 12);
    sel.set_collection_uri(right_uri
                               ? "internal:/opstats"
                               : s.of<std::string>({"internal:/opstat", "",
                                                    "internal:/opstats/",
                                                    "app:/x"}));
    PBT_EQ(factory.CanHandle(sel), right_uri, "collection accepted");
    google::internal::federated::plan::Dataset unused;
    bool criteria = s.chance(4, 5), last = false, bad_any = false;
    std::optional<int64_t> from, to;
    if (criteria) {
      fcp::client::opstats::OpStatsSelectionCriteria sc;
      auto point = [&]() -> int64_t {
        if (!w.entries.empty() && s.chance(3, 4))
          return s.pick(w.entries).last_ms + s.of<int>({0, 0, 0, 1, -1});
        return 1600000000000 + s.range(-10, 1500);
      };
      if (s.flip()) from = point();
      if (s.flip()) to = point();
      if (from && to && *from > *to && s.chance(5, 6)) std::swap(from, to);
      last = s.chance(1, 4);
      if (from)
        *sc.mutable_start_time() = TimeUtil::MillisecondsToTimestamp(*from);
      if (to) *sc.mutable_end_time() = TimeUtil::MillisecondsToTimestamp(*to);
      if (last) sc.set_last_successful_contribution(true);
      sel.mutable_criteria()->PackFrom(sc);
      if (s.chance(1, 15)) {
        bad_any = true;
        if (s.flip())
          sel.mutable_criteria()->set_type_url("type.googleapis.com/x.Y");
        else
          sel.mutable_criteria()->set_value("\xff\xff\xff");
      }
    }
    logger.task = s.pick(Names());
    logger.db.fail = s.chance(1, 15);
    c.log << " query(" << (from ? absl::StrCat(*from - 1600000000000) : "")
          << ".." << (to ? absl::StrCat(*to - 1600000000000) : "")
          << (last ? " last " + logger.task : "")
          << (logger.db.fail ? " unreadable" : "") << ")";
    auto it = factory.CreateExampleIterator(sel);
    if (!right_uri || bad_any || (from && to && *from > *to)) {
      PBT_CHECK(absl::IsInvalidArgument(it.status()),
                "bad selector accepted: " << it.status());
      continue;
    }
    if (logger.db.fail) {
      PBT_CHECK(!it.ok(), "unreadable history gave examples");
      continue;
    }
    PBT_CHECK(it.ok(), "refused: " << it.status());
    std::vector<const OperationalStats*> want;
    if (last) {
      const Entry* e = LastContribution(
          w, [&](const std::string& n) { return n == logger.task; });
      if (e) want.push_back(&e->stats);
    } else {
      for (auto e = w.entries.rbegin(); e != w.entries.rend(); ++e) {
        if (!e->has_events) {
          if (from) continue;  // Never updated: before any start.
        } else if ((from && e->last_ms < *from) || (to && e->last_ms > *to)) {
          continue;
        }
        want.push_back(&e->stats);
      }
      if (want.size() < w.entries.size() && !want.empty()) some = true;
    }
    OperationalStats none;
    if (want.empty()) want.push_back(&none);
    size_t stop = s.chance(1, 8) ? s.draw(want.size()) : want.size();
    for (size_t i = 0; i < stop; i++) {
      auto ex = (*it)->Next();
      PBT_CHECK(ex.ok(), "example " << i << " of " << want.size() << ": "
                                    << ex.status());
      CheckExample(*ex, *want[i], trust);
    }
    if (stop == want.size()) {
      PBT_CHECK(absl::IsOutOfRange((*it)->Next().status()),
                "more than " << want.size() << " examples");
      PBT_CHECK(absl::IsOutOfRange((*it)->Next().status()),
                "an example after the end");
    }
    (*it)->Close();
    if (want.size() > 1) c.label("several examples");
  }
  c.nontrivial(some);
  if (some) c.label("range cuts history");
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C04",
                   "history of at least two entries with a contribution "
                   "(queries); a range that keeps some and drops some entries "
                   "(examples)",
                   {{"queries", Queries, 15000, 300000},
                    {"examples", Examples, 10000, 200000}});
}
