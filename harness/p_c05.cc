// LIBS: fcp_client
// C05: what a run logs, and what of it is stored when.
#include <sys/time.h>
#include <time.h>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <thread>

#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "client_fakes.h"
#include "event_recorder.h"
#include "fcp/client/histogram_counters.pb.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
#include "fcp/client/phase_logger_impl.h"
#include "google/protobuf/util/message_differencer.h"
#include "google/protobuf/util/time_util.h"
#include "pbt/pbt.h"

static int64_t g_now = 1700000000;

extern "C" time_t time(time_t* t) {
  if (t) *t = g_now;
  return g_now;
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
  tv->tv_sec = g_now;
  tv->tv_usec = 0;
  return 0;
}
namespace absl {
ABSL_NAMESPACE_BEGIN
Time Now() { return FromUnixSeconds(g_now); }
ABSL_NAMESPACE_END
}  // namespace absl

namespace {

using fcp::client::ExampleStats;
using fcp::client::HistogramCounters;
using fcp::client::NetworkStats;
using fcp::client::PhaseLoggerImpl;
using fcp::client::opstats::OperationalStats;
using fcp::client::opstats::OpStatsDb;
using fcp::client::opstats::OpStatsLoggerImpl;
using fcp::client::opstats::OpStatsSequence;
using google::internal::federatedml::v2::RetryWindow;
using google::protobuf::util::MessageDifferencer;
using google::protobuf::util::TimeUtil;
using Kind = OperationalStats::Event;
using Phase = OperationalStats::PhaseStats;

struct Flags : fakes::BaseFlags {
  bool phases = false, tf_messages = true;
  bool enable_phase_stats_logging() const override { return phases; }
  bool log_tensorflow_error_messages() const override { return tf_messages; }
};

// The stored history, outliving the runs.
struct Store {
  OpStatsSequence data;
  enum Fault { kNone, kBefore, kAfter, kLost };
  Fault next = kNone;
};

class Db : public OpStatsDb {
 public:
  explicit Db(Store* s) : s_(s) {}
  absl::StatusOr<OpStatsSequence> Read() override { return s_->data; }
  absl::Status Transform(std::function<void(OpStatsSequence&)> f) override {
    Store::Fault fault = s_->next;
    s_->next = Store::kNone;
    if (fault == Store::kBefore) return absl::InternalError("unreadable");
    OpStatsSequence copy = s_->data;
    f(copy);
    if (fault == Store::kAfter) return absl::InternalError("not written");
    if (fault == Store::kLost) {
      s_->data.Clear();
      return absl::InternalError("history lost");
    }
    s_->data = copy;
    return absl::OkStatus();
  }

 private:
  Store* s_;
};

// Everything a run was told to record.
struct Run {
  bool phases;
  OperationalStats top;
  Phase now;  // the open phase, if any
  NetworkStats seen;
  std::map<std::string, int64_t> first_access;

  bool Open() const { return phases && now.phase() != Phase::UNSPECIFIED; }
  template <class M>
  void Event(M* m, Kind::EventKind k) {
    auto* e = m->add_events();
    e->set_event_type(k);
    e->mutable_timestamp()->set_seconds(g_now);
  }
  void Add(Kind::EventKind k) { Open() ? Event(&now, k) : Event(&top, k); }
  void Task(const std::string& t, Kind::EventKind k) {
    Add(k);
    Open() ? now.set_task_name(t) : top.set_task_name(t);
  }
  void Error(const std::string& m, Kind::EventKind k) {
    Add(k);
    std::string* at =
        Open() ? now.mutable_error_message() : top.mutable_error_message();
    if (at->empty()) *at = m;
  }
  void Read(const std::string& uri, int n, int64_t bytes) {
    auto& d = Open() ? (*now.mutable_dataset_stats())[uri]
                     : (*top.mutable_dataset_stats())[uri];
    d.set_num_examples_read(d.num_examples_read() + n);
    d.set_num_bytes_read(d.num_bytes_read() + bytes);
    auto it = first_access.find(uri);
    if (it != first_access.end())
      d.mutable_first_access_timestamp()->set_seconds(it->second);
  }
  void Net(const NetworkStats& n) {
    if (Open()) {
      now.set_bytes_downloaded(now.bytes_downloaded() + n.bytes_downloaded -
                               seen.bytes_downloaded);
      now.set_bytes_uploaded(now.bytes_uploaded() + n.bytes_uploaded -
                             seen.bytes_uploaded);
      int64_t ms =
          TimeUtil::DurationToMilliseconds(now.network_duration()) +
          absl::ToInt64Milliseconds(n.network_duration - seen.network_duration);
      *now.mutable_network_duration() = TimeUtil::MillisecondsToDuration(ms);
      seen = n;
    } else {
      top.set_chunking_layer_bytes_downloaded(n.bytes_downloaded);
      top.set_chunking_layer_bytes_uploaded(n.bytes_uploaded);
      *top.mutable_network_duration() = TimeUtil::MillisecondsToDuration(
          absl::ToInt64Milliseconds(n.network_duration));
    }
  }
  void Start(Phase::Phase p) {
    if (!phases) return;
    Stop();
    now.set_phase(p);
  }
  void Stop() {
    if (!Open()) return;
    *top.add_phase_stats() = now;
    now.Clear();
  }
  OperationalStats Entry() const {
    OperationalStats e = top;
    if (Open()) *e.add_phase_stats() = now;
    return e;
  }
  std::string TaskName() const {
    if (!phases) return top.task_name();
    if (!now.task_name().empty()) return now.task_name();
    for (int i = top.phase_stats_size() - 1; i >= 0; --i)
      if (!top.phase_stats(i).task_name().empty())
        return top.phase_stats(i).task_name();
    return "";
  }
};

// The history as it has to look: entries of earlier runs, then this run's.
struct Expected {
  std::vector<OperationalStats> earlier;
  std::optional<OperationalStats> mine;
};

bool Same(const OperationalStats& a, const OperationalStats& b) {
  return MessageDifferencer::Equivalent(a, b);
}

void Compare(const Store& store, const Expected& want, const char* when) {
  std::vector<OperationalStats> all = want.earlier;
  if (want.mine) all.push_back(*want.mine);
  PBT_EQ(size_t(store.data.opstats_size()), all.size(),
         "entries stored " << when);
  for (size_t i = 0; i < all.size(); i++)
    PBT_CHECK(Same(store.data.opstats(i), all[i]),
              "entry " << i << " of " << all.size() << " " << when << ":\n"
                       << store.data.opstats(i).ShortDebugString()
                       << "\nexpected\n"
                       << all[i].ShortDebugString());
}

// Applies a fault decision to a commit and says what must be stored after.
struct Committer {
  pbt::Src& s;
  pbt::Case& c;
  Store& store;
  Expected& want;
  int faults = 0, oks = 0;

  Store::Fault Plan() {
    Store::Fault f = Store::kNone;
    if (s.chance(1, 5))
      f = s.of<Store::Fault>({Store::kBefore, Store::kAfter, Store::kLost});
    store.next = f;
    if (f) c.log << "!" << int(f);
    return f;
  }
  void Done(Store::Fault f, const OperationalStats& entry) {
    if (f == Store::kNone) {
      want.mine = entry;
      oks++;
    } else {
      faults++;
      if (f == Store::kLost) {
        want.earlier.clear();
        want.mine.reset();
      }
    }
  }
};

NetworkStats Grow(pbt::Src& s, NetworkStats* n) {
  n->bytes_downloaded += s.range(0, 1000);
  n->bytes_uploaded += s.range(0, 1000);
  n->network_duration += absl::Milliseconds(s.range(0, 2500));
  return *n;
}

void LoggerCalls(pbt::Src& s, pbt::Case& c) {
  g_now = 1700000000;
  Store store;
  Expected want;
  Flags flags;
  flags.phases = s.chance(2, 3);
  fakes::Log log;
  int runs = s.small(1, 4), calls = 0, retried = 0;
  for (int r = 0; r < runs; r++) {
    if (want.mine) want.earlier.push_back(*want.mine);
    want.mine.reset();
    Run run;
    run.phases = flags.phases;
    std::string session = "s" + std::to_string(r), pop = "p" + s.ident(2);
    run.top.set_session_name(session);
    run.top.set_population_name(pop);
    NetworkStats net;
    c.log << " run(";
    auto logger = std::make_unique<OpStatsLoggerImpl>(
        std::make_unique<Db>(&store), &log, &flags, session, pop);
    Committer commit{s, c, store, want};
    int n = s.range(0, 20);
    for (int i = 0; i < n; i++, calls++) {
      g_now += s.draw(4);
      auto kind = static_cast<Kind::EventKind>(s.of<int>(
          {1, 2, 3, 10, 20, 30, 35, 36, 37, 38, 40, 41, 42, 50, 51}));
      if (!Kind::EventKind_IsValid(kind)) kind = Kind::EVENT_KIND_CHECKIN_STARTED;
      switch (s.weighted({4, 2, 3, 2, 3, 2, 1, 1, 4, 3, 3})) {
        case 0:
          c.log << "e";
          logger->AddEvent(kind);
          run.Add(kind);
          break;
        case 1: {
          std::string t = s.of<std::string>({"t1", "t2", ""});
          c.log << "t";
          logger->AddEventAndSetTaskName(t, kind);
          run.Task(t, kind);
          break;
        }
        case 2: {
          std::string m = s.of<std::string>({"m1", "m2", ""});
          c.log << "x";
          logger->AddEventWithErrorMessage(kind, m);
          run.Error(m, kind);
          break;
        }
        case 3: {
          std::string uri = s.of<std::string>({"app:/a", "app:/b"});
          int64_t at = g_now - s.range(0, 100);
          c.log << "a";
          logger->RecordCollectionFirstAccessTime(uri,
                                                  absl::FromUnixSeconds(at));
          run.first_access.emplace(uri, at);
          break;
        }
        case 4: {
          std::string uri = s.of<std::string>({"app:/a", "app:/b"});
          int k = s.range(0, 30);
          int64_t b = s.range(0, 3000);
          c.log << "d";
          logger->UpdateDatasetStats(uri, k, b);
          run.Read(uri, k, b);
          break;
        }
        case 5:
          c.log << "n";
          Grow(s, &net);
          logger->SetNetworkStats(net);
          run.Net(net);
          break;
        case 6: {
          RetryWindow w;
          w.set_retry_token("secret");
          w.mutable_delay_min()->set_seconds(s.range(0, 100));
          if (s.flip()) w.mutable_delay_max()->set_seconds(s.range(0, 100));
          c.log << "w";
          logger->SetRetryWindow(w);
          w.clear_retry_token();
          *run.top.mutable_retry_window() = w;
          break;
        }
        case 7: {
          int64_t ix = s.edgy_signed();
          c.log << "i";
          logger->SetMinSepPolicyIndex(ix);
          run.top.set_min_sep_policy_index(ix);
          break;
        }
        case 8: {
          auto p = static_cast<Phase::Phase>(s.range(1, 6));
          c.log << "[" << int(p);
          logger->StartLoggingForPhase(p);
          run.Start(p);
          break;
        }
        case 9:
          c.log << "]";
          logger->StopLoggingForTheCurrentPhase();
          run.Stop();
          break;
        case 10: {
          c.log << "C";
          auto f = commit.Plan();
          absl::Status st = logger->CommitToStorage();
          PBT_EQ(st.ok(), f == Store::kNone, "commit said " << st);
          if (commit.faults && st.ok()) retried++;
          commit.Done(f, run.Entry());
          Compare(store, want, "after a commit");
          break;
        }
      }
      PBT_EQ(logger->GetCurrentTaskName(), run.TaskName(), "task name");
    }
    c.log << "~";
    auto f = commit.Plan();
    logger.reset();
    commit.Done(f, run.Entry());
    Compare(store, want, "at the end of a run");
    c.log << ")";
    if (commit.faults && commit.oks) c.label("commit failed, later one stored");
    if (commit.oks > 1) c.label("several commits in a run");
  }
  c.nontrivial(calls >= 5 && runs >= 2);
}

// ---- the phase logger ----

enum Msg { kNoMsg, kStatus, kVerbatim, kTf };
enum Since { kNoTime, kT1, kT2 };

struct Ctx {
  absl::Status status;
  std::string text, task;
  NetworkStats net;
  ExampleStats ex;
  absl::Time t1, t2, ref;
  std::optional<int64_t> index;
};

struct Spec {
  const char* published;
  Kind::EventKind kind;
  int start;  // phase to start, or 0
  bool stop;
  Msg msg;
  const char* prefix;
  bool net, ex;
  Since took;
  std::vector<std::pair<int, int>> hist;  // counter, 1: t1, 2: ref, 3/4: sizes
  int diag;
  bool task, commit;
  std::function<absl::Status(PhaseLoggerImpl&, const Ctx&)> call;
};

#define CALL(expr) \
  [](PhaseLoggerImpl& p, const Ctx& x) -> absl::Status { expr; return absl::OkStatus(); }
#define ASK(expr) [](PhaseLoggerImpl& p, const Ctx& x) -> absl::Status { return expr; }

const std::vector<Spec>& Specs() {
  using P = Phase;
  using K = Kind;
  using H = HistogramCounters;
  using D = fcp::client::ProdDiagCode;
  static const char* kInit = "Error during initialization: ";
  static const char* kEC = "Error during eligibility check-in: ";
  static const char* kEX = "Error during eligibility eval computation: ";
  static const char* kM = "Error during multiple task assignments: ";
  static const char* kC = "Error during check-in: ";
  static const char* kX = "Error during computation: ";
  static const char* kR = "Error reporting results: ";
  static const char* kF = "Error reporting computation failure: ";
  static const std::vector<std::pair<int, int>> hEC = {
      {H::TRAINING_FL_ELIGIBILITY_EVAL_CHECKIN_LATENCY, 1}};
  static const std::vector<std::pair<int, int>> hX = {
      {H::TRAINING_RUN_PHASE_LATENCY, 1}, {H::TRAINING_RUN_PHASE_END_TIME, 2}};
  static const std::vector<std::pair<int, int>> hXdone = {
      {H::TRAINING_RUN_PHASE_LATENCY, 1},
      {H::TRAINING_RUN_PHASE_END_TIME, 2},
      {H::TRAINING_OVERALL_EXAMPLE_SIZE, 3},
      {H::TRAINING_OVERALL_EXAMPLE_COUNT, 4}};
  static const std::vector<std::pair<int, int>> hM = {
      {H::TRAINING_FL_MULTIPLE_TASK_ASSIGNMENTS_LATENCY, 1},
      {H::TRAINING_FL_MULTIPLE_TASK_ASSIGNMENTS_END_TIME, 2}};
  static const std::vector<std::pair<int, int>> hC = {
      {H::TRAINING_FL_CHECKIN_LATENCY, 1},
      {H::TRAINING_FL_CHECKIN_END_TIME, 2}};
  static const std::vector<std::pair<int, int>> hR = {
      {H::TRAINING_FL_REPORT_RESULTS_LATENCY, 1},
      {H::TRAINING_FL_REPORT_RESULTS_END_TIME, 2}};
  static const std::vector<Spec> specs = {
      {"PublishTaskNotStarted", K::EVENT_KIND_TRAIN_NOT_STARTED, 0, false,
       kVerbatim, "", false, false, kNoTime, {}, 0, false, false,
       CALL(p.LogTaskNotStarted(x.text))},
      {"PublishNonfatalInitializationError",
       K::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL, 0, false, kStatus, kInit,
       false, false, kNoTime, {}, 0, false, false,
       CALL(p.LogNonfatalInitializationError(x.status))},
      {"PublishFatalInitializationError",
       K::EVENT_KIND_INITIALIZATION_ERROR_FATAL, 0, false, kStatus, kInit,
       false, false, kNoTime, {}, 0, false, false,
       CALL(p.LogFatalInitializationError(x.status))},
      // Eligibility check-in.
      {"PublishEligibilityEvalCheckin",
       K::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED, P::ELIGIBILITY_EVAL_CHECKIN,
       false, kNoMsg, "", false, false, kNoTime, {}, 0, false, false,
       CALL(p.LogEligibilityEvalCheckinStarted())},
      {"PublishEligibilityEvalCheckinIoError",
       K::EVENT_KIND_ELIGIBILITY_CHECKIN_ERROR_IO, 0, true, kStatus, kEC, true,
       false, kT1, hEC, 0, false, false,
       CALL(p.LogEligibilityEvalCheckinIOError(x.status, x.net, x.t1))},
      {"PublishEligibilityEvalCheckinClientInterrupted",
       K::EVENT_KIND_ELIGIBILITY_CHECKIN_CLIENT_INTERRUPTED, 0, true, kStatus,
       kEC, true, false, kT1, hEC, 0, false, false,
       CALL(p.LogEligibilityEvalCheckinClientInterrupted(x.status, x.net,
                                                         x.t1))},
      {"PublishEligibilityEvalCheckinServerAborted",
       K::EVENT_KIND_ELIGIBILITY_CHECKIN_SERVER_ABORTED, 0, true, kStatus, kEC,
       true, false, kT1, hEC, 0, false, false,
       CALL(p.LogEligibilityEvalCheckinServerAborted(x.status, x.net, x.t1))},
      {"PublishEligibilityEvalNotConfigured",
       K::EVENT_KIND_ELIGIBILITY_DISABLED, 0, true, kNoMsg, "", true, false,
       kT1, hEC, 0, false, false,
       CALL(p.LogEligibilityEvalNotConfigured(x.net, x.t1))},
      {"PublishEligibilityEvalRejected", K::EVENT_KIND_ELIGIBILITY_REJECTED, 0,
       true, kNoMsg, "", true, false, kT1, hEC, 0, false, false,
       CALL(p.LogEligibilityEvalCheckinTurnedAway(x.net, x.t1))},
      {"PublishEligibilityEvalCheckinErrorInvalidPayload",
       K::EVENT_KIND_ELIGIBILITY_CHECKIN_ERROR_INVALID_PAYLOAD, 0, true,
       kVerbatim, "", true, false, kT1, hEC,
       D::BACKGROUND_TRAINING_ELIGIBILITY_EVAL_FAILED_CANNOT_PARSE_PLAN, false,
       false,
       CALL(p.LogEligibilityEvalCheckinInvalidPayloadError(x.text, x.net,
                                                           x.t1))},
      {"PublishEligibilityEvalPlanUriReceived",
       K::EVENT_KIND_ELIGIBILITY_PLAN_URI_RECEIVED, 0, false, kNoMsg, "", true,
       false, kT1, {}, 0, false, false,
       CALL(p.LogEligibilityEvalCheckinPlanUriReceived(x.net, x.t1))},
      {"PublishEligibilityEvalPlanReceived",
       K::EVENT_KIND_ELIGIBILITY_ENABLED, 0, true, kNoMsg, "", true, false,
       kT2, hEC, 0, false, false,
       CALL(p.LogEligibilityEvalCheckinCompleted(x.net, x.t1, x.t2))},
      // Eligibility computation.
      {"PublishEligibilityEvalComputationStarted",
       K::EVENT_KIND_ELIGIBILITY_COMPUTATION_STARTED,
       P::ELIGIBILITY_COMPUTATION, false, kNoMsg, "", false, false, kNoTime,
       {}, 0, false, false, CALL(p.LogEligibilityEvalComputationStarted())},
      {"PublishEligibilityEvalComputationInvalidArgument",
       K::EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_INVALID_ARGUMENT, 0, true,
       kStatus, kEX, false, true, kT1, {},
       D::BACKGROUND_TRAINING_FAILED_PLAN_FAILS_SANITY_CHECK, false, false,
       CALL(p.LogEligibilityEvalComputationInvalidArgument(x.status, x.ex,
                                                           x.t1))},
      {"PublishEligibilityEvalComputationExampleIteratorError",
       K::EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_EXAMPLE_ITERATOR, 0, true,
       kStatus, kEX, false, true, kT1, {}, 0, false, false,
       CALL(p.LogEligibilityEvalComputationExampleIteratorError(x.status, x.ex,
                                                                x.t1))},
      {"PublishEligibilityEvalComputationTensorflowError",
       K::EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_TENSORFLOW, 0, true, kTf,
       kEX, false, true, kT1, hX, 0, false, false,
       CALL(p.LogEligibilityEvalComputationTensorflowError(x.status, x.ex,
                                                           x.t1, x.ref))},
      {"PublishEligibilityEvalComputationIOError",
       K::EVENT_KIND_ELIGIBILITY_COMPUTATION_ERROR_IO, 0, true, kStatus, kEX,
       false, true, kT1, hX, 0, false, false,
       CALL(p.LogEligibilityEvalComputationIOError(x.status, x.ex, x.t1,
                                                   x.ref))},
      {"PublishEligibilityEvalComputationInterrupted",
       K::EVENT_KIND_ELIGIBILITY_COMPUTATION_CLIENT_INTERRUPTED, 0, true,
       kStatus, kEX, false, true, kT1, hX, 0, false, false,
       CALL(p.LogEligibilityEvalComputationInterrupted(x.status, x.ex, x.t1,
                                                       x.ref))},
      {"PublishEligibilityEvalComputationCompleted",
       K::EVENT_KIND_ELIGIBILITY_COMPUTATION_FINISHED, 0, true, kNoMsg, "",
       false, true, kT1, hXdone, 0, false, false,
       CALL(p.LogEligibilityEvalComputationCompleted(x.ex, x.t1, x.ref))},
      // Several assignments at once.
      {"PublishMultipleTaskAssignmentsStarted",
       K::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_STARTED,
       P::MULTIPLE_TASK_ASSIGNMENTS, false, kNoMsg, "", false, false, kNoTime,
       {}, 0, false, false, CALL(p.LogMultipleTaskAssignmentsStarted())},
      {"PublishMultipleTaskAssignmentsIOError",
       K::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_IO, 0, true, kStatus, kM,
       true, false, kT1, hM, 0, false, false,
       CALL(p.LogMultipleTaskAssignmentsIOError(x.status, x.net, x.t1,
                                                x.ref))},
      {"PublishMultipleTaskAssignmentsPayloadIOError",
       K::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_PAYLOAD_IO, 0, false,
       kStatus, kM, false, false, kNoTime, {}, 0, false, false,
       CALL(p.LogMultipleTaskAssignmentsPayloadIOError(x.status))},
      {"PublishMultipleTaskAssignmentsInvalidPayload",
       K::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_ERROR_INVALID_PAYLOAD, 0, false,
       kVerbatim, "", false, false, kNoTime, {},
       D::BACKGROUND_TRAINING_FAILED_CANNOT_PARSE_PLAN, false, false,
       CALL(p.LogMultipleTaskAssignmentsInvalidPayload(x.text))},
      {"PublishMultipleTaskAssignmentsClientInterrupted",
       K::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_CLIENT_INTERRUPTED, 0, true,
       kStatus, kM, true, false, kT1, hM, 0, false, false,
       CALL(p.LogMultipleTaskAssignmentsClientInterrupted(x.status, x.net,
                                                          x.t1, x.ref))},
      {"PublishMultipleTaskAssignmentsServerAborted",
       K::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_SERVER_ABORTED, 0, true,
       kStatus, kM, true, false, kT1, hM, 0, false, false,
       CALL(p.LogMultipleTaskAssignmentsServerAborted(x.status, x.net, x.t1,
                                                      x.ref))},
      {"PublishMultipleTaskAssignmentsTurnedAway",
       K::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_REJECTED, 0, true, kNoMsg, "",
       true, false, kT1, hM, 0, false, false,
       CALL(p.LogMultipleTaskAssignmentsTurnedAway(x.net, x.t1, x.ref))},
      {"PublishMultipleTaskAssignmentsPlanUriReceived",
       K::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PLAN_URI_RECEIVED, 0, false,
       kNoMsg, "", true, false, kT1, {}, 0, false, false,
       CALL(p.LogMultipleTaskAssignmentsPlanUriReceived(x.net, x.t1))},
      {"PublishMultipleTaskAssignmentsPlanUriPartialReceived",
       K::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PLAN_URI_PARTIAL_RECEIVED, 0,
       false, kNoMsg, "", true, false, kT1, {}, 0, false, false,
       CALL(p.LogMultipleTaskAssignmentsPlanUriPartialReceived(x.net, x.t1))},
      {"PublishMultipleTaskAssignmentsPartialCompleted",
       K::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PARTIAL_COMPLETED, 0, true,
       kNoMsg, "", true, false, kT2, hM, 0, false, false,
       CALL(p.LogMultipleTaskAssignmentsPartialCompleted(x.net, x.t1, x.t2,
                                                         x.ref))},
      {"PublishMultipleTaskAssignmentsCompleted",
       K::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_COMPLETED, 0, true, kNoMsg, "",
       true, false, kT2, hM, 0, false, false,
       CALL(p.LogMultipleTaskAssignmentsCompleted(x.net, x.t1, x.t2, x.ref))},
      // Check-in.
      {"PublishCheckin", K::EVENT_KIND_CHECKIN_STARTED, P::CHECKIN, false,
       kNoMsg, "", false, false, kNoTime, {}, 0, false, false,
       CALL(p.LogCheckinStarted())},
      {"PublishCheckinIoError", K::EVENT_KIND_CHECKIN_ERROR_IO, 0, true,
       kStatus, kC, true, false, kT1, hC, 0, false, false,
       CALL(p.LogCheckinIOError(x.status, x.net, x.t1, x.ref))},
      {"PublishCheckinClientInterrupted",
       K::EVENT_KIND_CHECKIN_CLIENT_INTERRUPTED, 0, true, kStatus, kC, true,
       false, kT1, hC, 0, false, false,
       CALL(p.LogCheckinClientInterrupted(x.status, x.net, x.t1, x.ref))},
      {"PublishCheckinServerAborted", K::EVENT_KIND_CHECKIN_SERVER_ABORTED, 0,
       true, kStatus, kC, true, false, kT1, hC, 0, false, false,
       CALL(p.LogCheckinServerAborted(x.status, x.net, x.t1, x.ref))},
      {"PublishRejected", K::EVENT_KIND_CHECKIN_REJECTED, 0, true, kNoMsg, "",
       true, false, kT1, hC, 0, false, false,
       CALL(p.LogCheckinTurnedAway(x.net, x.t1, x.ref))},
      {"PublishCheckinInvalidPayload",
       K::EVENT_KIND_CHECKIN_ERROR_INVALID_PAYLOAD, 0, true, kVerbatim, "",
       true, false, kT1, hC, D::BACKGROUND_TRAINING_FAILED_CANNOT_PARSE_PLAN,
       false, false,
       CALL(p.LogCheckinInvalidPayload(x.text, x.net, x.t1, x.ref))},
      {"PublishCheckinPlanUriReceived",
       K::EVENT_KIND_CHECKIN_PLAN_URI_RECEIVED, 0, false, kNoMsg, "", true,
       false, kT1, {}, 0, true, false,
       CALL(p.LogCheckinPlanUriReceived(x.task, x.net, x.t1))},
      {"PublishCheckinFinishedV2", K::EVENT_KIND_CHECKIN_ACCEPTED, 0, true,
       kNoMsg, "", true, false, kT2, hC, 0, false, false,
       CALL(p.LogCheckinCompleted(x.task, x.net, x.t1, x.t2, x.ref, x.index))},
      // Computation.
      {"PublishComputationStarted", K::EVENT_KIND_COMPUTATION_STARTED,
       P::COMPUTATION, false, kNoMsg, "", false, false, kNoTime, {}, 0, true,
       false, CALL(p.LogComputationStarted(x.task))},
      {"PublishComputationInvalidArgument",
       K::EVENT_KIND_COMPUTATION_ERROR_INVALID_ARGUMENT, 0, true, kStatus, kX,
       true, true, kT1, {},
       D::BACKGROUND_TRAINING_FAILED_PLAN_FAILS_SANITY_CHECK, false, false,
       CALL(p.LogComputationInvalidArgument(x.status, x.ex, x.net, x.t1))},
      {"PublishComputationIOError", K::EVENT_KIND_COMPUTATION_ERROR_IO, 0,
       true, kStatus, kX, true, true, kT1, {}, 0, false, false,
       CALL(p.LogComputationIOError(x.status, x.ex, x.net, x.t1))},
      {"PublishComputationExampleIteratorError",
       K::EVENT_KIND_COMPUTATION_ERROR_EXAMPLE_ITERATOR, 0, true, kStatus, kX,
       true, true, kT1, {}, 0, false, false,
       CALL(p.LogComputationExampleIteratorError(x.status, x.ex, x.net,
                                                 x.t1))},
      {"PublishComputationTensorflowError",
       K::EVENT_KIND_COMPUTATION_ERROR_TENSORFLOW, 0, true, kTf, kX, true,
       true, kT1, hX, 0, false, false,
       CALL(p.LogComputationTensorflowError(x.status, x.ex, x.net, x.t1,
                                            x.ref))},
      {"PublishComputationInterrupted",
       K::EVENT_KIND_COMPUTATION_CLIENT_INTERRUPTED, 0, true, kStatus, kX,
       true, true, kT1, hX, 0, false, false,
       CALL(p.LogComputationInterrupted(x.status, x.ex, x.net, x.t1, x.ref))},
      {"PublishComputationCompleted", K::EVENT_KIND_COMPUTATION_FINISHED, 0,
       true, kNoMsg, "", true, true, kT1, hXdone, 0, false, false,
       CALL(p.LogComputationCompleted(x.ex, x.net, x.t1, x.ref))},
      // Uploads.
      {"PublishResultUploadStarted", K::EVENT_KIND_RESULT_UPLOAD_STARTED,
       P::UPLOAD, false, kNoMsg, "", false, false, kNoTime, {}, 0, false, true,
       ASK(p.LogResultUploadStarted())},
      {"PublishResultUploadIOError", K::EVENT_KIND_RESULT_UPLOAD_ERROR_IO, 0,
       true, kStatus, kR, true, false, kT1, hR, 0, false, false,
       CALL(p.LogResultUploadIOError(x.status, x.net, x.t1, x.ref))},
      {"PublishResultUploadClientInterrupted",
       K::EVENT_KIND_RESULT_UPLOAD_CLIENT_INTERRUPTED, 0, true, kStatus, kR,
       true, false, kT1, hR, 0, false, false,
       CALL(p.LogResultUploadClientInterrupted(x.status, x.net, x.t1,
                                               x.ref))},
      {"PublishResultUploadServerAborted",
       K::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED, 0, true, kStatus, kR, true,
       false, kT1, hR, 0, false, false,
       CALL(p.LogResultUploadServerAborted(x.status, x.net, x.t1, x.ref))},
      {"PublishResultUploadCompleted", K::EVENT_KIND_RESULT_UPLOAD_FINISHED, 0,
       true, kNoMsg, "", true, false, kT1, hR, 0, false, false,
       CALL(p.LogResultUploadCompleted(x.net, x.t1, x.ref))},
      {"PublishFailureUploadStarted", K::EVENT_KIND_FAILURE_UPLOAD_STARTED,
       P::UPLOAD, false, kNoMsg, "", false, false, kNoTime, {}, 0, false, true,
       ASK(p.LogFailureUploadStarted())},
      {"PublishFailureUploadIOError", K::EVENT_KIND_FAILURE_UPLOAD_ERROR_IO, 0,
       true, kStatus, kF, true, false, kT1, hR, 0, false, false,
       CALL(p.LogFailureUploadIOError(x.status, x.net, x.t1, x.ref))},
      {"PublishFailureUploadClientInterrupted",
       K::EVENT_KIND_FAILURE_UPLOAD_CLIENT_INTERRUPTED, 0, true, kStatus, kF,
       true, false, kT1, hR, 0, false, false,
       CALL(p.LogFailureUploadClientInterrupted(x.status, x.net, x.t1,
                                                x.ref))},
      {"PublishFailureUploadServerAborted",
       K::EVENT_KIND_FAILURE_UPLOAD_SERVER_ABORTED, 0, true, kStatus, kF, true,
       false, kT1, hR, 0, false, false,
       CALL(p.LogFailureUploadServerAborted(x.status, x.net, x.t1, x.ref))},
      {"PublishFailureUploadCompleted", K::EVENT_KIND_FAILURE_UPLOAD_FINISHED,
       0, true, kNoMsg, "", true, false, kT1, hR, 0, false, false,
       CALL(p.LogFailureUploadCompleted(x.net, x.t1, x.ref))},
  };
  return specs;
}

void PhaseCalls(pbt::Src& s, pbt::Case& c) {
  g_now = 1700000000;
  Store store;
  Expected want;
  Flags flags;
  flags.phases = s.chance(3, 4);
  flags.tf_messages = s.flip();
  fakes::Log log;
  fakes::Events events;
  if (s.chance(1, 2)) {
    want.earlier.emplace_back();
    want.earlier[0].set_session_name("earlier");
    *store.data.add_opstats() = want.earlier[0];
  }
  Run run;
  run.phases = flags.phases;
  run.top.set_session_name("s");
  run.top.set_population_name("p");
  auto logger = std::make_unique<OpStatsLoggerImpl>(
      std::make_unique<Db>(&store), &log, &flags, "s", "p");
  auto phase = std::make_unique<PhaseLoggerImpl>(&events, logger.get(), &log,
                                                 &flags);
  Committer commit{s, c, store, want};
  NetworkStats net;
  int n = s.range(1, 16), uploads = 0;
  for (int i = 0; i < n; i++) {
    g_now += s.draw(5);
    if (s.chance(1, 8)) {
      RetryWindow w;
      w.set_retry_token("secret");
      w.mutable_delay_min()->set_seconds(s.range(0, 100));
      Grow(s, &net);
      phase->UpdateRetryWindowAndNetworkStats(w, net);
      w.clear_retry_token();
      *run.top.mutable_retry_window() = w;
      run.Net(net);
      c.log << " retry";
      continue;
    }
    if (s.chance(1, 12)) {
      phase->SetModelIdentifier("model");
      PBT_EQ(log.model, std::string("model"), "model identifier");
      PBT_EQ(events.all.back().name + events.all.back().message,
             std::string("SetModelIdentifiermodel"), "model identifier");
      continue;
    }
    if (s.chance(1, 8)) {
      std::string uri = s.of<std::string>({"app:/a", "app:/b"});
      phase->MaybeLogCollectionFirstAccessTime(uri);
      run.first_access.emplace(uri, g_now);
      int k = s.range(0, 9), b = s.range(0, 99);
      logger->UpdateDatasetStats(uri, k, b);
      run.Read(uri, k, b);
      c.log << " read";
      continue;
    }
    size_t which = s.draw(Specs().size());
    if (s.chance(1, 8))
      while (!Specs()[which].commit) which = (which + 1) % Specs().size();
    const Spec& sp = Specs()[which];
    c.log << " " << sp.published + 7;
    Ctx x;
    x.status = absl::Status(
        static_cast<absl::StatusCode>(s.range(1, 16)),
        s.of<std::string>({"secret text", "", "other"}));
    x.text = s.of<std::string>({"plain text", "t"});
    x.task = s.of<std::string>({"t1", "t2"});
    x.net = {.bytes_downloaded = s.range(0, 99),
             .bytes_uploaded = s.range(0, 99),
             .network_duration = absl::Seconds(s.range(0, 9))};
    x.ex = {.example_count = int(s.range(0, 99)),
            .example_size_bytes = s.range(0, 999)};
    auto past = [&] { return absl::FromUnixSeconds(g_now - s.range(0, 50)); };
    x.t1 = past();
    x.t2 = past();
    x.ref = past();
    if (s.flip()) x.index = s.edgy_signed();
    // What has to come of it.
    if (sp.start) run.Start(static_cast<Phase::Phase>(sp.start));
    std::string msg;
    switch (sp.msg) {
      case kNoMsg: break;
      case kVerbatim: msg = x.text; break;
      case kStatus:
      case kTf:
        msg = absl::StrCat(sp.prefix, "code: ", int(x.status.code()),
                           ", error: ",
                           sp.msg == kStatus || flags.tf_messages
                               ? x.status.message()
                               : "");
    }
    if (sp.msg != kNoMsg)
      run.Error(msg, sp.kind);
    else if (sp.task)
      run.Task(x.task, sp.kind);
    else
      run.Add(sp.kind);
    if (sp.kind == Kind::EVENT_KIND_CHECKIN_ACCEPTED && x.index)
      run.top.set_min_sep_policy_index(*x.index);
    Store::Fault f = Store::kNone;
    if (sp.commit) {
      uploads++;
      f = commit.Plan();
      // The upload may be announced only once the attempt is on record.
      OperationalStats attempted = run.Entry();
      events.hook = [&store, attempted](const fakes::Event&) {
        int k = store.data.opstats_size();
        PBT_CHECK(k && Same(store.data.opstats(k - 1), attempted),
                  "upload announced before the attempt was stored");
      };
    }
    if (sp.stop) run.Stop();
    size_t before = events.all.size();
    log.histograms.clear();
    auto diags = log.prod;
    absl::Status st = sp.call(*phase, x);
    events.hook = nullptr;
    PBT_EQ(st.ok(), f == Store::kNone, sp.published << " said " << st);
    if (sp.commit) {
      commit.Done(f, run.Entry());
      Compare(store, want, "when an upload starts");
    }
    if (f != Store::kNone) {
      PBT_EQ(events.all.size(), before, "published in spite of the failure");
      continue;
    }
    PBT_EQ(events.all.size(), before + 1, "events for " << sp.published);
    const fakes::Event& e = events.all.back();
    PBT_EQ(e.name, std::string(sp.published), "event");
    PBT_EQ(e.message, msg, "message of " << sp.published);
    PBT_CHECK(e.net.has_value() == sp.net && (!sp.net || *e.net == x.net),
              "network numbers of " << sp.published);
    PBT_CHECK(e.examples.has_value() == sp.ex && (!sp.ex || *e.examples == x.ex),
              "example numbers of " << sp.published);
    if (sp.took != kNoTime)
      PBT_EQ(e.took, absl::Now() - (sp.took == kT1 ? x.t1 : x.t2),
             "duration of " << sp.published);
    std::vector<std::pair<int, int64_t>> hist;
    for (auto& [counter, what] : sp.hist)
      hist.emplace_back(
          counter,
          what == 3   ? x.ex.example_size_bytes
          : what == 4 ? x.ex.example_count
                      : absl::ToInt64Milliseconds(
                            absl::Now() - (what == 1 ? x.t1 : x.ref)));
    auto got = log.histograms;
    if (sp.commit)
      got.erase(std::remove_if(
                    got.begin(), got.end(),
                    [](auto& h) {
                      return h.first ==
                             HistogramCounters::TRAINING_OPSTATS_COMMIT_LATENCY;
                    }),
                got.end());
    std::sort(hist.begin(), hist.end());
    std::sort(got.begin(), got.end());
    PBT_CHECK(hist == got, "counters of " << sp.published);
    if (sp.diag)
      PBT_EQ(log.prod[sp.diag], diags[sp.diag] + 1,
             "diagnostic of " << sp.published);
  }
  phase.reset();
  auto f = commit.Plan();
  logger.reset();
  commit.Done(f, run.Entry());
  Compare(store, want, "at the end of the run");
  if (uploads) c.label("upload started");
  c.nontrivial(n >= 4);
}

// Calls from several threads: nothing lost, each thread's events in order.
void Threads(pbt::Src& s, pbt::Case& c) {
  g_now = 1700000000;
  Store store;
  Flags flags;
  flags.phases = s.flip();
  fakes::Log log;
  int threads = 2 + s.draw(3), each = 5 + s.draw(40);
  bool commits = s.flip();
  {
    OpStatsLoggerImpl logger(std::make_unique<Db>(&store), &log, &flags, "s",
                             "p");
    if (flags.phases) logger.StartLoggingForPhase(Phase::COMPUTATION);
    std::vector<std::thread> pool;
    for (int t = 0; t < threads; t++)
      pool.emplace_back([&, t] {
        for (int i = 0; i < each; i++) {
          // Two kinds per thread, alternating.
          logger.AddEvent(static_cast<Kind::EventKind>(1 + 2 * t + i % 2));
          logger.UpdateDatasetStats("app:/a", 1, t + 1);
          if (commits && t == 0 && i % 5 == 0) (void)logger.CommitToStorage();
        }
      });
    for (auto& t : pool) t.join();
  }
  c.log << threads << " threads x " << each << (commits ? " commits" : "");
  PBT_EQ(store.data.opstats_size(), 1, "entries");
  const auto& o = store.data.opstats(0);
  const auto& events =
      flags.phases ? o.phase_stats(0).events() : o.events();
  const auto& data =
      flags.phases ? o.phase_stats(0).dataset_stats() : o.dataset_stats();
  PBT_EQ(events.size(), threads * each, "events");
  std::vector<int> seen(threads);
  for (auto& e : events) {
    int k = int(e.event_type()) - 1, t = k / 2;
    PBT_CHECK(t < threads, "unknown event");
    PBT_EQ(k % 2, seen[t] % 2, "order of a thread's events");
    seen[t]++;
  }
  PBT_EQ(data.at("app:/a").num_examples_read(), int64_t(threads) * each,
         "examples");
  PBT_EQ(data.at("app:/a").num_bytes_read(),
         int64_t(each) * threads * (threads + 1) / 2, "bytes");
  c.nontrivial(true);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C05",
                   "at least two runs and five calls (calls), at least four "
                   "phase events (phases), any threaded run",
                   {{"calls", LoggerCalls, 40000, 800000},
                    {"phases", PhaseCalls, 40000, 800000},
                    {"threads", Threads, 300, 3000}});
}
