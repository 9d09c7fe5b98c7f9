// One generated client session against FcServer, compared call by call with
// the outcomes the server's answers and the injected faults imply.
#ifndef VERIF_FC_SESSION_H_
#define VERIF_FC_SESSION_H_

#include <algorithm>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "client_fakes.h"
#include "event_recorder.h"
#include "fake_http.h"
#include "fc_server.h"
#include "fcp/base/digest.h"
#include "fcp/base/time_util.h"
#include "fcp/client/attestation/attestation_verifier.h"
#include "fcp/client/http/http_federated_protocol.h"
#include "fcp/confidentialcompute/client_payload.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/protos/confidentialcompute/blob_header.pb.h"
#include "pbt/pbt.h"
#include "runner_box.h"

namespace fakes {

using fcp::client::ComputationResults;
using fcp::client::FederatedProtocol;
using pbt::Case;

struct SessionFlags : BaseFlags {
  bool conf = false, wire = false, untie = false, plain = false;
  std::vector<int32_t> codes;
  bool enable_confidential_aggregation() const override { return conf; }
  bool enable_lightweight_client_report_wire_format() const override { return wire; }
  bool untie_lw_client_report_format_support_from_requiring_lw_report() const override { return untie; }
  bool disable_http_request_body_compression() const override { return plain; }
  std::vector<int32_t> federated_training_permanent_error_codes() const override { return codes; }
  int64_t federated_training_transient_errors_retry_delay_secs() const override { return 5000; }
  float federated_training_transient_errors_retry_delay_jitter_percent() const override { return 0.2; }
  int64_t federated_training_permanent_errors_retry_delay_secs() const override { return 20000; }
  float federated_training_permanent_errors_retry_delay_jitter_percent() const override { return 0.2; }
  int32_t waiting_period_sec_for_cancellation() const override { return 600; }
};

struct Verdicts {
  // What the verifier was asked, and what it is to say.
  std::vector<std::pair<std::string, std::string>> asked;
  Code say = Code::kOk;
};

class Verifier : public fcp::client::attestation::AttestationVerifier {
 public:
  explicit Verifier(Verdicts* v) : v_(v) {}
  absl::StatusOr<fcp::confidential_compute::OkpKey> Verify(const absl::Cord& policy, const fc::ConfidentialEncryptionConfig& config) override {
    v_->asked.push_back({std::string(policy), config.SerializeAsString()});
    if (v_->say != Code::kOk) return absl::Status(v_->say, "not trusted");
    return pass_.Verify(policy, config);
  }

 private:
  Verdicts* v_;
  fcp::client::attestation::AlwaysPassingAttestationVerifier pass_;
};

struct SecAggCalls {
  int made = 0, ran = 0;
  int64_t expected = -1, surviving = -1;
  std::set<std::string> keys;
  Code say = Code::kOk;
};

class SecAggFactory : public fcp::client::SecAggRunnerFactory {
 public:
  explicit SecAggFactory(SecAggCalls* c) : c_(c) {}
  class Runner : public fcp::client::SecAggRunner {
   public:
    explicit Runner(SecAggCalls* c) : c_(c) {}
    absl::Status Run(ComputationResults r) override {
      c_->ran++;
      c_->keys.clear();
      for (auto& kv : r) c_->keys.insert(kv.first);
      return absl::Status(c_->say, c_->say == Code::kOk ? "" : "secure aggregation failed");
    }

   private:
    SecAggCalls* c_;
  };
  std::unique_ptr<fcp::client::SecAggRunner> CreateSecAggRunner(std::unique_ptr<fcp::client::SecAggSendToServerBase>,
                                                                std::unique_ptr<fcp::client::SecAggProtocolDelegate>,
                                                                fcp::client::SecAggEventPublisher*, fcp::client::LogManager*,
                                                                fcp::client::InterruptibleRunner*, int64_t expected,
                                                                int64_t surviving) override {
    c_->made++;
    c_->expected = expected;
    c_->surviving = surviving;
    return std::make_unique<Runner>(c_);
  }

 private:
  SecAggCalls* c_;
};

struct SessionOptions {
  bool confidential = false;  // mostly confidential tasks
  int quiet = 14;             // one fault in so many answers
};

class Session {
 public:
  Session(Src& s, Case& c, SessionOptions o) : s(s), c(c), opt(o) {}

  void Run() {
    Draw();
    Build();
    if (Eligibility()) Assign();
    c.nontrivial(calls >= 2);
    if (reported) c.label("reported");
    if (multi_called) c.label("several tasks");
    if (abort) c.label("interrupted");
    Stats();
    PBT_CHECK(http.misuse.empty(), http.misuse);
  }

 private:
  enum Win { kTransient, kPermanent, kRejected, kAccepted };
  struct TaskState {
    int index;
    bool by_id;     // reported with its aggregation id
    bool usable;    // the client got it
    int state = 0;  // 0 open, 1 reported, 2 failed for good
  };

  Src& s;
  Case& c;
  SessionOptions opt;
  SessionFlags flags;
  Log log;
  SecAggEvents secagg_events;
  FcServer server;
  Http http;
  StepClock clock{absl::FromUnixSeconds(1700000000)};
  std::atomic<bool> abort{false};
  Verdicts verdicts;
  SecAggCalls secagg;
  std::unique_ptr<fh::HttpFederatedProtocol> protocol;
  std::string version, measurement;
  // The eligibility task.
  int eet_kind = 0;
  Offer spec, eet_plan, eet_checkpoint;
  bool has_spec = false, spec_policies = false, spec_garbage = false;
  std::string execution;
  bool eet_enabled = false, eet_reported = false;
  // Progress.
  bool have_times = false, multi_called = false, reported = false;
  std::string stage = "start";
  bool stage_failed = false, accepted = false;
  Code stage_code = Code::kOk;
  std::vector<TaskState> states;
  std::optional<double> pick[4];
  double t0 = 0;
  int calls = 0;
  size_t seen_events = 0;
  bool was_interrupted = false;
  std::vector<std::unique_ptr<fcp::confidential_compute::MessageDecryptor>> decryptors;

  Offer DrawOffer(const std::string& data, int bad) {
    Offer o;
    o.data = data;
    if (bad && s.chance(1, bad)) {
      o.kind = s.of<Offer::Kind>({Offer::kEmptyUri, Offer::kOddFormat, Offer::kBadGzip});
    } else {
      o.kind = s.of<Offer::Kind>({Offer::kInline, Offer::kInlineGzip, Offer::kUri, Offer::kUri});
    }
    // Empty data cannot be told from none when it is compressed.
    if (o.data.empty() && o.kind == Offer::kInlineGzip) o.kind = Offer::kInline;
    if (o.kind == Offer::kUri) {
      o.uri = "https://res.example/" + std::to_string(res_++) + "/x";
      if (bad && s.chance(1, opt.quiet)) o.fault = DrawFault(s, true, false);
    }
    return o;
  }
  int res_ = 0;

  void Draw() {
    flags.conf = opt.confidential ? s.chance(9, 10) : s.flip();
    flags.wire = s.flip();
    flags.untie = s.flip();
    flags.plain = s.chance(1, 3);
    for (int code = 1; code <= 16; ++code) {
      if (s.chance(1, 3)) flags.codes.push_back(code);
    }
    server.api_key = "key" + s.str(3, "ab+/ ");
    server.population = "pop/" + s.str(4, "ab /%#?");
    server.session = "session " + s.str(4, "xy/");
    server.compress = !flags.plain;
    server.entry.base = "https://entry.example" + std::string(s.flip() ? "/e" : "");
    server.ta = DrawForward(s, "assign");
    version = s.str(4, "v1.");
    measurement = s.str(6, "ab=");
    auto& e = server.eet;
    e.set_session_id(server.session);
    Range(e.mutable_retry_window_if_accepted(), 100000 + s.draw(1000), s.draw(40000));
    Range(e.mutable_retry_window_if_rejected(), 50000 + s.draw(1000), s.draw(20000));
    eet_kind = s.weighted({4, 5, 1, 1});  // no task, task, rejected, nothing
    if (s.chance(1, 30)) server.ta.missing = true;
    server.ta.Fill(e.mutable_task_assignment_forwarding_info());
    switch (eet_kind) {
      case 0: e.mutable_no_eligibility_eval_configured(); break;
      case 1: {
        auto* t = e.mutable_eligibility_eval_task();
        execution = "exec" + s.str(3, "01");
        t->set_execution_id(execution);
        has_spec = s.flip();
        if (has_spec) {
          google::internal::federated::plan::PopulationEligibilitySpec p;
          p.add_task_info()->set_task_name("t" + s.str(2, "ab"));
          spec_policies = s.flip();
          if (spec_policies) p.add_eligibility_policies()->set_name("p" + s.str(2, "ab"));
          spec_garbage = s.chance(1, 20);
          spec = DrawOffer(spec_garbage ? std::string("\x0a\xff\xff\xff\xff\x0f\x01", 7) : p.SerializeAsString(), 20);
          spec.Fill(t->mutable_population_eligibility_spec());
        }
        if (!has_spec || s.flip()) {
          eet_plan = DrawOffer("plan" + s.bytes(20), 20);
          eet_checkpoint = DrawOffer("checkpoint" + s.bytes(20), 20);
          eet_plan.Fill(t->mutable_plan());
          eet_checkpoint.Fill(t->mutable_init_checkpoint());
        }
        break;
      }
      case 2: e.mutable_rejection_info(); break;
      default: break;
    }
    int n = 1 + s.small(0, 3);
    for (int i = 0; i < n; ++i) server.tasks.push_back(DrawTask(i));
    if (s.flip()) {
      std::vector<int> all;
      for (int i = 1; i < n; ++i) all.push_back(i);
      server.several = all;
      want_multi = true;
    }
    server.single = 0;
    server.ta_polls = s.small(0, 3);
    if (s.chance(1, 14)) server.ta_error = s.range(1, 16);
    if (s.chance(1, 14)) server.ta_reject = true;
    if (s.chance(1, 25)) server.ta_empty = true;
    if (s.chance(1, 25)) server.ta_wrong_type = true;
    for (auto& t : server.tasks) {
      for (Offer* o : {&t.plan, &t.checkpoint, &t.policy, &t.encryption}) {
        if (o->kind == Offer::kUri) server.offers[o->uri] = o;
      }
    }
    for (Offer* o : {&spec, &eet_plan, &eet_checkpoint}) {
      if (o->kind == Offer::kUri) server.offers[o->uri] = o;
    }
  }
  bool want_multi = false;

  void Range(fc::RetryWindow* w, int64_t lo, int64_t len) {
    w->mutable_delay_min()->set_seconds(lo);
    w->mutable_delay_max()->set_seconds(lo + len);
  }

  ServerTask DrawTask(int i) {
    ServerTask t;
    std::string n = std::to_string(i);
    t.index = i;
    t.name = "task" + n + s.str(2, "/ a");
    t.aggregation = "agg" + n + s.str(2, "/ a");
    t.session = "task session " + s.str(2, "/ ab");
    t.authorization = "auth" + n + s.str(2, "/+ ");
    t.token = "token" + n + s.str(2, "/+ ");
    t.give_token = s.flip();
    t.select = s.str(4, "ab{}");
    t.type = opt.confidential ? (s.chance(9, 10) ? kConfidential : kSimple)
                              : s.of<AggType>({kSimple, kSimple, kSimple, kSecAgg, kConfidential, kUnset});
    t.min_clients = s.draw(100);
    t.plan = DrawOffer("plan" + n + s.bytes(30), 25);
    if (!s.chance(1, 8)) t.checkpoint = DrawOffer(s.bytes(30), 25);
    t.agg = DrawForward(s, "agg" + n);
    t.aggp = DrawForward(s, "aggp" + n);
    t.up = DrawForward(s, "up" + n);
    if (s.chance(1, 30)) t.agg.missing = true;
    if (s.chance(1, 30)) t.aggp.missing = true;
    if (s.chance(1, 30)) t.up.missing = true;
    t.resource = "res" + n + s.str(3, "/ab ");
    t.polls = s.small(0, 3);
    if (s.chance(1, 20)) t.op_error = s.range(1, 16);
    if (s.chance(1, 30)) t.wrong_type = true;
    if (t.type == kConfidential) {
      if (!s.chance(1, 10)) t.policy = DrawOffer("policy" + s.bytes(40), 25);
      fc::ConfidentialEncryptionConfig config;
      while (int(decryptors.size()) <= i) decryptors.push_back(nullptr);
      decryptors[i] = std::make_unique<fcp::confidential_compute::MessageDecryptor>();
      std::string key = *decryptors[i]->GetPublicKey([](absl::string_view) -> absl::StatusOr<std::string> { return std::string(64, 's'); }, -7);
      key_[i] = 0;
      if (s.chance(1, 12)) {
        key_[i] = 1;
        key = s.flip() ? s.bytes(20) : key.substr(0, key.size() - 1 - s.draw(key.size() - 1));
      }
      config.set_public_key(key);
      bool junk = s.chance(1, 25);
      if (junk) key_[i] = 2;
      t.encryption = DrawOffer(junk ? std::string("\x0a\xff\xff\xff\xff\x0f\x01", 7) : config.SerializeAsString(), 25);
      config_[i] = config.SerializeAsString();
    }
    auto* x = t.secagg.mutable_protocol_execution_info();
    x->set_expected_number_of_clients(s.range(2, 50));
    x->set_minimum_surviving_clients_for_reconstruction(s.range(1, 50));
    return t;
  }
  std::map<int, int> key_;  // 0 sound, 1 unusable, 2 the config does not parse
  std::map<int, std::string> config_;

  void Build() {
    server.fault = [this](const std::string& kind) {
      Fault f;
      if (!s.chance(1, opt.quiet)) return f;
      bool best_effort = kind.compare(0, 6, "cancel") == 0 || kind.compare(0, 5, "abort") == 0;
      bool parsed = kind == "eet" || kind == "ta_start" || kind == "ta_multi" || kind.compare(0, 4, "poll") == 0 ||
                    kind.compare(0, 5, "start") == 0 || kind.compare(0, 8, "sa_start") == 0;
      return DrawFault(s, !best_effort, parsed);
    };
    server.amount = [this] { return int64_t(s.draw(1000)); };
    http.handler = [this](const Seen& q) { return server.Handle(q); };
    http.on_hang = [this] { abort = true; };
    http.pick = [this](size_t n) { return s.draw(n); };
    protocol = std::make_unique<fh::HttpFederatedProtocol>(
        &clock, &log, &flags, &http, std::make_unique<SecAggFactory>(&secagg), &secagg_events, nullptr,
        std::make_unique<Verifier>(&verdicts), server.entry.base, server.api_key, server.population, "retry token",
        version, measurement, [this] { return abort.load(); }, absl::BitGen(), PatientTiming());
    CheckWindow(kTransient, "before anything happened");
  }

  // --- the requests of a call -------------------------------------------
  std::string Pending() {
    std::string o;
    for (size_t i = seen_events; i < server.events.size(); ++i) {
      if (!server.events[i].used) o += (o.empty() ? "" : ", ") + server.events[i].kind;
    }
    return o;
  }
  void Begin(const std::string& what) {
    calls++;
    call_ = what;
    seen_events = server.events.size();
    c.log << what << "\n";
  }
  // The next request of the call must be this one.
  const ServerEvent& Take(const std::string& kind) {
    auto v = TakeBatch({kind});
    return *v[0];
  }
  std::vector<const ServerEvent*> TakeBatch(std::vector<std::string> kinds) {
    size_t i = seen_events;
    while (i < server.events.size() && server.events[i].used) ++i;
    std::vector<const ServerEvent*> out;
    for (auto& k : kinds) {
      ServerEvent* hit = nullptr;
      for (size_t j = i; j < server.events.size() && server.events[j].batch == server.events[i].batch; ++j) {
        if (!server.events[j].used && server.events[j].kind == k) hit = &server.events[j];
      }
      PBT_CHECK(hit != nullptr, call_ + ": expected the request '" + k + "', got: " + Pending());
      hit->used = true;
      c.log << "  " << k << (hit->fault ? " (fault " + std::to_string(hit->fault.kind) + "/" + std::to_string(hit->fault.http) + ")" : "") << "\n";
      out.push_back(hit);
    }
    PBT_CHECK(i + kinds.size() >= server.events.size() || server.events[i + kinds.size()].batch != server.events[i].batch,
              call_ + ": more requests in a batch: " + Pending());
    return out;
  }
  void End() {
    PBT_CHECK(server.problem.empty(), call_ + ": " + server.problem);
    PBT_CHECK(Pending().empty(), call_ + ": unexpected requests: " + Pending());
  }
  void SameCode(const absl::Status& got, std::optional<Code> want, const std::string& why) {
    c.log << "  -> " << got.ToString().substr(0, 120) << "\n";
    PBT_CHECK(!want || *want == Code::kUnknown || got.code() == *want,
              call_ + ": " + why + ": code " + std::to_string(int(got.code())) + " instead of " + std::to_string(int(*want)));
    PBT_CHECK(!got.ok() || (want && *want == Code::kOk), call_ + ": succeeded although " + why);
  }

  // The downloads of some offers: takes the requests out of the call and
  // gives the resulting codes, or cancelled for all of them.
  struct Fetch {
    bool interrupted = false;
    std::vector<Code> codes;  // per offer
  };
  Fetch Downloads(const std::vector<std::vector<const Offer*>>& groups, bool required = true) {
    Fetch r;
    std::set<std::string> wanted, allowed;
    bool aborted_before = was_interrupted;
    for (auto& g : groups) {
      Code code = Code::kOk;
      for (auto* o : g) {
        if (code == Code::kOk && o->Refused()) code = o->Error();
      }
      bool fetched = code == Code::kOk;
      for (auto* o : g) {
        if (o->kind == Offer::kUri) {
          allowed.insert(o->uri);
          if (fetched) wanted.insert(o->uri);
        }
        if (code == Code::kOk) code = o->Error();
        if (fetched && o->kind == Offer::kUri && o->fault.kind == Fault::kInterrupt) r.interrupted = true;
      }
      r.codes.push_back(code);
    }
    std::set<std::string> got;
    for (size_t i = seen_events; i < server.events.size(); ++i) {
      auto& e = server.events[i];
      if (e.used || e.kind.compare(0, 4, "res ") != 0) continue;
      std::string uri = e.kind.substr(4);
      if (!allowed.count(uri)) continue;
      PBT_CHECK(got.insert(uri).second, call_ + ": " + uri + " was downloaded twice");
      e.used = true;
    }
    if (required && !aborted_before) {
      for (auto& u : wanted) PBT_CHECK(got.count(u), call_ + ": " + u + " was not downloaded");
    }
    if (r.interrupted) was_interrupted = true;
    return r;
  }

  std::string Payload(const std::variant<std::string, absl::Cord>& v) {
    return std::holds_alternative<std::string>(v) ? std::get<std::string>(v) : std::string(std::get<absl::Cord>(v));
  }
  std::string Got(const Offer& o) { return o.kind == Offer::kNone ? "" : o.data; }

  // --- retry windows ------------------------------------------------------
  void CheckWindow(Win w, const std::string& when) {
    auto seconds = [&] {
      auto r = protocol->GetLatestRetryWindow();
      double lo = absl::ToDoubleSeconds(fcp::TimeUtil::ConvertProtoToAbslDuration(r.delay_min()));
      double hi = absl::ToDoubleSeconds(fcp::TimeUtil::ConvertProtoToAbslDuration(r.delay_max()));
      PBT_CHECK(lo == hi, when + ": the retry window is a range");
      return lo;
    };
    double v = seconds();
    double lo, hi;
    switch (w) {
      case kTransient: lo = 4000; hi = 6000; break;
      case kPermanent: lo = 16000; hi = 24000; break;
      case kRejected: lo = server.eet.retry_window_if_rejected().delay_min().seconds(); hi = server.eet.retry_window_if_rejected().delay_max().seconds(); break;
      default: lo = server.eet.retry_window_if_accepted().delay_min().seconds(); hi = server.eet.retry_window_if_accepted().delay_max().seconds();
    }
    static const char* names[] = {"transient", "permanent", "rejected", "accepted"};
    PBT_CHECK(v >= lo - 120 && v <= hi + 2, when + ": the retry delay " + std::to_string(v) + " is not the " + names[w] + " one");
    if (w == kRejected || w == kAccepted) {
      if (pick[w]) PBT_CHECK(v <= *pick[w] + 1 && v >= *pick[w] - 120, when + ": another retry time was picked");
      pick[w] = v;
    }
  }
  bool Permanent(Code code) {
    return std::find(flags.codes.begin(), flags.codes.end(), int(code)) != flags.codes.end();
  }
  void AfterFailure(const absl::Status& st) {
    CheckWindow(Permanent(st.code()) ? kPermanent : have_times ? kRejected : kTransient, call_ + " failed");
  }

  // --- the calls ----------------------------------------------------------
  bool Eligibility() {
    Begin("eligibility");
    std::vector<std::string> told;
    auto r = protocol->EligibilityEvalCheckin([&](const FederatedProtocol::EligibilityEvalTask& t) {
      told.push_back(t.execution_id);
      if (Pending() != "eet") server.problem = "downloads before the callback: " + Pending();
    });
    PBT_CHECK(server.problem.empty(), call_ + ": " + server.problem);
    const auto& e = Take("eet");
    auto& q = server.eet_request;
    PBT_EQ(q.client_version().version_code(), version, "client version");
    PBT_CHECK(q.attestation_measurement().value() == measurement, "attestation measurement");
    Capabilities(q.resource_capabilities());
    PBT_CHECK(q.eligibility_eval_task_capabilities().supports_multiple_task_assignment() &&
                  q.eligibility_eval_task_capabilities().supports_native_eets(), "eligibility capabilities");
    auto fail = [&](std::optional<Code> code, const std::string& why) {
      SameCode(r.status(), code, why);
      End();
      AfterFailure(r.status());
      return false;
    };
    if (e.fault) {
      if (e.fault.kind == Fault::kInterrupt) was_interrupted = true;
      PBT_CHECK(told.empty(), "callback without an answer");
      return fail(e.fault.kind == Fault::kGarbage ? Code::kInvalidArgument : *CodeOf(e.fault), "the request failed");
    }
    have_times = true;
    if (eet_kind == 2) {
      PBT_CHECK(r.ok() && std::holds_alternative<FederatedProtocol::Rejection>(*r), "a rejection was not reported");
      End();
      CheckWindow(kRejected, "eligibility rejected");
      return false;
    }
    if (server.ta.missing) return fail(Code::kInvalidArgument, "no place to ask for tasks was given");
    if (eet_kind == 3) return fail(Code::kUnimplemented, "the answer says nothing");
    if (eet_kind == 0) {
      PBT_CHECK(r.ok() && std::holds_alternative<FederatedProtocol::EligibilityEvalDisabled>(*r), "not disabled: " + r.status().ToString());
      PBT_CHECK(!std::get<FederatedProtocol::EligibilityEvalDisabled>(*r).population_eligibility_spec, "a spec out of nothing");
      PBT_CHECK(told.empty(), "callback without a task");
      End();
      CheckWindow(kRejected, "eligibility disabled");
      return true;
    }
    PBT_CHECK(told.size() == 1 && told[0] == execution, "the callback");
    if (has_spec) {
      auto d = Downloads({{&spec}});
      if (d.interrupted) return fail(Code::kCancelled, "interrupted");
      if (d.codes[0] != Code::kOk) return fail(d.codes[0], "the spec could not be had");
      if (spec_garbage) return fail(Code::kInvalidArgument, "the spec is not readable");
      if (!spec_policies) {
        PBT_CHECK(r.ok() && std::holds_alternative<FederatedProtocol::EligibilityEvalDisabled>(*r), "not disabled without policies: " + r.status().ToString());
        auto& sp = std::get<FederatedProtocol::EligibilityEvalDisabled>(*r).population_eligibility_spec;
        PBT_CHECK(sp && sp->SerializeAsString() == spec.data, "the spec changed");
        End();
        CheckWindow(kRejected, "eligibility disabled");
        return true;
      }
    }
    bool has_payload = eet_plan.kind != Offer::kNone;
    if (has_payload) {
      auto d = Downloads({{&eet_plan, &eet_checkpoint}});
      if (d.interrupted) return fail(Code::kCancelled, "interrupted");
      if (d.codes[0] != Code::kOk) return fail(d.codes[0], "the task could not be had");
    }
    PBT_CHECK(r.ok(), "eligibility: " + r.status().ToString());
    PBT_CHECK(std::holds_alternative<FederatedProtocol::EligibilityEvalTask>(*r), "no eligibility task");
    auto& t = std::get<FederatedProtocol::EligibilityEvalTask>(*r);
    PBT_EQ(t.execution_id, execution, "execution id");
    PBT_CHECK(t.population_eligibility_spec.has_value() == has_spec, "the spec");
    if (has_spec) PBT_CHECK(t.population_eligibility_spec->SerializeAsString() == spec.data, "the spec changed");
    if (has_payload) {
      PBT_CHECK(Payload(t.payloads.plan) == eet_plan.data && Payload(t.payloads.checkpoint) == eet_checkpoint.data, "payloads changed");
    }
    End();
    eet_enabled = true;
    CheckWindow(kRejected, "eligibility enabled");
    if (s.chance(1, 8)) {
      ReportEligibilityError();
      return false;
    }
    return true;
  }

  void ReportEligibilityError() {
    Begin("eligibility error");
    Code code = Code(s.range(1, 16));
    size_t before = server.eet_reports.size();
    protocol->ReportEligibilityEvalError(absl::Status(code, "x"));
    auto& e = Take("eet_report");
    if (e.fault.kind == Fault::kInterrupt) was_interrupted = true;
    PBT_CHECK(server.eet_reports.size() == before + 1 && server.eet_reports.back() == int(code), "the reported eligibility error");
    End();
    CheckWindow(kRejected, "after an eligibility error");
  }

  void Capabilities(const fc::ResourceCapabilities& r) {
    PBT_CHECK(r.supported_compression_formats_size() == 1 && r.supported_compression_formats(0) == fc::RESOURCE_COMPRESSION_FORMAT_GZIP, "compression capability");
    PBT_CHECK(r.supports_confidential_aggregation() == flags.conf, "confidential capability");
  }

  void CheckTask(const FederatedProtocol::TaskAssignment& a, const ServerTask& t) {
    PBT_EQ(a.task_name, t.name, "task name");
    PBT_EQ(a.aggregation_session_id, t.aggregation, "aggregation id");
    PBT_EQ(a.federated_select_uri_template, t.select, "select template");
    PBT_CHECK(Payload(a.payloads.plan) == Got(t.plan), "the plan of " + t.name);
    PBT_CHECK(Payload(a.payloads.checkpoint) == Got(t.checkpoint), "the checkpoint of " + t.name);
    PBT_CHECK(a.sec_agg_info.has_value() == (t.type == kSecAgg), "secure aggregation info");
    if (t.type == kSecAgg) PBT_EQ(a.sec_agg_info->minimum_clients_in_server_visible_aggregate, t.min_clients, "minimum clients");
    PBT_CHECK(a.confidential_agg_info.has_value() == (t.type == kConfidential), "confidential info");
    if (t.type == kConfidential) PBT_CHECK(std::string(a.confidential_agg_info->data_access_policy) == Got(t.policy), "the policy of " + t.name);
  }
  // Whether the client can take part in this kind of task.
  bool Supported(const ServerTask& t) {
    if (t.agg.missing) return false;
    return flags.conf ? t.type != kUnset : t.type != kConfidential;
  }

  void Assign() {
    bool go_on = true;
    if (want_multi) {
      Several();
      go_on = s.chance(2, 3);
    }
    bool single = false;
    if (go_on) single = Single();
    // Reports, in any order.
    std::vector<int> order;
    for (size_t i = 0; i < states.size(); ++i) {
      if (states[i].usable) order.push_back(i);
    }
    s.shuffle(&order);
    (void)single;
    for (int i : order) {
      if (s.chance(1, 10)) continue;
      if (s.chance(1, 12)) {
        Begin("report of an unknown task");
        absl::Status st = s.flip() ? protocol->ReportNotCompleted(fcp::client::engine::PhaseOutcome::ERROR, absl::ZeroDuration(), std::string("unknown"))
                                   : protocol->ReportCompleted(ComputationResults(), absl::ZeroDuration(), std::string("unknown"));
        SameCode(st, Code::kInvalidArgument, "an unknown aggregation was named");
        End();
      }
      Report(states[i]);
    }
  }

  std::vector<std::string> Names() {
    std::vector<std::string> v;
    int n = s.small(0, 3);
    for (int i = 0; i < n; ++i) v.push_back("wanted" + s.str(2, "ab"));
    return v;
  }

  void Several() {
    Begin("several");
    multi_called = true;
    auto names = Names();
    std::vector<size_t> told;
    auto r = protocol->PerformMultipleTaskAssignments(names, [&](size_t n) { told.push_back(n); });
    PBT_CHECK(server.problem.empty(), call_ + ": " + server.problem);
    std::vector<std::string> kinds = {"ta_multi"};
    if (eet_enabled) kinds.push_back("eet_report");
    stage = "several";
    auto fail = [&](Code code, const std::string& why) {
      SameCode(r.status(), code, why);
      End();
      AfterFailure(r.status());
    };
    if (was_interrupted) return fail(Code::kCancelled, "the client is interrupted");
    auto b = TakeBatch(kinds);
    if (eet_enabled) {
      PBT_CHECK(server.eet_reports.size() == 1 && server.eet_reports[0] == 0, "eligibility reports");
      eet_reported = true;
    }
    auto& q = server.multi_request;
    PBT_EQ(q.client_version().version_code(), version, "client version");
    Capabilities(q.resource_capabilities());
    PBT_CHECK(std::vector<std::string>(q.task_names().begin(), q.task_names().end()) == names, "requested task names");
    for (auto* e : b) {
      if (e->fault.kind == Fault::kInterrupt) was_interrupted = true;
    }
    if (was_interrupted) return fail(Code::kCancelled, "interrupted");
    if (b[0]->fault) return fail(b[0]->fault.kind == Fault::kGarbage ? Code::kInvalidArgument : *CodeOf(b[0]->fault), "the request failed");
    if (server.several.empty()) {
      PBT_CHECK(r.ok() && r->task_assignments.empty(), "no tasks were given");
      End();
      CheckWindow(kRejected, "no task");
      return;
    }
    std::vector<std::vector<const Offer*>> groups;
    std::vector<int> fetched;
    for (int i : server.several) {
      auto& t = server.tasks[i];
      if (!Supported(t)) continue;
      groups.push_back({&t.plan, &t.checkpoint, &t.policy});
      fetched.push_back(i);
    }
    PBT_CHECK(told.size() == 1 && told[0] == fetched.size(), "the callback of several tasks");
    auto d = Downloads(groups);
    if (d.interrupted) {
      for (int i : fetched) states.push_back({i, true, false});
      return fail(Code::kCancelled, "interrupted");
    }
    PBT_CHECK(r.ok(), "several: " + r.status().ToString());
    PBT_EQ(r->task_assignments.size(), server.several.size(), "number of tasks");
    size_t g = 0;
    for (int i : server.several) {
      auto& t = server.tasks[i];
      auto it = r->task_assignments.find(t.name);
      PBT_CHECK(it != r->task_assignments.end(), "task missing: " + t.name);
      if (!Supported(t)) {
        PBT_CHECK(it->second.status().code() == Code::kInvalidArgument, "an unusable task was accepted");
        continue;
      }
      Code code = d.codes[g++];
      c.log << "  " << t.name << " -> " << it->second.status().ToString() << "\n";
      if (code == Code::kOk) {
        PBT_CHECK(it->second.ok(), t.name + ": " + it->second.status().ToString());
        CheckTask(*it->second, t);
      } else {
        PBT_CHECK(!it->second.ok() && (code == Code::kUnknown || it->second.status().code() == code), "a task with missing data");
      }
      states.push_back({i, true, code == Code::kOk});
    }
    End();
    if (!fetched.empty()) accepted = true;
    CheckWindow(kRejected, "several tasks");
  }

  bool Single() {
    Begin("single");
    std::optional<google::internal::federatedml::v2::TaskEligibilityInfo> info;
    if (eet_enabled) {
      info.emplace();
      info->set_version(1);
      auto* w = info->add_task_weights();
      w->set_task_name("t" + s.str(2, "ab"));
      w->set_weight(float(s.draw(5)));
    }
    std::vector<FederatedProtocol::TaskAssignment> told;
    accepted = false;
    auto r = protocol->Checkin(info, [&](const FederatedProtocol::TaskAssignment& a) { told.push_back(a); });
    PBT_CHECK(server.problem.empty(), call_ + ": " + server.problem);
    bool again = multi_called;
    auto fail = [&](Code code, const std::string& why) {
      SameCode(r.status(), code, why);
      End();
      AfterFailure(r.status());
      return false;
    };
    if (was_interrupted) return fail(Code::kCancelled, "the client is interrupted");
    std::vector<std::string> kinds = {"ta_start"};
    if (eet_enabled && !eet_reported) kinds.push_back("eet_report");
    auto b = TakeBatch(kinds);
    (void)again;
    if (eet_enabled) PBT_CHECK(server.eet_reports.size() == 1 && server.eet_reports[0] == 0, "eligibility reports");
    auto& q = server.ta_request;
    PBT_EQ(q.client_version().version_code(), version, "client version");
    Capabilities(q.resource_capabilities());
    PBT_CHECK(q.has_task_eligibility_info() == info.has_value(), "eligibility info");
    if (info) PBT_CHECK(q.task_eligibility_info().SerializeAsString() == info->SerializeAsString(), "eligibility info changed");
    for (auto* e : b) {
      if (e->fault.kind == Fault::kInterrupt) was_interrupted = true;
    }
    if (was_interrupted) return fail(Code::kCancelled, "interrupted");
    if (b[0]->fault) return fail(CodeOf(b[0]->fault).value_or(Code::kUnknown), "the request failed");
    for (int k = 0; k < server.ta_polls; ++k) {
      auto& e = Take("poll ta_start");
      if (!e.fault) continue;
      Fault f = e.fault;
      if (f.kind == Fault::kInterrupt) was_interrupted = true;
      Take("cancel ta_start");
      return fail(CodeOf(f).value_or(Code::kUnknown), "polling failed");
    }
    if (server.ta_error) return fail(Code(server.ta_error), "the server ended the request with an error");
    if (server.ta_wrong_type) return fail(Code::kInvalidArgument, "the answer has the wrong type");
    if (server.ta_reject) {
      PBT_CHECK(r.ok() && std::holds_alternative<FederatedProtocol::Rejection>(*r), "a rejection was not reported");
      End();
      CheckWindow(kRejected, "rejected");
      return false;
    }
    if (server.ta_empty) return fail(Code::kUnimplemented, "the answer says nothing");
    auto& t = server.tasks[0];
    PBT_CHECK(told.size() == 1 && told[0].task_name == t.name && told[0].aggregation_session_id == t.aggregation, "the callback");
    auto d = Downloads({{&t.plan, &t.checkpoint, &t.policy}}, Supported(t));
    if (d.interrupted) return fail(Code::kCancelled, "interrupted");
    if (d.codes[0] != Code::kOk) return fail(Supported(t) ? d.codes[0] : Code::kUnknown, "the task could not be had");
    if (!Supported(t)) return fail(Code::kInvalidArgument, "the task is not supported");
    PBT_CHECK(r.ok(), "single: " + r.status().ToString());
    PBT_CHECK(std::holds_alternative<FederatedProtocol::TaskAssignment>(*r), "no task");
    CheckTask(std::get<FederatedProtocol::TaskAssignment>(*r), t);
    End();
    accepted = true;
    states.push_back({0, false, true});
    AfterTasks("a task was assigned");
    return true;
  }

  // The retry delay once tasks have been assigned.
  void AfterTasks(const std::string& when) {
    if (!accepted) return;
    int n = 0, done = 0, dead = 0;
    for (auto& t : states) {
      n++;
      done += t.state == 1;
      dead += t.state == 2;
    }
    if (!multi_called) {
      CheckWindow(dead ? kPermanent : kAccepted, when);
    } else {
      CheckWindow(dead == n ? kPermanent : done == n ? kAccepted : kRejected, when);
    }
  }

  void CheckReport(const ServerTask& t, int code, absl::Duration d) {
    PBT_EQ(t.reports.size(), size_t(1), "number of task reports");
    auto& r = t.reports[0];
    PBT_EQ(int(r.computation_status_code()), code, "the reported outcome");
    PBT_CHECK(fcp::TimeUtil::ConvertProtoToAbslDuration(r.client_stats().computation_execution_duration()) == d, "the reported duration");
  }

  void Report(TaskState& ts) {
    auto& t = server.tasks[ts.index];
    std::optional<std::string> id;
    if (ts.by_id) id = t.aggregation;
    absl::Duration d = absl::Milliseconds(int64_t(s.draw(1000000)));
    std::string n = std::to_string(t.index);
    reported = true;
    if (s.chance(1, 4)) {
      Begin("not completed " + n);
      auto o = s.of<fcp::client::engine::PhaseOutcome>({fcp::client::engine::PhaseOutcome::ERROR, fcp::client::engine::PhaseOutcome::INTERRUPTED});
      absl::Status st = protocol->ReportNotCompleted(o, d, id);
      ts.state = 1;
      if (was_interrupted) {
        SameCode(st, Code::kCancelled, "the client is interrupted");
      } else {
        auto& e = Take("report " + n);
        if (e.fault.kind == Fault::kInterrupt) was_interrupted = true;
        CheckReport(t, o == fcp::client::engine::PhaseOutcome::ERROR ? 13 : 1, d);
        SameCode(st, e.fault ? *CodeOf(e.fault) : Code::kOk, "reporting failed");
      }
      End();
      AfterTasks("reported a failure");
      return;
    }
    if (t.type == kSecAgg) return ReportSecAgg(ts, t, id, d);
    ReportUpload(ts, t, id, d);
  }

  void ReportSecAgg(TaskState& ts, ServerTask& t, const std::optional<std::string>& id, absl::Duration d) {
    std::string n = std::to_string(t.index);
    Begin("secure report " + n);
    ComputationResults res;
    std::set<std::string> keys;
    int k = s.range(1, 3);
    for (int i = 0; i < k; ++i) {
      fcp::client::QuantizedTensor q;
      q.values = {1, 2};
      q.bitwidth = 3;
      q.dimensions = {2};
      std::string name = "tensor" + std::to_string(i);
      keys.insert(name);
      res.emplace(name, std::move(q));
    }
    if (s.flip()) res.emplace("tensorflow_checkpoint", std::string("checkpoint"));
    secagg.say = s.chance(1, 4) ? Code(s.range(1, 16)) : Code::kOk;
    int made = secagg.made;
    absl::Status st = protocol->ReportCompleted(std::move(res), d, id);
    ts.state = 1;
    auto fail = [&](std::optional<Code> code, const std::string& why) {
      SameCode(st, code, why);
      PBT_EQ(secagg.made, made, "secure aggregations after a failed start");
      End();
      Unsettled(ts);
    };
    if (was_interrupted) return fail(Code::kCancelled, "the client is interrupted");
    auto b = TakeBatch({"sa_start " + n, "report " + n});
    CheckReport(t, 0, d);
    for (auto* e : b) {
      if (e->fault.kind == Fault::kInterrupt) was_interrupted = true;
    }
    if (was_interrupted) return fail(Code::kCancelled, "interrupted");
    if (b[0]->fault) return fail(CodeOf(b[0]->fault).value_or(Code::kUnknown), "the request failed");
    for (int i = 0; i < t.polls; ++i) {
      auto& e = Take("poll start " + n);
      if (!e.fault) continue;
      if (e.fault.kind == Fault::kInterrupt) was_interrupted = true;
      return fail(CodeOf(e.fault).value_or(Code::kUnknown), "polling failed");
    }
    if (t.op_error) return fail(Code(t.op_error), "the server refused");
    if (t.wrong_type) return fail(Code::kInvalidArgument, "the answer has the wrong type");
    if (t.aggp.missing || t.up.missing) return fail(Code::kInvalidArgument, "a forwarding prefix is missing");
    PBT_EQ(secagg.made, made + 1, "secure aggregations started");
    PBT_EQ(secagg.ran, secagg.made, "secure aggregations run");
    PBT_EQ(secagg.expected, int64_t(t.secagg.protocol_execution_info().expected_number_of_clients()), "expected clients");
    PBT_EQ(secagg.surviving, int64_t(t.secagg.protocol_execution_info().minimum_surviving_clients_for_reconstruction()), "surviving clients");
    PBT_CHECK(secagg.keys == keys, "the aggregated tensors");
    SameCode(st, secagg.say, "secure aggregation failed");
    End();
    if (secagg.say == Code::kOk) AfterTasks("securely reported");
    else Unsettled(ts);
  }
  // A failed secure aggregation may count as either.
  void Unsettled(TaskState& ts) {
    (void)ts;
    accepted = false;
  }

  void ReportUpload(TaskState& ts, ServerTask& t, const std::optional<std::string>& id, absl::Duration d) {
    std::string n = std::to_string(t.index);
    Begin("report " + n);
    bool conf = t.type == kConfidential;
    // The result: of the right form most of the time.
    bool wire = flags.untie ? flags.wire && s.flip() : flags.wire;
    bool wrong_form = s.chance(1, 15);
    int count = s.chance(1, 20) ? s.of<int>({0, 2}) : 1;
    std::string data = "result" + n + s.bytes(s.chance(1, 6) ? 3000 : 40) + "END-OF-RESULT";
    ComputationResults res;
    bool quantized = wrong_form && flags.conf && s.flip();
    if (wrong_form && flags.untie && flags.wire && !quantized) wrong_form = false;
    if (wrong_form && !quantized) wire = !flags.wire;
    for (int i = 0; i < count; ++i) {
      std::string name = "r" + std::to_string(i);
      if (quantized) {
        fcp::client::QuantizedTensor q;
        q.values = {1};
        res.emplace(name, std::move(q));
      } else if (wire) {
        res.emplace(name, absl::Cord(data));
      } else {
        res.emplace(name, data);
      }
    }
    bool refused = count != 1 || quantized || (flags.untie ? wire && !flags.wire : wire != flags.wire);
    verdicts.say = conf && s.chance(1, 6) ? Code(s.range(1, 16)) : Code::kOk;
    size_t asked = verdicts.asked.size(), bodies = server.bodies.size();
    absl::Status st = protocol->ReportCompleted(std::move(res), d, id);
    PBT_CHECK(server.problem.empty(), call_ + ": " + server.problem);
    // Without encryption nothing of a confidential result may leave.
    if (conf) {
      for (size_t i = bodies; i < server.bodies.size(); ++i) {
        PBT_CHECK(server.bodies[i].find("END-OF-RESULT") == std::string::npos, "the result left the client unencrypted");
      }
    }
    auto nothing = [&] {
      PBT_CHECK(t.uploads.empty() && t.submits == 0, "something was uploaded or submitted");
    };
    auto fail = [&](std::optional<Code> code, const std::string& why) {
      SameCode(st, code, why);
      nothing();
      End();
      ts.state = 2;
      AfterTasks(call_ + " failed");
    };
    if (refused) {
      SameCode(st, Code::kInternal, "the result has the wrong form");
      nothing();
      End();
      ts.state = 1;
      AfterTasks(call_ + " refused");
      return;
    }
    if (was_interrupted) return fail(Code::kCancelled, "the client is interrupted");
    auto b = TakeBatch({"start " + n, "report " + n});
    CheckReport(t, 0, d);
    for (auto* e : b) {
      if (e->fault.kind == Fault::kInterrupt) was_interrupted = true;
    }
    if (was_interrupted) return fail(Code::kCancelled, "interrupted");
    if (b[0]->fault) return fail(CodeOf(b[0]->fault).value_or(Code::kUnknown), "the request failed");
    for (int i = 0; i < t.polls; ++i) {
      auto& e = Take("poll start " + n);
      if (!e.fault) continue;
      if (e.fault.kind == Fault::kInterrupt) was_interrupted = true;
      return fail(CodeOf(e.fault).value_or(Code::kUnknown), "polling failed");
    }
    if (t.op_error) return fail(Code(t.op_error), "the server refused");
    if (t.wrong_type) return fail(Code::kInvalidArgument, "the answer has the wrong type");
    if (conf) {
      auto f = Downloads({{&t.encryption}});
      if (f.interrupted) return fail(Code::kCancelled, "interrupted");
      if (f.codes[0] != Code::kOk) return fail(f.codes[0], "the encryption config could not be had");
      if (key_[t.index] == 2) return fail(Code::kInvalidArgument, "the encryption config is not readable");
    }
    if (t.aggp.missing || t.up.missing) return fail(Code::kInvalidArgument, "a forwarding prefix is missing");
    auto aborted = [&](Code code) {
      Take("abort " + n);
      PBT_CHECK(t.abort_codes.size() == 1 && (code == Code::kUnknown || t.abort_codes[0] == int(code)), "the code of the abort");
    };
    if (conf) {
      PBT_EQ(verdicts.asked.size(), asked + 1, "verifications");
      PBT_CHECK(verdicts.asked.back().first == Got(t.policy), "the verified policy is not the task's");
      PBT_CHECK(verdicts.asked.back().second == config_[t.index], "the verified encryption config is not the server's");
      if (verdicts.say != Code::kOk || key_[t.index] == 1) {
        c.label("refused key");
        aborted(verdicts.say != Code::kOk ? verdicts.say : st.code());
        return fail(verdicts.say != Code::kOk ? verdicts.say : Code::kUnknown, "the key is not trusted or unusable");
      }
    } else {
      PBT_EQ(verdicts.asked.size(), asked, "verifications");
    }
    auto& u = Take("upload " + n);
    PBT_EQ(t.uploads.size(), size_t(1), "uploads");
    if (conf) Decrypt(t, t.uploads[0], data);
    else PBT_CHECK(t.uploads[0] == data, "the uploaded data differ from the result");
    if (u.fault) {
      Code code = *CodeOf(u.fault);
      if (u.fault.kind == Fault::kInterrupt) was_interrupted = true;
      if (code != Code::kAborted) aborted(code);
      SameCode(st, code, "the upload failed");
      PBT_CHECK(t.submits == 0, "submitted after a failed upload");
      End();
      ts.state = 2;
      AfterTasks(call_ + " failed");
      c.label("failed upload");
      return;
    }
    auto& m = Take("submit " + n);
    if (m.fault.kind == Fault::kInterrupt) was_interrupted = true;
    SameCode(st, m.fault ? *CodeOf(m.fault) : Code::kOk, "submitting failed");
    PBT_CHECK(t.aborts == 0, "aborted after an upload that worked");
    End();
    ts.state = 1;
    AfterTasks("reported");
    c.label(conf ? "confidential upload" : "upload");
  }

  void Decrypt(const ServerTask& t, const std::string& payload, const std::string& data) {
    absl::string_view rest = payload;
    auto h = fcp::confidential_compute::DecodeAndConsumeClientPayloadHeader(rest);
    PBT_CHECK(h.ok(), "the payload header: " + h.status().ToString());
    fcp::confidentialcompute::BlobHeader b;
    PBT_CHECK(b.ParseFromString(h->serialized_blob_header), "the blob header");
    PBT_CHECK(b.access_policy_sha256() == fcp::ComputeSHA256(Got(t.policy)), "the policy hash in the header");
    fc::ConfidentialEncryptionConfig config;
    config.ParseFromString(config_[t.index]);
    auto cwt = fcp::confidential_compute::OkpCwt::Decode(config.public_key());
    PBT_CHECK(cwt.ok() && b.key_id() == cwt->public_key->key_id, "the key id in the header");
    PBT_CHECK(!b.blob_id().empty() && blob_ids_.insert(b.blob_id()).second, "the blob id is not fresh");
    PBT_CHECK(h->is_gzip_compressed, "not marked as compressed");
    auto p = decryptors[t.index]->Decrypt(rest, h->serialized_blob_header, h->encrypted_symmetric_key, h->serialized_blob_header, h->encapsulated_public_key);
    PBT_CHECK(p.ok(), "the upload does not decrypt: " + p.status().ToString());
    auto u = fcp::UncompressWithGzip(*p);
    PBT_CHECK(u.ok() && std::string(*u) == data, "the decrypted upload differs from the result");
  }
  std::set<std::string> blob_ids_;

  void Stats() {
    if (abort) return;
    auto n = protocol->GetNetworkStats();
    PBT_EQ(n.bytes_uploaded, server.sent, "bytes uploaded");
    PBT_EQ(n.bytes_downloaded, server.received, "bytes downloaded");
  }

  std::string call_;
};

}  // namespace fakes
#endif  // VERIF_FC_SESSION_H_
