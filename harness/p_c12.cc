// LIBS: fcp_client pbt
// C12: native eligibility policies against a direct reading of their meaning.
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "client_fakes.h"
#include "event_recorder.h"
#include "fcp/base/digest.h"
#include "fcp/base/time_util.h"
#include "fcp/client/eligibility_decider.h"
#include "fcp/client/example_query_result.pb.h"
#include "fcp/client/opstats/opstats_logger.h"
#include "fcp/client/phase_logger_impl.h"
#include "fcp/protos/opstats.pb.h"
#include "pbt/pbt.h"
#include "runner_box.h"
#include "tensorflow/core/example/example.pb.h"

namespace {

using fcp::client::ExampleIterator;
using fcp::client::SelectorContext;
using fcp::client::engine::ExampleIteratorFactory;
using fcp::client::engine::PlanOutcome;
using fcp::client::engine::PlanResult;
using fcp::client::opstats::OperationalStats;
using fcp::client::opstats::OpStatsSequence;
using google::internal::federated::plan::EligibilityPolicyEvalSpec;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::PopulationEligibilitySpec;
using google::internal::federatedml::v2::TaskEligibilityInfo;
using pbt::Case;
using pbt::Src;
using Event = OperationalStats::Event;
using Phase = OperationalStats::PhaseStats;

struct Flags : fakes::BaseFlags {
  bool result = false, trust = false, id = false;
  bool use_example_query_result_for_data_avail() const override { return result; }
  bool check_trustworthiness_for_min_sep_policy() const override { return trust; }
  bool enable_lightweight_computation_id() const override { return id; }
};

// What a collection holds.
struct Store {
  int count = 0;         // examples before the end
  int bad_at = -1;       // index of a failing read
  absl::Status error = absl::InvalidArgumentError("bad read");
  bool refuses = false;  // no iterator
  int reported = 0;      // count in the summarised form
  bool garbage = false;
};

class Iterator : public ExampleIterator {
 public:
  Iterator(const Store& st, bool summary) : st_(st), summary_(summary) {}
  absl::StatusOr<std::string> Next() override {
    int i = n_++;
    if (i == st_.bad_at) return st_.error;
    if (summary_) {
      if (st_.garbage) return std::string("\x0a\xff\xff\xff\xff\x0f\x01", 7);
      fcp::client::ExampleQueryResult r;
      r.mutable_stats()->set_example_count_for_logs(st_.reported);
      return r.SerializeAsString();
    }
    if (i >= st_.count) return absl::OutOfRangeError("end");
    return std::string("example");
  }
  void Close() override {}

 private:
  Store st_;
  bool summary_;
  int n_ = 0;
};

struct World {
  Flags flags;
  std::map<std::string, Store> stores;  // by collection
  std::string problem;
};

class Factory : public ExampleIteratorFactory {
 public:
  Factory(World* w, std::set<std::string> uris, std::string name, bool all = false)
      : w_(w), uris_(std::move(uris)), name_(std::move(name)), all_(all) {}
  bool CanHandle(const ExampleSelector& s) override { return all_ || uris_.count(s.collection_uri()) > 0; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s) override {
    return CreateExampleIterator(s, SelectorContext());
  }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s, const SelectorContext& ctx) override {
    auto& p = ctx.computation_properties();
    if (p.session_name() != name_) w_->problem = "the context is not the factory's";
    std::string id = p.eligibility_eval().computation_id();
    if (w_->flags.id ? id != fcp::ComputeSHA256(s.criteria().SerializeAsString()) : !id.empty()) w_->problem = "computation id";
    bool summary = p.example_iterator_output_format() == fcp::client::QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT;
    if (!uris_.count(s.collection_uri())) return absl::NotFoundError("no such collection");
    const Store& st = w_->stores[s.collection_uri()];
    if (st.refuses) return absl::InvalidArgumentError("no iterator");
    return std::make_unique<Iterator>(st, summary);
  }
  SelectorContext GetSelectorContext() const override {
    SelectorContext c;
    c.mutable_computation_properties()->set_session_name(name_);
    return c;
  }
  bool ShouldCollectStats() override { return false; }

 private:
  World* w_;
  std::set<std::string> uris_;
  std::string name_;
  bool all_;  // takes every query, as the client's own last factory does
};

// The policies computed by a plan. Each has a number among its arguments so
// that it can be told which one is being run only by name and tasks.
struct Custom {
  PlanOutcome outcome = PlanOutcome::kSuccess;
  bool parse_error = false;
  bool made = false;        // policies sharing a name share their plan
  bool only_asked = false;  // weighs only the tasks it was asked about
  std::map<std::string, float> weights;  // answers, maybe also about other tasks
};

class Runner : public fcp::client::EetPlanRunner {
 public:
  PlanResult RunPlan(std::vector<ExampleIteratorFactory*> f) override {
    ExampleSelector sel;
    sel.set_collection_uri("internal:/eligibility_context");
    current = nullptr;
    PlanResult bad(PlanOutcome::kTensorflowError, absl::InternalError("no context"));
    for (auto* x : f) {
      if (!x->CanHandle(sel)) continue;
      auto it = x->CreateExampleIterator(sel);
      if (!it.ok()) break;
      auto e = (*it)->Next();
      tensorflow::Example ex;
      if (!e.ok() || !ex.ParseFromString(*e)) break;
      if ((*it)->Next().status().code() != absl::StatusCode::kOutOfRange) problem = "more than one context example";
      (*it)->Close();
      auto& m = ex.features().feature();
      if (!m.count("policy_name") || !m.count("task_names") || m.at("policy_name").bytes_list().value_size() != 1) break;
      std::string name = m.at("policy_name").bytes_list().value(0);
      std::set<std::string> tasks;
      for (auto& t : m.at("task_names").bytes_list().value()) {
        if (!tasks.insert(t).second) problem = "a task named twice in the context";
      }
      if (!policies.count(name)) {
        problem = "a plan was run for the policy " + name;
        break;
      }
      asked.push_back({name, tasks});
      current_tasks = tasks;
      current = &policies[name];
      if (current->outcome == PlanOutcome::kSuccess) return PlanResult(PlanOutcome::kSuccess, absl::OkStatus());
      return PlanResult(current->outcome, absl::InternalError("plan failed"));
    }
    if (!current) problem = problem.empty() ? "no context for the plan" : problem;
    return bad;
  }
  absl::StatusOr<TaskEligibilityInfo> ParseOutput(const std::vector<tensorflow::Tensor>&) override {
    if (!current || current->parse_error) return absl::InvalidArgumentError("unreadable");
    TaskEligibilityInfo i;
    for (auto& w : current->weights) {
      if (current->only_asked && !current_tasks.count(w.first)) continue;
      auto* t = i.add_task_weights();
      t->set_task_name(w.first);
      t->set_weight(w.second);
    }
    return i;
  }
  std::map<std::string, Custom> policies;
  std::vector<std::pair<std::string, std::set<std::string>>> asked;
  std::set<std::string> current_tasks;
  Custom* current = nullptr;
  std::string problem;
};

struct Contribution {
  std::string task;
  int64_t at;
  bool ok;
  std::optional<int64_t> index;
};

struct History {
  OpStatsSequence seq;
  std::vector<Contribution> all;  // oldest first
};

void AddEvent(google::protobuf::RepeatedPtrField<Event>* to, Event::EventKind k, int64_t at, int32_t nanos) {
  auto* e = to->Add();
  e->set_event_type(k);
  e->mutable_timestamp()->set_seconds(at);
  e->mutable_timestamp()->set_nanos(nanos);
}

// Past runs: one task or several each, in the old or the new layout.
History DrawHistory(Src& s, const std::vector<std::string>& names, int64_t now) {
  History h;
  h.seq.mutable_earliest_trustworthy_time()->set_seconds(now - int64_t(s.draw(60)));
  int runs = s.range(0, 7);
  int64_t t = now - 60;
  for (int r = 0; r < runs; ++r) {
    auto* o = h.seq.add_opstats();
    o->set_population_name("p");
    o->set_session_name("s" + std::to_string(r));
    std::optional<int64_t> index;
    if (s.flip()) {
      index = s.draw(12);
      o->set_min_sep_policy_index(*index);
    }
    auto step = [&] { t = std::min<int64_t>(now, t + s.small(0, 25)); };
    if (s.chance(1, 3)) {
      std::string task = s.pick(names);
      if (s.chance(5, 6)) o->set_task_name(task);
      else task = "";
      step();
      AddEvent(o->mutable_events(), Event::EVENT_KIND_CHECKIN_ACCEPTED, t, 0);
      if (s.chance(3, 4)) {
        step();
        AddEvent(o->mutable_events(), Event::EVENT_KIND_RESULT_UPLOAD_STARTED, t, 0);
        int64_t at = t;
        bool aborted = s.chance(1, 4);
        step();
        if (aborted) AddEvent(o->mutable_events(), Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED, t, 0);
        else if (s.flip()) AddEvent(o->mutable_events(), Event::EVENT_KIND_RESULT_UPLOAD_FINISHED, t, 0);
        h.all.push_back({task, at, !aborted, index});
      }
    } else {
      auto phase = [&](Phase::Phase p, const std::string& task) {
        auto* x = o->add_phase_stats();
        x->set_phase(p);
        x->set_task_name(task);
        return x;
      };
      step();
      AddEvent(phase(Phase::ELIGIBILITY_EVAL_CHECKIN, "")->mutable_events(), Event::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED, t, 0);
      int n = s.small(0, 3);
      for (int k = 0; k < n; ++k) {
        std::string task = s.pick(names);
        if (k == 0 || s.flip()) {
          step();
          AddEvent(phase(s.flip() ? Phase::CHECKIN : Phase::MULTIPLE_TASK_ASSIGNMENTS, "")->mutable_events(), Event::EVENT_KIND_CHECKIN_ACCEPTED, t, 0);
        }
        step();
        AddEvent(phase(Phase::COMPUTATION, task)->mutable_events(), Event::EVENT_KIND_COMPUTATION_STARTED, t, 0);
        if (s.chance(3, 4)) {
          auto* u = phase(Phase::UPLOAD, task);
          step();
          AddEvent(u->mutable_events(), Event::EVENT_KIND_RESULT_UPLOAD_STARTED, t, 0);
          int64_t at = t;
          bool aborted = s.chance(1, 4);
          step();
          if (aborted) AddEvent(u->mutable_events(), Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED, t, 0);
          else if (s.flip()) AddEvent(u->mutable_events(), Event::EVENT_KIND_RESULT_UPLOAD_FINISHED, t, 0);
          h.all.push_back({task, at, !aborted, index});
        }
      }
    }
  }
  return h;
}

void Decide(Src& s, Case& c) {
  World w;
  w.flags.result = s.flip();
  w.flags.trust = s.flip();
  w.flags.id = s.flip();
  std::vector<std::string> names = {"a/1", "a/2", "b/1", "b/2", "c"};
  const int64_t now = 1000000 + s.draw(100);
  fakes::StepClock clock(absl::FromUnixSeconds(now));
  History h = DrawHistory(s, names, now);
  int64_t trusted = now - h.seq.earliest_trustworthy_time().seconds();
  if (s.chance(1, 8)) {
    h.seq.clear_earliest_trustworthy_time();
    trusted = now;
  }

  // The data sources.
  std::vector<std::string> uris = {"app:/x", "app:/y", "app:/z", "app:/none"};
  for (int i = 0; i < 3; ++i) {
    Store st;
    st.count = s.small(0, 6);
    if (s.chance(1, 4)) st.bad_at = s.small(0, 5);
    if (s.chance(1, 3)) st.error = s.flip() ? absl::CancelledError("x") : absl::OutOfRangeError("x");
    st.refuses = s.chance(1, 10);
    st.reported = int(s.draw(8)) - 1;
    st.garbage = s.chance(1, 10);
    w.stores[uris[i]] = st;
  }
  Factory f1(&w, {uris[0]}, "one"), f2(&w, {uris[1], uris[2]}, "two", s.flip());
  std::vector<ExampleIteratorFactory*> factories = {&f1, &f2};

  // The policies, each with the verdict it gives about a task.
  PopulationEligibilitySpec spec;
  Runner runner;
  struct Policy {
    bool supported = true;
    std::map<std::string, bool> ok;
  };
  std::vector<Policy> policies;
  int np = s.range(0, 5);
  bool same_names = s.chance(1, 5);
  int nt = s.range(1, 5);
  std::vector<std::string> tasks = names;
  s.shuffle(&tasks);
  tasks.resize(nt);
  for (int i = 0; i < np; ++i) {
    auto* p = spec.add_eligibility_policies();
    std::string name = same_names ? "policy" : "policy" + std::to_string(i);
    p->set_name(name);
    Policy m;
    int version = s.weighted({4, 6, 2, 1});
    p->set_min_version(version);
    int limit = 1;
    switch (s.weighted({4, 4, 2, 4, 1})) {
      case 0: {
        auto* q = p->mutable_swor_policy();
        int64_t period = s.small(0, 60);
        q->mutable_min_period()->set_seconds(period);
        bool half = s.chance(1, 5);
        if (half) q->mutable_min_period()->set_nanos(500000000);
        double want = period + (half ? 0.5 : 0);
        int group = s.weighted({4, 2, 2, 1});
        if (group == 1) q->set_group_regex("a/.*");
        if (group == 2) q->set_group_regex("(b/1|c)");
        if (group == 3) q->set_group_regex("(");
        auto in_group = [&](const std::string& t, const std::string& task) {
          if (group == 0) return t == task;
          if (group == 1) return t.compare(0, 2, "a/") == 0;
          return t == "b/1" || t == "c";
        };
        for (auto& task : tasks) {
          std::optional<int64_t> last;
          for (auto& x : h.all) {
            if (x.ok && in_group(x.task, task)) last = x.at;
          }
          m.ok[task] = group != 3 && trusted >= want && (!last || now - *last > want);
        }
        c.log << "swor " << want << " group " << group << "; ";
        break;
      }
      case 1: {
        auto* q = p->mutable_data_availability_policy();
        std::string uri = s.pick(uris);
        q->mutable_selector()->set_collection_uri(uri);
        if (s.flip()) q->mutable_selector()->mutable_criteria()->set_value("criteria" + s.str(2, "ab"));
        int need = s.small(0, 7) - (s.chance(1, 10) ? 1 : 0);
        q->set_min_example_count(need);
        bool summary = s.flip();
        q->set_use_example_query_result_format(summary);
        limit = w.flags.result ? 2 : 1;
        bool ok;
        if (!w.stores.count(uri) || w.stores[uri].refuses) {
          ok = false;
        } else {
          auto& st = w.stores[uri];
          if (w.flags.result && summary) ok = st.bad_at != 0 && !st.garbage && st.reported >= need;
          else ok = (st.bad_at < 0 || st.bad_at >= need) && st.count >= need;
        }
        for (auto& t : tasks) m.ok[t] = ok;
        c.log << "data " << uri << " " << need << (summary ? " summary" : "") << "; ";
        break;
      }
      case 2: {
        p->mutable_tf_custom_policy()->set_arguments("x");
        auto& cu = runner.policies[name];
        if (!cu.made) {
          cu.made = true;
          if (s.chance(1, 4)) cu.outcome = s.of<PlanOutcome>({PlanOutcome::kTensorflowError, PlanOutcome::kInterrupted, PlanOutcome::kExampleIteratorError});
          cu.parse_error = s.chance(1, 6);
          cu.only_asked = s.chance(2, 3);
          for (auto& t : names) {
            if (s.chance(2, 3)) cu.weights[t] = s.of<float>({0, 1, 0.25, -1});
          }
        }
        bool works = cu.outcome == PlanOutcome::kSuccess && !cu.parse_error;
        for (auto& t : tasks) m.ok[t] = works && cu.weights.count(t) && cu.weights[t] > 0;
        c.log << "custom; ";
        break;
      }
      case 3: {
        auto* q = p->mutable_min_sep_policy();
        int64_t current = 14 - s.small(0, 14), sep = s.small(0, 8);
        q->set_current_index(current);
        q->set_minimum_separation(sep);
        int64_t period = s.flip() ? 0 : s.small(0, 60);
        if (period || s.flip()) q->mutable_min_trustworthiness_period()->set_seconds(period);
        limit = w.flags.trust ? 2 : 1;
        for (auto& task : tasks) {
          std::optional<Contribution> last;
          for (auto& x : h.all) {
            if (x.ok && x.task == task) last = x;
          }
          bool apart = !last || !last->index || current - *last->index > sep;
          m.ok[task] = apart && (!w.flags.trust || trusted >= period);
        }
        c.log << "separation " << current << "/" << sep << "/" << period << "; ";
        break;
      }
      default:
        limit = -1;  // a kind this client does not know
        c.log << "unknown; ";
    }
    m.supported = limit >= 0 && version <= limit;
    policies.push_back(m);
  }
  std::map<std::string, bool> want;
  std::map<std::string, std::set<std::string>> users;  // policy name -> tasks
  bool some_yes = false, some_no = false;
  for (auto& t : tasks) {
    auto* i = spec.add_task_info();
    i->set_task_name(t);
    i->set_task_assignment_mode(s.flip() ? PopulationEligibilitySpec::TaskInfo::TASK_ASSIGNMENT_MODE_SINGLE
                                         : PopulationEligibilitySpec::TaskInfo::TASK_ASSIGNMENT_MODE_MULTIPLE);
    std::vector<int> idx;
    for (int k = 0; k < np; ++k) {
      if (s.chance(2, 5)) idx.push_back(k);
    }
    s.shuffle(&idx);
    bool ok = true;
    for (int k : idx) {
      i->add_eligibility_policy_indices(k);
      if (s.chance(1, 12)) i->add_eligibility_policy_indices(k);
      ok = ok && policies[k].supported && policies[k].ok[t];
      users[spec.eligibility_policies(k).name()].insert(t);
    }
    want[t] = ok;
    some_yes |= ok && !idx.empty();
    some_no |= !ok;
    c.log << t << (ok ? "+" : "-") << " ";
  }
  c.nontrivial(some_yes && some_no);
  if (some_yes) c.label("eligible with policies");
  if (!h.all.empty()) c.label("history");
  if (same_names) c.label("policies sharing a name");

  fakes::Log log;
  fakes::Events events;
  fcp::client::opstats::OpStatsLogger opstats;
  fcp::client::PhaseLoggerImpl phase(&events, &opstats, &log, &w.flags);
  auto r = fcp::client::ComputeEligibility(spec, log, phase, h.seq, clock, factories, runner, &w.flags);
  PBT_CHECK(r.ok(), "failed: " + r.status().ToString());
  PBT_CHECK(w.problem.empty(), w.problem);
  PBT_CHECK(runner.problem.empty(), runner.problem);
  for (auto& a : runner.asked) {
    for (auto& t : a.second) PBT_CHECK(users[a.first].count(t), "a plan was asked about " + t + ", which does not use its policy");
  }
  PBT_EQ(r->version(), 1, "version");
  PBT_EQ(r->task_weights_size(), nt, "number of tasks");
  for (int i = 0; i < nt; ++i) {
    auto& tw = r->task_weights(i);
    PBT_EQ(tw.task_name(), tasks[i], "task " + std::to_string(i));
    PBT_CHECK(tw.weight() == (want[tasks[i]] ? 1.0f : 0.0f),
              tasks[i] + (want[tasks[i]] ? " is eligible" : " is not eligible") + " but has weight " + std::to_string(tw.weight()));
  }
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C12", "some task is eligible under its policies and some task is not",
                   {{"decide", Decide, 300000, 3000000}});
}
