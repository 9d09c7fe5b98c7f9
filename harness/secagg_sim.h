// A secure-aggregation session between real clients and the real server, with
// message order, dropouts, misbehaviour and task order drawn from the choice
// sequence, next to a reference model of the server's bookkeeping.
#ifndef VERIF_SECAGG_SIM_H_
#define VERIF_SECAGG_SIM_H_

#include <cmath>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "fcp/base/scheduler.h"
#include "fcp/secagg/client/secagg_client.h"
#include "fcp/secagg/client/send_to_server_interface.h"
#include "fcp/secagg/client/state_transition_listener_interface.h"
#include "fcp/secagg/server/experiments_names.h"
#include "fcp/secagg/server/secagg_server.h"
#include "fcp/secagg/server/send_to_clients_interface.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/crypto_rand_prng.h"
#include "nulltrace.h"
#include "pbt/pbt.h"

namespace sim {

using namespace fcp::secagg;  // NOLINT
typedef std::map<std::string, std::vector<uint64_t>> Plain;

// Runs tasks only when told to, in the order told.
class QScheduler : public fcp::Scheduler {
 public:
  void Schedule(std::function<void()> t) override { q.push_back(std::move(t)); }
  void WaitUntilIdle() override {
    while (!q.empty()) RunAt(0);
  }
  void RunAt(size_t i) {
    auto t = std::move(q[i]);
    q.erase(q.begin() + i);
    t();
  }
  std::deque<std::function<void()>> q;
};

class Experiments : public ExperimentsInterface {
 public:
  explicit Experiments(std::set<std::string> on) : on_(std::move(on)) {}
  bool IsEnabled(absl::string_view name) override {
    return on_.count(std::string(name)) > 0;
  }

 private:
  std::set<std::string> on_;
};

class Listener : public StateTransitionListenerInterface {
 public:
  void Transition(ClientState) override {}
  void Started(ClientState) override {}
  void Stopped(ClientState) override {}
  void set_execution_session_id(int64_t) override {}
};

class ClientSender : public SendToServerInterface {
 public:
  explicit ClientSender(std::deque<ClientToServerWrapperMessage>* out)
      : out_(out) {}
  void Send(ClientToServerWrapperMessage* m) override { out_->push_back(*m); }

 private:
  std::deque<ClientToServerWrapperMessage>* out_;
};

class ServerSender : public SendToClientsInterface {
 public:
  void Send(uint32_t id, const ServerToClientWrapperMessage& m) override {
    sent.push_back({id, m});
  }
  std::vector<std::pair<uint32_t, ServerToClientWrapperMessage>> sent;
};

inline uint64_t GenModulus(pbt::Src& s) {
  int bits = s.range(1, 62);
  switch (s.weighted({3, 2, 2})) {
    case 0:
      return 1ull << bits;
    case 1: {
      uint64_t m = (1ull << bits) + s.range(-2, 2);
      return std::min<uint64_t>(std::max<uint64_t>(m, 2), 1ull << 62);
    }
    default:
      return s.urange(2, 1ull << bits);
  }
}

inline std::vector<InputVectorSpecification> GenSpecs(pbt::Src& s) {
  std::vector<InputVectorSpecification> out;
  int n = s.small(1, 3);
  for (int i = 0; i < n; ++i) {
    int len = s.chance(1, 15) ? s.range(200, 600) : s.small(1, 12);
    out.emplace_back("v" + std::to_string(i), len, GenModulus(s));
  }
  return out;
}

inline Plain GenInput(pbt::Src& s,
                      const std::vector<InputVectorSpecification>& specs) {
  Plain p;
  for (auto& sp : specs) {
    auto& v = p[sp.name()];
    bool max = s.chance(1, 3);
    uint64_t base = s.urange(0, sp.modulus() - 1);
    for (int i = 0; i < sp.length(); ++i)
      v.push_back(max ? sp.modulus() - 1
                      : (base + static_cast<uint64_t>(i) * 7919) % sp.modulus());
  }
  return p;
}

inline std::unique_ptr<SecAggVectorMap> ToMap(
    const Plain& p, const std::vector<InputVectorSpecification>& specs) {
  auto m = std::make_unique<SecAggVectorMap>();
  for (auto& sp : specs)
    m->emplace(sp.name(), SecAggVector(p.at(sp.name()), sp.modulus()));
  return m;
}

enum Round { R0, R1, R2, R3, PRNG, COMPLETED, ABORTED };

inline Round ToRound(SecAggServerStateKind k) {
  switch (k) {
    case SecAggServerStateKind::R0_ADVERTISE_KEYS:
      return R0;
    case SecAggServerStateKind::R1_SHARE_KEYS:
      return R1;
    case SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION:
      return R2;
    case SecAggServerStateKind::R3_UNMASKING:
      return R3;
    case SecAggServerStateKind::PRNG_RUNNING:
      return PRNG;
    case SecAggServerStateKind::COMPLETED:
      return COMPLETED;
    default:
      return ABORTED;
  }
}

// What the server should report, from the history of calls alone.
struct Model {
  int n = 0, min = 0;
  int round = R0;
  std::vector<int> stage;   // messages accepted from each client
  std::vector<bool> dead;
  int before = 0, after = 0, terminated = 0, ready = 0, msgs = 0;
  bool doomed = false;

  void Init(int clients, int minimum) {
    n = clients;
    min = minimum;
    stage.assign(n, 0);
    dead.assign(n, false);
  }
  int alive() const { return n - before - after - terminated; }
  void Drop(int i, bool early = false) {
    if (dead[i]) return;
    dead[i] = true;
    bool responded = stage[i] == round + 1;
    switch (round) {
      case R0:
      case R1:
        before++;
        if (responded) ready--;
        if (alive() < min) doomed = true;
        break;
      case R2:
        if (responded) {
          ready--;
          after++;
        } else {
          before++;
        }
        if (alive() < min) doomed = true;
        break;
      case R3:
        if (responded) break;
        if (early) {
          terminated++;
        } else {
          after++;
        }
        if (alive() - ready + msgs < min) doomed = true;
        break;
      default:
        break;
    }
  }
  bool Ready(bool idle) const {
    if (round > R3) return false;
    if (round == R2 && !idle) return false;
    return doomed || (round == R3 ? msgs : ready) >= min;
  }
  std::set<int> Included() const {
    std::set<int> r;
    for (int i = 0; i < n; ++i)
      if (stage[i] >= 3) r.insert(i);
    return r;
  }
};

struct Options {
  bool misbehave = false;
  bool check_server = false;  // compare all reports with the model
  bool threads = false;
};

class Session {
 public:
  Session(pbt::Src& s, pbt::Case& c, Options o) : s(s), c(c), o(o) {}
  ~Session() {
    Idle();
    par.q.clear();
    seq.q.clear();
  }

  void Run() {
    nulltrace::Install();
    Setup();
    int cap = 60 * n + 100;
    for (int step = 0; step < cap && model.round < COMPLETED; ++step) Step();
    Finish();
  }

 private:
  struct Peer {
    std::unique_ptr<SecAggClient> client;
    std::deque<ServerToClientWrapperMessage> in;
    std::deque<ClientToServerWrapperMessage> out;
    Plain input;
    bool input_set = false, connected = true, silent = false, bad = false;
  };

  void Setup() {
    switch (s.weighted({12, 3, 1})) {
      case 0:
        n = s.range(2, 9);
        break;
      case 1:
        n = s.range(10, 16);
        break;
      default:
        n = s.range(17, 40);
    }
    std::set<std::string> ex;
    variant = s.weighted({4, 3, 3});
    if (variant == 1 && n < 4) variant = 0;
    if (variant == 0) ex.insert(kFullgraphSecAggExperiment);
    if (variant == 1) ex.insert(kForceSubgraphSecAggExperiment);
    async = s.chance(1, 3);
    if (async) ex.insert(kSecAggAsyncRound2Experiment);
    if (s.chance(1, 5)) ex.insert(kSubgraphSecAggCuriousServerExperiment);
    double drop = s.pick(std::vector<double>{0, 0.1, 0.2, 0.34, 0.5, 0.7});
    int min_arg = s.chance(1, 4) ? s.range(2, n) : 2;
    SecureAggregationRequirements req;
    req.set_adversarial_client_rate(s.chance(1, 4) ? 0.1 : 0.0);
    req.set_estimated_dropout_rate(drop);
    req.set_adversary_class(s.of<AdversaryClass>(
        {AdversaryClass::CURIOUS_SERVER, AdversaryClass::SEMI_MALICIOUS_SERVER}));
    specs = GenSpecs(s);
    if (o.threads) {
      pool = fcp::CreateThreadPoolScheduler(3);
      one = fcp::CreateThreadPoolScheduler(1);
    }
    auto created = SecAggServer::Create(
        min_arg, n, specs, &sender, nullptr,
        std::make_unique<SecAggScheduler>(o.threads ? pool.get() : &par,
                                          o.threads ? one.get() : &seq),
        std::make_unique<Experiments>(ex), req);
    if (!created.ok()) throw pbt::Discard{};
    server = std::move(*created);
    int min = std::max(min_arg, static_cast<int>(std::ceil(n * (1. - drop))));
    model.Init(n, min);
    full = server->NumberOfNeighbors() == n &&
           server->MinimumSurvivingNeighborsForReconstruction() == min;
    c.log << "n=" << n << " min=" << min << " variant=" << variant
          << " neighbours=" << server->NumberOfNeighbors() << " threshold="
          << server->MinimumSurvivingNeighborsForReconstruction()
          << (async ? " async" : "");
    for (auto& sp : specs)
      c.log << " " << sp.name() << "[" << sp.length() << "]%" << sp.modulus();
    c.log << ":";
    peers.resize(n);
    for (int i = 0; i < n; ++i) {
      Peer& p = peers[i];
      p.input = GenInput(s, specs);
      p.client = std::make_unique<SecAggClient>(
          server->NumberOfNeighbors(),
          server->MinimumSurvivingNeighborsForReconstruction(), specs,
          std::make_unique<CryptoRandPrng>(),
          std::make_unique<ClientSender>(&p.out), std::make_unique<Listener>(),
          std::make_unique<AesCtrPrngFactory>());
      if (s.chance(2, 3)) SetInput(i);
      PBT_CHECK(p.client->Start().ok(), "client start");
    }
    // Budget of lost clients: usually within what the session tolerates.
    int spare = n - min;
    budget = s.chance(4, 5) ? s.range(0, spare) : s.range(0, n);
    if (o.misbehave && s.chance(1, 3)) late = s.range(R1, R3);
    if (o.check_server && s.chance(1, 8)) abort_at = s.range(0, 12 * n);
    if (o.misbehave && s.chance(3, 4)) budget = std::max(budget, std::min(n, spare));
    Compare();
  }

  void SetInput(int i) {
    Peer& p = peers[i];
    auto st = p.client->SetInput(ToMap(p.input, specs));
    p.input_set = true;
    if (!p.client->IsAborted() && !p.client->IsCompletedSuccessfully())
      PBT_CHECK(st.ok(), "input refused: " << st);
  }

  bool Idle() {
    if (o.threads) {
      pool->WaitUntilIdle();
      one->WaitUntilIdle();
      return true;
    }
    return par.q.size() + seq.q.size() == direct.size();
  }

  // Expected messages of the last server call.
  typedef std::multimap<uint32_t, std::string> Sends;
  static std::string Kind(const ServerToClientWrapperMessage& m) {
    if (m.has_abort()) return m.abort().early_success() ? "early" : "abort";
    if (m.has_share_keys_request()) return "keys";
    if (m.has_masked_input_request()) return "masked";
    if (m.has_unmasking_request()) return "unmask";
    return "none";
  }
  void Deliver(const Sends& expected, const char* what) {
    Sends got;
    for (auto& [id, m] : sender.sent) got.insert({id, Kind(m)});
    if (o.check_server && got != expected) {
      std::ostringstream d;
      d << "after " << what << " the server sent";
      for (auto& [id, k] : got) d << " " << k << "->" << id;
      d << " but expected";
      for (auto& [id, k] : expected) d << " " << k << "->" << id;
      PBT_CHECK(false, d.str());
    }
    for (auto& [id, m] : sender.sent) {
      PBT_CHECK(id < static_cast<uint32_t>(n), "message to an unknown client");
      if (peers[id].connected) peers[id].in.push_back(m);
    }
    sender.sent.clear();
    Compare();
  }

  void Compare() {
    PBT_EQ(static_cast<int>(ToRound(server->State())), model.round, "stage");
    if (!o.check_server) return;
    PBT_EQ(server->NumberOfAliveClients(), model.alive(), "alive clients");
    PBT_EQ(server->NumberOfClientsFailedBeforeSendingMaskedInput(), model.before,
           "failed before masked input");
    PBT_EQ(server->NumberOfClientsFailedAfterSendingMaskedInput(), model.after,
           "failed after masked input");
    PBT_EQ(server->NumberOfClientsTerminatedWithoutUnmasking(), model.terminated,
           "terminated without unmasking");
    PBT_EQ(server->IsAborted(), model.round == ABORTED, "aborted");
    PBT_EQ(server->IsCompletedSuccessfully(), model.round == COMPLETED, "completed");
    int included = model.round == R2 ? model.msgs
                   : model.round >= R3 && model.round <= COMPLETED
                       ? static_cast<int>(model.Included().size())
                       : 0;
    PBT_EQ(server->NumberOfIncludedInputs(), included, "included inputs");
    if (model.round != ABORTED) {
      PBT_EQ(server->IsNumberOfIncludedInputsCommitted(), model.round >= R3,
             "included inputs committed");
      std::set<int> dead, got;
      for (int i = 0; i < n; ++i)
        if (model.dead[i]) dead.insert(i);
      for (uint32_t id : server->AbortedClientIds()) got.insert(id);
      PBT_CHECK(got == dead, "aborted client ids differ from the history");
    }
    PBT_EQ(server->NumberOfPendingClients(),
           model.round <= R3 ? model.alive() - model.ready : 0, "pending clients");
    if (model.round < COMPLETED) {
      PBT_EQ(server->ErrorMessage().ok(), false, "error message while running");
      auto ready = server->ReadyForNextRound();
      PBT_CHECK(ready.ok(), "readiness unavailable");
      if (model.round <= R3) {
        PBT_EQ(*ready, model.Ready(Idle()), "ready for the next round");
        PBT_EQ(*server->NumberOfClientsReadyForNextRound(), model.ready,
               "clients ready");
        PBT_EQ(*server->NumberOfMessagesReceivedInThisRound(), model.msgs,
               "messages this round");
        PBT_EQ(*server->MinimumMessagesNeededForNextRound(),
               std::max(0, model.min - (model.round == R3 ? model.msgs : model.ready)),
               "messages needed");
      }
      PBT_EQ(static_cast<int>(server->Result().status().code()),
             static_cast<int>(absl::StatusCode::kUnavailable),
             "result before completion");
    } else {
      PBT_EQ(server->ErrorMessage().ok(), model.round == ABORTED, "error message");
      PBT_CHECK(!server->ReadyForNextRound().ok(), "readiness of a finished session");
      PBT_EQ(static_cast<int>(server->ProceedToNextRound().code()),
             static_cast<int>(absl::StatusCode::kFailedPrecondition),
             "progress of a finished session");
      PBT_CHECK(!server->AbortClient(0, ClientAbortReason::CONNECTION_DROPPED).ok(),
                "client abort in a finished session");
      PBT_CHECK(!server->Abort().ok(), "abort of a finished session");
      PBT_CHECK(sender.sent.empty(), "finished session sends messages");
    }
  }

  void Receive(int i, ClientToServerWrapperMessage m, bool valid,
               const std::string& what) {
    c.log << " " << what << "<-" << i;
    bool abort = m.has_abort();
    bool was_dead = model.dead[i];
    auto r = server->ReceiveMessage(
        i, std::make_unique<ClientToServerWrapperMessage>(std::move(m)));
    PBT_CHECK(r.ok(), "message refused: " << r.status());
    Sends exp;
    if (abort) {
      model.Drop(i);
    } else if (!was_dead) {
      if (valid && model.round <= R3 && model.stage[i] == model.round) {
        model.stage[i]++;
        model.ready++;
        model.msgs++;
        if (model.stage[i] == 3) {
          accepted.insert(i);
          if (async) unobserved = true;
        }
      } else {
        model.Drop(i);
        exp.insert({i, "abort"});
      }
    }
    if (o.check_server && model.round <= R3)
      PBT_EQ(*r, model.Ready(Idle()), "returned readiness");
    Deliver(exp, what.c_str());
  }

  void Proceed() {
    bool ready = *server->ReadyForNextRound();
    if (model.round <= R3 && !o.check_server) {
      PBT_EQ(ready, model.Ready(Idle()), "ready for the next round");
    }
    c.log << " proceed";
    auto st = server->ProceedToNextRound();
    if (!ready) {
      PBT_EQ(static_cast<int>(st.code()),
             static_cast<int>(absl::StatusCode::kUnavailable),
             "proceeding while not ready");
      Deliver({}, "proceed while not ready");
      return;
    }
    PBT_CHECK(st.ok(), "proceed failed: " << st);
    Sends exp;
    if (model.round == PRNG) {
      Round now = ToRound(server->State());
      if (now == ABORTED) {
        // Only possible when too few key shares of some client arrived.
        PBT_CHECK(!full || bad_shares, "unmasking failed although enough clients "
                                       "answered: " << *server->ErrorMessage());
        PBT_CHECK(bad_shares || losses, "unmasking failed without losses: "
                                            << *server->ErrorMessage());
        model.round = ABORTED;
      } else {
        model.round = COMPLETED;
      }
      Deliver(exp, "proceed");
      return;
    }
    if (model.doomed) {
      for (int i = 0; i < n; ++i)
        if (!model.dead[i]) exp.insert({i, "abort"});
      model.round = ABORTED;
      Deliver(exp, "proceed");
      return;
    }
    for (int i = 0; i < n; ++i) {
      if (model.dead[i]) continue;
      if (model.stage[i] != model.round + 1) {
        exp.insert({i, model.round == R3 ? "early" : "abort"});
        if (model.round != R3 || !full) losses = true;
        model.Drop(i, true);
      } else if (model.round < R3) {
        static const char* kNext[] = {"keys", "masked", "unmask"};
        exp.insert({i, kNext[model.round]});
      }
    }
    model.doomed = false;
    model.round++;
    model.ready = model.msgs = 0;
    Deliver(exp, "proceed");
  }

  // The owner of the session ends it, or asks to be told about finished work.
  void AbortSession() {
    c.log << " abort-session";
    c.label("aborted by its owner in stage " + std::to_string(model.round));
    losses = true;
    bool reason = s.flip();
    auto st = reason ? server->Abort("no longer wanted", SecAggServerOutcome::EXTERNAL_REQUEST)
                     : server->Abort();
    PBT_CHECK(st.ok(), "abort of a running session: " << st);
    Sends exp;
    // While the masks are computed the clients are done: telling them is optional.
    bool tell = model.round < PRNG || !sender.sent.empty();
    for (int i = 0; i < n; ++i)
      if (!model.dead[i] && tell) exp.insert({i, "abort"});
    model.round = ABORTED;
    Deliver(exp, "session abort");
    if (reason)
      PBT_CHECK(server->ErrorMessage()->find("no longer wanted") != std::string::npos,
                "abort reason lost: " << *server->ErrorMessage());
  }

  void Observe() {
    size_t id = observed.size();
    observed.push_back(0);
    c.log << " observe" << id;
    bool expected = model.round == PRNG || (model.round == R2 && unobserved);
    bool idle = Idle();
    bool set = server->SetAsyncCallback([this, id] {
      if (!running) bad_call = "called outside the scheduler";
      if (observed[id]++ > 0) bad_call = "called twice";
      // New work needs a new observer.
      if (!direct.erase(id)) unobserved = false;
    });
    PBT_EQ(set, expected, "asynchronous observer accepted");
    observing = model.round;
    awaited = set ? static_cast<int>(id) : -1;
    if (set && model.round == R2 && idle) {
      // Nothing left to wait for: the call itself is what gets scheduled.
      unobserved = false;
      direct.insert(id);
    }
    c.label(set ? "observer of background work" : "observer refused");
  }

  // With no task left, the latest observer of this stage has been called once.
  void CheckObserver() {
    PBT_CHECK(bad_call.empty(), "observer of background work " << bad_call);
    if (awaited < 0 || model.round != observing || !par.q.empty() || !seq.q.empty())
      return;
    PBT_EQ(observed[awaited], 1, "calls of the observer after the work was done");
    if (model.round == PRNG)
      PBT_CHECK(*server->ReadyForNextRound(), "observer called before the work was done");
  }

  void Step() {
    std::vector<int> with_in, with_out, no_input;
    for (int i = 0; i < n; ++i) {
      Peer& p = peers[i];
      if (!p.connected || p.silent) continue;
      if (!p.in.empty()) with_in.push_back(i);
      if (!p.out.empty()) with_out.push_back(i);
      if (!p.input_set) no_input.push_back(i);
    }
    if (abort_at >= 0 && abort_at-- == 0) {
      AbortSession();
      return;
    }
    if (o.check_server && s.chance(1, 12)) Observe();
    CheckObserver();
    bool tasks = !o.threads && (!par.q.empty() || !seq.q.empty());
    if (o.threads) Idle();
    bool ready = *server->ReadyForNextRound();
    bool quiet = with_in.empty() && with_out.empty() && no_input.empty() && !tasks;
    if (quiet && !ready) {
      // Nobody left will answer: the transport reports the silent ones gone.
      for (int i = 0; i < n; ++i) {
        if (model.dead[i] || model.round > R3) continue;
        if (model.stage[i] == model.round) {
          LoseConnection(i);
          return;
        }
      }
      PBT_CHECK(false, "the session is stuck: nobody is pending, server not ready");
    }
    int w = s.weighted({with_in.empty() ? 0 : 8, with_out.empty() ? 0 : 8,
                        no_input.empty() ? 0 : 3, tasks ? 8 : 0,
                        ready ? (quiet ? 8 : 2) : (quiet ? 0 : 1),
                        budget > 0 && model.round >= late ? (o.misbehave ? 3 : 1) : 0});
    switch (w) {
      case 0: {
        int i = s.pick(with_in);
        Peer& p = peers[i];
        auto m = p.in.front();
        p.in.pop_front();
        bool done = p.client->IsAborted() || p.client->IsCompletedSuccessfully();
        auto r = p.client->ReceiveMessage(m);
        c.log << " ->" << i;
        if (!done && !m.has_abort())
          PBT_CHECK(r.ok(), "honest client refused a server message: " << r.status());
        break;
      }
      case 1: {
        int i = s.pick(with_out);
        Peer& p = peers[i];
        auto m = p.out.front();
        p.out.pop_front();
        if (m.has_abort()) losses = true;
        Receive(i, m, true, m.has_abort() ? "abort" : "msg");
        break;
      }
      case 2:
        SetInput(s.pick(no_input));
        break;
      case 3:
        running = true;
        if (!seq.q.empty() && (par.q.empty() || s.flip())) {
          seq.RunAt(0);
        } else {
          par.RunAt(s.draw(par.q.size()));
        }
        running = false;
        CheckObserver();
        break;
      case 4:
        Proceed();
        break;
      default: {
        budget--;
        int i = s.draw(n);
        if (o.misbehave && s.chance(3, 4)) {
          Misbehave(i);
          break;
        }
        switch (s.draw(4)) {
          case 0:
            LoseConnection(i);
            break;
          case 1:
            c.log << " silent " << i;
            peers[i].silent = true;
            losses = true;
            break;
          case 2:
            c.log << " client-abort " << i;
            losses = true;
            (void)peers[i].client->Abort("giving up");
            break;
          default:
            // Message lost with the connection but noticed late.
            c.log << " mute " << i;
            peers[i].out.clear();
            peers[i].silent = true;
            losses = true;
        }
      }
    }
  }

  void LoseConnection(int i) {
    c.log << " drop " << i;
    losses = true;
    peers[i].connected = false;
    peers[i].in.clear();
    peers[i].out.clear();
    auto st = server->AbortClient(i, ClientAbortReason::CONNECTION_DROPPED);
    PBT_CHECK(st.ok(), "abort client: " << st);
    model.Drop(i);
    Deliver({}, "connection drop");
  }

  // A message the server can recognise as wrong.
  void Misbehave(int i) {
    losses = true;
    Peer& p = peers[i];
    ClientToServerWrapperMessage m;
    int kind = s.draw(7);
    switch (kind) {
      case 0:
        Receive(i, m, false, "empty");
        return;
      case 1: {  // wrong type for the round
        int t = s.draw(4);
        if (t == model.round) t = (t + 1) % 4;
        if (t == 0) m.mutable_advertise_keys();
        if (t == 1) m.mutable_share_keys_response();
        if (t == 2) m.mutable_masked_input_response();
        if (t == 3) m.mutable_unmasking_response();
        Receive(i, m, false, "wrongtype");
        return;
      }
      case 2: {  // server-side abort for some reason
        ClientAbortReason r = s.of<ClientAbortReason>(
            {ClientAbortReason::INVALID_MESSAGE, ClientAbortReason::CONNECTION_DROPPED,
             ClientAbortReason::NOT_CHECKED_IN});
        bool notify = r == ClientAbortReason::INVALID_MESSAGE && !model.dead[i];
        c.log << " abort-client " << i << " reason " << r;
        PBT_CHECK(server->AbortClient(i, r).ok(), "abort client");
        model.Drop(i);
        Sends exp;
        if (notify) exp.insert({i, "abort"});
        Deliver(exp, "client abort");
        return;
      }
      case 3: {  // unknown client id
        m.mutable_advertise_keys();
        auto r = server->ReceiveMessage(
            n + s.draw(3), std::make_unique<ClientToServerWrapperMessage>(m));
        c.log << " unknown id";
        PBT_CHECK(!r.ok(), "message from an unknown client accepted");
        PBT_CHECK(!server->AbortClient(n, ClientAbortReason::INVALID_MESSAGE).ok(),
                  "abort of an unknown client accepted");
        Deliver({}, "unknown client");
        return;
      }
      case 4: {  // duplicate of a genuine message
        if (p.out.empty()) return;
        auto d = p.out.front();
        if (d.has_abort()) return;
        p.out.pop_front();
        Receive(i, d, true, "msg");
        Receive(i, d, false, "dup");
        return;
      }
      default:
        break;
    }
    // Damage the genuine message of this round, if there is one.
    if (p.out.empty()) return;
    m = p.out.front();
    if (m.has_abort()) return;
    p.out.pop_front();
    if (m.has_advertise_keys()) {
      auto* k = m.mutable_advertise_keys()->mutable_pair_of_public_keys();
      switch (s.draw(5)) {
        case 0:
          k->clear_enc_pk();
          break;
        case 1:
          k->clear_noise_pk();
          break;
        case 2:
          k->set_enc_pk(s.fixed_bytes(s.range(0, 32)));
          break;
        case 3:
          k->set_noise_pk(s.fixed_bytes(s.range(34, 70)));
          break;
        default: {
          int len = s.pick(std::vector<int>{0, 1, 32, 34, 64});
          k->set_enc_pk(s.fixed_bytes(len));
          k->set_noise_pk(s.fixed_bytes(len));
        }
      }
      Receive(i, m, false, "badkeys");
    } else if (m.has_share_keys_response()) {
      auto* sh = m.mutable_share_keys_response()->mutable_encrypted_key_shares();
      switch (s.draw(4)) {
        case 0:
          sh->RemoveLast();
          break;
        case 1:
          sh->Clear();
          break;
        case 2:
          *sh->Add() = s.flip() ? "" : "x";
          break;
        default: {
          // Toggle presence of one share.
          auto& x = *sh->Mutable(s.draw(sh->size()));
          x = x.empty() ? "surplus" : "";
        }
      }
      Receive(i, m, false, "badshares");
    } else if (m.has_masked_input_response()) {
      auto* v = m.mutable_masked_input_response()->mutable_vectors();
      const std::string& name = s.pick(specs).name();
      switch (s.draw(5)) {
        case 0:
          v->erase(name);
          break;
        case 1:
          (*v)["surplus"].set_encoded_vector("x");
          break;
        case 2:
          (*v)["renamed"] = (*v)[name];
          v->erase(name);
          break;
        case 3:
          (*v)[name].mutable_encoded_vector()->append("x");
          break;
        default:
          (*v)[name].mutable_encoded_vector()->pop_back();
      }
      Receive(i, m, false, "badinput");
    } else if (m.has_unmasking_response()) {
      auto* sh = m.mutable_unmasking_response()->mutable_noise_or_prf_key_shares();
      switch (s.draw(5)) {
        case 0:
          sh->RemoveLast();
          Receive(i, m, false, "fewshares");
          return;
        case 1:
          sh->Clear();
          Receive(i, m, false, "noshares");
          return;
        case 2:
          sh->Add();
          Receive(i, m, false, "moreshares");
          return;
        case 3: {  // other kind
          // Share for a peer that contributed, one that did not, or none due.
          std::vector<int> kinds[3];
          for (int k = 0; k < sh->size(); ++k)
            kinds[(*sh)[k].has_noise_sk_share() ? 1 : (*sh)[k].has_prf_sk_share() ? 0 : 2]
                .push_back(k);
          std::vector<int> of;
          for (int k = s.draw(3); of.empty(); k = (k + 1) % 3) of = kinds[k];
          auto& x = *sh->Mutable(s.pick(of));
          if (x.has_noise_sk_share()) {
            if (s.flip()) {
              x.set_prf_sk_share(std::string(x.noise_sk_share()));
            } else {
              x.clear_noise_sk_share();
            }
          } else if (x.has_prf_sk_share()) {
            if (s.flip()) {
              x.set_noise_sk_share(std::string(x.prf_sk_share()));
            } else {
              x.clear_prf_sk_share();
            }
          } else {
            if (s.flip()) {
              x.set_prf_sk_share(std::string(36, 'a'));
            } else {
              x.set_noise_sk_share(std::string(36, 'a'));
            }
          }
          Receive(i, m, false, "wrongshare");
          return;
        }
        default: {  // right kind, unusable size: noticed when recombining
          auto& x = *sh->Mutable(s.draw(sh->size()));
          std::string b = s.fixed_bytes(s.pick(std::vector<int>{0, 1, 3, 4, 20, 35, 37, 40, 72}));
          if (x.has_noise_sk_share()) {
            x.set_noise_sk_share(b);
          } else if (x.has_prf_sk_share()) {
            x.set_prf_sk_share(b);
          }
          bad_shares = true;
          Receive(i, m, true, "oddshare" + std::to_string(b.size()));
          return;
        }
      }
    }
  }

  void Finish() {
    // Let the remaining messages reach the clients, then look at the outcome.
    running = true;
    par.WaitUntilIdle();
    seq.WaitUntilIdle();
    running = false;
    Idle();
    PBT_CHECK(model.round >= COMPLETED, "the session did not end");
    bool completed = model.round == COMPLETED;
    c.label(completed ? "completed" : "aborted");
    c.nontrivial(completed && n >= 3);
    if (!completed) {
      auto r = server->Result();
      PBT_CHECK(!r.ok(), "an aborted session yields a result");
      if (!losses && !o.misbehave) PBT_CHECK(false, "aborted without any loss");
      return;
    }
    if (losses) c.label("completed with losses");
    auto r = server->Result();
    PBT_CHECK(r.ok() && *r, "completed session has no result: " << r.status());
    PBT_CHECK(!server->Result().ok() || !*server->Result(), "result handed out twice");
    PBT_CHECK(static_cast<int>(accepted.size()) >= model.min,
              "completed with too few inputs");
    PBT_EQ((*r)->size(), specs.size(), "number of result vectors");
    for (auto& sp : specs) {
      auto it = (*r)->find(sp.name());
      PBT_CHECK(it != (*r)->end(), "result lacks " << sp.name());
      PBT_EQ(it->second.modulus(), sp.modulus(), "result modulus");
      auto v = it->second.GetAsUint64Vector();
      PBT_EQ(v.size(), static_cast<size_t>(sp.length()), "result length");
      for (int e = 0; e < sp.length(); ++e) {
        unsigned __int128 sum = 0;
        for (int i : accepted) sum += peers[i].input[sp.name()][e];
        if (bad_shares) continue;  // a wrong share of the right size misleads
        PBT_EQ(v[e], static_cast<uint64_t>(sum % sp.modulus()),
               "sum of " << sp.name() << "[" << e << "] over " << accepted.size()
                         << " clients");
      }
    }
    // Every connected, alive client ends completed.
    if (o.misbehave) return;
    for (int i = 0; i < n; ++i) {
      Peer& p = peers[i];
      while (!p.in.empty()) {
        auto m = p.in.front();
        p.in.pop_front();
        (void)p.client->ReceiveMessage(m);
      }
      if (model.stage[i] == 4 && !p.client->IsAborted())
        PBT_CHECK(p.client->IsCompletedSuccessfully(),
                  "client " << i << " answered everything but is not completed");
    }
  }

  pbt::Src& s;
  pbt::Case& c;
  Options o;
  int n = 0, variant = 0, budget = 0, late = 0, abort_at = -1;
  std::vector<int> observed;
  std::set<size_t> direct;
  int awaited = -1, observing = -1;
  bool unobserved = false, running = false;
  std::string bad_call;
  bool async = false, full = false, losses = false, bad_shares = false;
  QScheduler par, seq;
  std::unique_ptr<fcp::Scheduler> pool, one;
  ServerSender sender;
  std::vector<InputVectorSpecification> specs;
  std::unique_ptr<SecAggServer> server;
  std::vector<Peer> peers;
  std::set<int> accepted;
  Model model;
};

}  // namespace sim

#endif  // VERIF_SECAGG_SIM_H_
