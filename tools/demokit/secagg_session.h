// A small secure-aggregation session for demonstrations: real clients, real
// server, everything on one thread; the caller decides who answers when.
#ifndef SECAGG_SESSION_H_
#define SECAGG_SESSION_H_
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "fcp/base/scheduler.h"
#include "fcp/secagg/client/secagg_client.h"
#include "fcp/secagg/client/send_to_server_interface.h"
#include "fcp/secagg/client/state_transition_listener_interface.h"
#include "fcp/secagg/server/experiments_names.h"
#include "fcp/secagg/server/secagg_server.h"
#include "fcp/secagg/server/send_to_clients_interface.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/crypto_rand_prng.h"

#define REQUIRE(c)                                                       \
  do {                                                                   \
    if (!(c)) {                                                          \
      std::printf("line %d: %s does not hold\n", __LINE__, #c);          \
      std::exit(1);                                                      \
    }                                                                    \
  } while (0)

using namespace fcp::secagg;  // NOLINT

class Queue : public fcp::Scheduler {
 public:
  void Schedule(std::function<void()> t) override { q.push_back(std::move(t)); }
  void WaitUntilIdle() override {
    while (!q.empty()) {
      auto t = std::move(q.front());
      q.pop_front();
      t();
    }
  }
  std::deque<std::function<void()>> q;
};
class Switches : public ExperimentsInterface {
 public:
  explicit Switches(std::set<std::string> on) : on_(std::move(on)) {}
  bool IsEnabled(absl::string_view n) override { return on_.count(std::string(n)); }
  std::set<std::string> on_;
};
class NoListener : public StateTransitionListenerInterface {
 public:
  void Transition(ClientState) override {}
  void Started(ClientState) override {}
  void Stopped(ClientState) override {}
  void set_execution_session_id(int64_t) override {}
};
class ToServer : public SendToServerInterface {
 public:
  explicit ToServer(std::deque<ClientToServerWrapperMessage>* o) : o_(o) {}
  void Send(ClientToServerWrapperMessage* m) override { o_->push_back(*m); }
  std::deque<ClientToServerWrapperMessage>* o_;
};
class ToClients : public SendToClientsInterface {
 public:
  void Send(uint32_t id, const ServerToClientWrapperMessage& m) override {
    sent.push_back({id, m});
  }
  std::vector<std::pair<uint32_t, ServerToClientWrapperMessage>> sent;
};

struct Session {
  int n;
  Queue par, seq;
  ToClients out;
  std::vector<InputVectorSpecification> specs;
  std::unique_ptr<SecAggServer> server;
  std::vector<std::unique_ptr<SecAggClient>> clients;
  std::vector<std::deque<ClientToServerWrapperMessage>> pending;
  std::vector<std::map<std::string, std::vector<uint64_t>>> inputs;

  Session(int n, double dropout, std::set<std::string> experiments,
          std::vector<InputVectorSpecification> specs)
      : n(n), specs(specs), pending(n), inputs(n) {
    SecureAggregationRequirements req;
    req.set_adversarial_client_rate(0);
    req.set_estimated_dropout_rate(dropout);
    req.set_adversary_class(AdversaryClass::CURIOUS_SERVER);
    auto s = SecAggServer::Create(2, n, specs, &out, nullptr,
                                  std::make_unique<SecAggScheduler>(&par, &seq),
                                  std::make_unique<Switches>(experiments), req);
    REQUIRE(s.ok());
    server = std::move(*s);
    for (int i = 0; i < n; ++i) {
      clients.push_back(std::make_unique<SecAggClient>(
          server->NumberOfNeighbors(),
          server->MinimumSurvivingNeighborsForReconstruction(), specs,
          std::make_unique<CryptoRandPrng>(),
          std::make_unique<ToServer>(&pending[i]),
          std::make_unique<NoListener>(), std::make_unique<AesCtrPrngFactory>()));
      auto m = std::make_unique<SecAggVectorMap>();
      for (auto& sp : specs) {
        std::vector<uint64_t> v;
        for (int k = 0; k < sp.length(); ++k)
          v.push_back((1000003ull * (i + 1) + 7919ull * k) % sp.modulus());
        inputs[i][sp.name()] = v;
        m->emplace(sp.name(), SecAggVector(v, sp.modulus()));
      }
      REQUIRE(clients[i]->SetInput(std::move(m)).ok());
      REQUIRE(clients[i]->Start().ok());
    }
  }
  ~Session() { Idle(); }
  void Idle() {
    while (!par.q.empty() || !seq.q.empty()) {
      par.WaitUntilIdle();
      seq.WaitUntilIdle();
    }
  }
  // Hands what the server sent to the clients.
  void ToAll() {
    auto batch = std::move(out.sent);
    out.sent.clear();
    for (auto& [id, m] : batch)
      if (!clients[id]->IsAborted()) (void)clients[id]->ReceiveMessage(m);
  }
  // Hands the server what client i has waiting.
  bool FromOne(int i) {
    while (!pending[i].empty()) {
      auto m = std::make_unique<ClientToServerWrapperMessage>(pending[i].front());
      pending[i].pop_front();
      auto r = server->ReceiveMessage(i, std::move(m));
      if (!r.ok()) return false;
    }
    return true;
  }
  void FromAll(std::set<int> except = {}) {
    for (int i = 0; i < n; ++i)
      if (!except.count(i)) FromOne(i);
  }
  void Next() {
    Idle();
    auto r = server->ProceedToNextRound();
    (void)r;
    ToAll();
  }
  void Finish() {
    server->SetAsyncCallback([] {});
    Next();
  }
  std::map<std::string, std::vector<uint64_t>> Sum(std::set<int> who) {
    std::map<std::string, std::vector<uint64_t>> r;
    for (auto& sp : specs) {
      std::vector<uint64_t> v(sp.length(), 0);
      for (int i : who)
        for (int k = 0; k < sp.length(); ++k)
          v[k] = static_cast<uint64_t>(
              (static_cast<unsigned __int128>(v[k]) + inputs[i][sp.name()][k]) %
              sp.modulus());
      r[sp.name()] = v;
    }
    return r;
  }
  std::map<std::string, std::vector<uint64_t>> Result() {
    REQUIRE(server->State() == SecAggServerStateKind::COMPLETED);
    auto r = server->Result();
    REQUIRE(r.ok());
    std::map<std::string, std::vector<uint64_t>> o;
    for (auto& [k, v] : **r) o[k] = v.GetAsUint64Vector();
    return o;
  }
};
#endif
