// A secure aggregation in which one client, number 0, is driven from outside:
// the real server and the other clients answer each of its messages at once.
#ifndef VERIF_SECAGG_WORLD_H_
#define VERIF_SECAGG_WORLD_H_

#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "secagg_sim.h"

namespace sim {

class World {
 public:
  std::vector<InputVectorSpecification> specs;
  std::unique_ptr<SecAggServer> server;
  std::string problem;
  int n, min, round = 0;

  World(pbt::Src& s, std::vector<InputVectorSpecification> sp)
      : specs(std::move(sp)) {
    nulltrace::Install();
    n = s.range(2, 6);
    min = s.range(2, n);
    SecureAggregationRequirements req;
    req.set_estimated_dropout_rate(1.0 - double(min) / n);
    req.set_adversary_class(AdversaryClass::CURIOUS_SERVER);
    auto made = SecAggServer::Create(
        min, n, specs, &sender_, nullptr,
        std::make_unique<SecAggScheduler>(&par_, &seq_),
        std::make_unique<Experiments>(std::set<std::string>{kFullgraphSecAggExperiment}), req);
    if (!made.ok()) throw pbt::Discard{};
    server = std::move(*made);
    peers_.resize(n);
    for (int i = 1; i < n; ++i) {
      Peer& p = peers_[i];
      p.input = GenInput(s, specs);
      p.leaves = s.chance(1, 3) ? s.range(0, 3) : 4;
      p.client = std::make_unique<SecAggClient>(
          neighbours(), threshold(), specs, std::make_unique<CryptoRandPrng>(),
          std::make_unique<ClientSender>(&p.out), std::make_unique<Listener>(),
          std::make_unique<AesCtrPrngFactory>());
      PBT_CHECK(p.client->SetInput(ToMap(p.input, specs)).ok(), "input of another client");
      PBT_CHECK(p.client->Start().ok(), "start of another client");
    }
    // No more clients leave than the session can do without.
    int spare = n - min;
    for (int i = 1; i < n; ++i) {
      if (peers_[i].leaves < 4 && spare-- <= 0) peers_[i].leaves = 4;
    }
  }
  ~World() {
    par_.q.clear();
    seq_.q.clear();
  }

  int neighbours() const { return server->NumberOfNeighbors(); }
  int threshold() const { return server->MinimumSurvivingNeighborsForReconstruction(); }

  // Takes the next message of client 0 and returns the answer to it.
  std::optional<ServerToClientWrapperMessage> Next(const ClientToServerWrapperMessage& m) {
    Deliver(0, m);
    for (int i = 1; i < n; ++i) {
      Peer& p = peers_[i];
      if (p.leaves <= round || p.out.empty()) continue;
      Deliver(i, p.out.front());
      p.out.pop_front();
    }
    if (!problem.empty()) return std::nullopt;
    Drain();
    auto st = server->ProceedToNextRound();
    Drain();
    if (!st.ok()) {
      problem = "the server cannot go on: " + std::string(st.message());
      return std::nullopt;
    }
    if (server->State() == SecAggServerStateKind::PRNG_RUNNING) {
      (void)server->ProceedToNextRound();
      Drain();
    }
    round++;
    std::optional<ServerToClientWrapperMessage> mine;
    for (auto& [id, msg] : sender_.sent) {
      if (id == 0) {
        mine = msg;
      } else if (peers_[id].leaves > round) {
        (void)peers_[id].client->ReceiveMessage(msg);
      }
    }
    sender_.sent.clear();
    return mine;
  }

  // What client 0 contributed, after the whole exchange.
  std::optional<Plain> Contribution() {
    auto r = server->Result();
    if (!r.ok()) return std::nullopt;
    Plain out;
    for (auto& sp : specs) {
      auto it = (*r)->find(sp.name());
      if (it == (*r)->end()) return std::nullopt;
      std::vector<uint64_t> v = it->second.GetAsUint64Vector();
      for (size_t k = 0; k < v.size(); ++k) {
        for (int i = 1; i < n; ++i) {
          if (peers_[i].leaves <= 2) continue;
          uint64_t o = peers_[i].input.at(sp.name())[k];
          v[k] = (v[k] + (sp.modulus() - o)) % sp.modulus();
        }
      }
      out[sp.name()] = v;
    }
    return out;
  }

 private:
  struct Peer {
    std::unique_ptr<SecAggClient> client;
    std::deque<ClientToServerWrapperMessage> out;
    Plain input;
    int leaves = 4;  // the round whose message it no longer sends
  };
  void Drain() {
    while (!par_.q.empty() || !seq_.q.empty()) {
      par_.WaitUntilIdle();
      seq_.WaitUntilIdle();
    }
  }
  void Deliver(int i, const ClientToServerWrapperMessage& m) {
    auto r = server->ReceiveMessage(i, std::make_unique<ClientToServerWrapperMessage>(m));
    if (!r.ok()) {
      problem = "the server refuses the message of client " + std::to_string(i) + " in round " +
                std::to_string(round) + ": " + std::string(r.status().message());
    } else if (server->IsAborted()) {
      problem = "the server aborted";
    } else if (server->AbortedClientIds().count(i)) {
      problem = "the server dropped client " + std::to_string(i) + " over its message in round " + std::to_string(round);
    }
  }

  QScheduler par_, seq_;
  ServerSender sender_;
  std::vector<Peer> peers_;
};

}  // namespace sim
#endif  // VERIF_SECAGG_WORLD_H_
