// One real secure-aggregation client; the server and all peers are played by
// the harness, which holds the peers' keys and so can read everything the
// client discloses.
#ifndef VERIF_SECAGG_CLIENT_SIM_H_
#define VERIF_SECAGG_CLIENT_SIM_H_

#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "fcp/secagg/shared/aes_gcm_encryption.h"
#include "fcp/secagg/shared/ecdh_key_agreement.h"
#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/shamir_secret_sharing.h"
#include "secagg_sim.h"

namespace csim {

using namespace fcp::secagg;  // NOLINT

// Raises the client's abort signal during the work of a stage.
struct Abrupt {
  std::atomic<std::string*> signal{nullptr};
  std::string reason = "stop now";
  int after = -1;  // calls left until the signal is raised
  void Tick() {
    if (after >= 0 && after-- == 0) signal = &reason;
  }
};

class TickPrng : public SecurePrng {
 public:
  explicit TickPrng(Abrupt* a) : a_(a) {}
  uint8_t Rand8() override {
    a_->Tick();
    return p_.Rand8();
  }
  uint64_t Rand64() override { return p_.Rand64(); }

 private:
  Abrupt* a_;
  CryptoRandPrng p_;
};

class Recorder : public StateTransitionListenerInterface {
 public:
  struct Log {
    std::vector<ClientState> seen;
    int64_t session = 0;
  };
  explicit Recorder(Log* l) : l_(l) {}
  void Transition(ClientState s) override { l_->seen.push_back(s); }
  void Started(ClientState) override {}
  void Stopped(ClientState) override {}
  void set_execution_session_id(int64_t v) override { l_->session = v; }

 private:
  Log* l_;
};

enum Phase { kNew, kShare, kMasked, kWaiting, kUnmask, kDone, kAborted };

class Client {
 public:
  Client(pbt::Src& s, pbt::Case& c) : s(s), c(c) {
    n = s.range(2, 8);
    me = s.draw(n);
    min = s.range(2, n);
    max = n + s.range(0, 2);
    specs = sim::GenSpecs(s);
    input = sim::GenInput(s, specs);
    peers.resize(n);
    for (int i = 0; i < n; ++i) {
      if (i == me) continue;
      peers[i].enc = EcdhKeyAgreement::CreateFromRandomKeys().value();
      peers[i].noise = EcdhKeyAgreement::CreateFromRandomKeys().value();
    }
    client = std::make_unique<SecAggClient>(
        max, min, specs, std::make_unique<TickPrng>(&abrupt),
        std::make_unique<sim::ClientSender>(&out), std::make_unique<Recorder>(&rec),
        std::make_unique<AesCtrPrngFactory>(), &abrupt.signal);
    c.log << "n=" << n << " me=" << me << " min=" << min << " max=" << max << ":";
  }

  // ---- operations ----
  void Start() {
    c.log << " start";
    auto st = client->Start();
    PBT_EQ(st.ok(), phase == kNew, "start");
    if (phase == kNew) {
      auto m = Only("advertised keys");
      PBT_CHECK(m.has_advertise_keys(), "first message is not the key pair");
      enc_pk = m.advertise_keys().pair_of_public_keys().enc_pk();
      noise_pk = m.advertise_keys().pair_of_public_keys().noise_pk();
      PBT_EQ(enc_pk.size(), size_t{33}, "key size");
      PBT_EQ(noise_pk.size(), size_t{33}, "key size");
      PBT_CHECK(enc_pk != noise_pk, "the two public keys are the same");
      phase = kShare;
    }
    Check();
  }

  void SetInput(bool valid) {
    auto map = sim::ToMap(input, specs);
    if (!valid) {
      const auto& sp = s.pick(specs);
      map->erase(sp.name());
      switch (s.draw(4)) {
        case 0:
          break;
        case 1:
          map->emplace("other", SecAggVector(input[sp.name()], sp.modulus()));
          break;
        case 2: {
          auto longer = input[sp.name()];
          longer.push_back(0);
          map->emplace(sp.name(), SecAggVector(longer, sp.modulus()));
          break;
        }
        default:
          map->emplace(sp.name(),
                       SecAggVector(std::vector<uint64_t>(sp.length(), 0),
                                    sp.modulus() == 2 ? 3 : sp.modulus() - 1));
      }
    }
    c.log << (valid ? " input" : " bad-input");
    auto st = client->SetInput(std::move(map));
    bool accepts = phase <= kWaiting && !input_set;
    if (accepts && valid) {
      PBT_CHECK(st.ok(), "input refused: " << st);
      input_set = true;
      if (phase == kWaiting) {
        CheckMasked(Only("masked input"));
        phase = kUnmask;
      }
    } else {
      PBT_CHECK(!st.ok(), "input accepted in a stage or shape that forbids it");
      if (accepts)
        PBT_EQ(static_cast<int>(st.code()),
               static_cast<int>(absl::StatusCode::kInvalidArgument), "bad input");
      else
        PBT_EQ(static_cast<int>(st.code()),
               static_cast<int>(absl::StatusCode::kFailedPrecondition),
               "input at the wrong time");
    }
    Check();
  }

  void Abort() {
    c.log << " abort";
    (void)client->Abort("harness");
    if (phase < kDone) {
      phase = kAborted;
      PBT_CHECK(Only("abort notice").has_abort(), "abort not announced");
    }
    Check();
  }

  void ServerAbort(bool early) {
    c.log << (early ? " early-success" : " server-abort");
    ServerToClientWrapperMessage m;
    m.mutable_abort()->set_early_success(early);
    auto r = client->ReceiveMessage(m);
    if (phase < kDone) {
      PBT_CHECK(r.ok() && !*r, "server abort not accepted");
      phase = early ? kDone : kAborted;
    } else {
      PBT_CHECK(!r.ok(), "finished client accepts a message");
    }
    Check();
  }

  // Sends the message of kind k (kShare, kMasked, kUnmask, or -1 for empty).
  void Message(int k, bool valid) {
    ServerToClientWrapperMessage m;
    std::string what = valid ? "" : "bad-";
    bool really_bad = false;
    std::set<int> dead;
    if (k == kShare) {
      really_bad = MakeShare(&m, !valid);
      what += "share";
    } else if (k == kMasked) {
      really_bad = MakeMasked(&m, !valid, &dead);
      what += "masked";
    } else if (k == kUnmask) {
      really_bad = MakeUnmask(&m, !valid, &dead);
      what += "unmask";
    } else {
      what = "empty";
    }
    c.log << " " << what;
    // Sometimes an abort arrives from elsewhere while the message is handled.
    bool abrupt_now = false;
    if (k == kShare && phase == kShare && s.chance(1, 12)) {
      abrupt.after = s.draw(32);
      abrupt_now = true;
      c.log << "(abrupt)";
    }
    auto r = client->ReceiveMessage(m);
    if (k != phase) {
      PBT_CHECK(!r.ok(), "misplaced message accepted");
      PBT_EQ(static_cast<int>(r.status().code()),
             static_cast<int>(absl::StatusCode::kFailedPrecondition),
             "misplaced message");
      Check();
      return;
    }
    PBT_CHECK(r.ok(), "message of the right kind refused: " << r.status());
    if (really_bad || abrupt_now) {
      PBT_CHECK(client->IsAborted(), "client continues after "
                                         << (really_bad ? "an invalid message"
                                                        : "an abort signal"));
      PBT_CHECK(!*r, "aborted client asks for more");
      PBT_CHECK(Only("abort notice").has_abort(), "abort not announced");
      phase = kAborted;
      Check();
      return;
    }
    if (k == kShare) {
      PBT_EQ(rec.session, m.share_keys_request().sec_agg_execution_logging_id(),
             "logged session id");
      session = m.share_keys_request().session_id();
      CheckShares(Only("encrypted shares"));
      phase = kMasked;
    } else if (k == kMasked) {
      for (int d : dead) peers[d].dead = 2;
      if (input_set) {
        CheckMasked(Only("masked input"));
        phase = kUnmask;
      } else {
        phase = kWaiting;
      }
    } else {
      for (int d : dead) peers[d].dead = 3;
      CheckUnmask(Only("unmasking shares"));
      phase = kDone;
    }
    PBT_EQ(*r, phase < kDone, "whether more messages are expected");
    Check();
  }

  // Everything the client reports must match the phase.
  void Check() {
    PBT_CHECK(out.empty(), "unexpected message from the client: "
                               << out.front().ShortDebugString().substr(0, 100));
    PBT_EQ(client->IsAborted(), phase == kAborted, "aborted");
    PBT_EQ(client->IsCompletedSuccessfully(), phase == kDone, "completed");
    auto e = client->ErrorMessage();
    PBT_EQ(e.ok(), phase == kAborted, "error message");
    if (e.ok()) PBT_CHECK(!e->empty(), "empty abort reason");
    static const ClientState kStates[] = {
        ClientState::R0_ADVERTISE_KEYS, ClientState::R1_SHARE_KEYS,
        ClientState::R2_MASKED_INPUT,   ClientState::R2_MASKED_INPUT,
        ClientState::R3_UNMASKING,      ClientState::COMPLETED,
        ClientState::ABORTED};
    PBT_CHECK(!rec.seen.empty() && rec.seen.back() == kStates[phase],
              "listener saw a different stage");
    int terminal = 0;
    for (size_t i = 0; i < rec.seen.size(); ++i) {
      if (i > 0) PBT_CHECK(rec.seen[i - 1] <= rec.seen[i], "stage went backwards");
      if (rec.seen[i] >= ClientState::COMPLETED) ++terminal;
    }
    PBT_CHECK(terminal <= 1, "finished twice");
  }

  int n, me, min, max;
  Phase phase = kNew;
  bool input_set = false;

 private:
  struct Peer {
    std::unique_ptr<EcdhKeyAgreement> enc, noise;
    int dead = 0;  // stage at which the client learnt of the death
    std::string noise_share, prf_share;   // what the peer sent to the client
    std::string my_noise, my_prf;         // what the client sent to the peer
  };

  ClientToServerWrapperMessage Only(const char* what) {
    PBT_EQ(out.size(), size_t{1}, "number of messages sent, expecting " << what);
    auto m = out.front();
    out.pop_front();
    return m;
  }

  std::set<int> Alive() {
    std::set<int> r;
    for (int i = 0; i < n; ++i)
      if (i != me && peers[i].dead == 0) r.insert(i);
    return r;
  }

  // Up to `spare` of the living peers, in drawn number.
  std::set<int> DrawDead(int keep) {
    std::set<int> r;
    auto alive = Alive();
    std::vector<int> v(alive.begin(), alive.end());
    int spare = static_cast<int>(v.size()) + 1 - keep;
    if (spare <= 0) return r;
    s.shuffle(&v);
    int k = s.flip() ? 0 : s.range(0, spare);
    r.insert(v.begin(), v.begin() + k);
    return r;
  }
  // Enough deaths to fall below the minimum.
  std::set<int> TooManyDead() {
    auto alive = Alive();
    std::vector<int> v(alive.begin(), alive.end());
    s.shuffle(&v);
    int k = static_cast<int>(v.size()) + 1 - (min - 1);
    if (k > static_cast<int>(v.size())) k = v.size();
    return std::set<int>(v.begin(), v.begin() + std::max(0, k));
  }

  bool MakeShare(ServerToClientWrapperMessage* m, bool bad) {
    auto* r = m->mutable_share_keys_request();
    r->set_session_id(s.fixed_bytes(32));
    r->set_sec_agg_execution_logging_id(s.urange(0, 1000));
    std::set<int> dead;
    int how = bad ? s.draw(9) : -1;
    bool wrong = false;
    if (how == 5) {
      dead = TooManyDead();
      wrong = n - static_cast<int>(dead.size()) < min;
    } else {
      dead = DrawDead(min);
    }
    for (int i = 0; i < n; ++i) {
      auto* k = r->add_pairs_of_public_keys();
      if (i == me) {
        k->set_enc_pk(enc_pk.empty() ? std::string(33, 'x') : enc_pk);
        k->set_noise_pk(noise_pk.empty() ? std::string(33, 'y') : noise_pk);
      } else if (dead.count(i)) {
        // Either both keys are missing or only one of them is.
        int w = s.weighted({4, 1, 1});
        if (w == 1) k->set_enc_pk(peers[i].enc->PublicKey().AsString());
        if (w == 2) k->set_noise_pk(peers[i].noise->PublicKey().AsString());
      } else {
        k->set_enc_pk(peers[i].enc->PublicKey().AsString());
        k->set_noise_pk(peers[i].noise->PublicKey().AsString());
      }
    }
    int other = (me + 1 + s.draw(n - 1)) % n;
    auto* ok = r->mutable_pairs_of_public_keys(other);
    switch (how) {
      case 0:
        r->set_session_id(s.fixed_bytes(s.pick(std::vector<int>{0, 1, 31, 33, 64})));
        wrong = true;
        break;
      case 1: {
        auto x = EcdhKeyAgreement::CreateFromRandomKeys().value();
        int w = s.draw(3);
        auto* k = r->mutable_pairs_of_public_keys(me);
        if (w != 1) k->set_enc_pk(x->PublicKey().AsString());
        if (w != 2) k->set_noise_pk(x->PublicKey().AsString());
        wrong = true;
        break;
      }
      case 2:
        *ok = r->pairs_of_public_keys(me);
        wrong = true;
        break;
      case 3:
        while (r->pairs_of_public_keys_size() <= max)
          *r->add_pairs_of_public_keys() = *ok;
        wrong = true;
        break;
      case 4:
        while (r->pairs_of_public_keys_size() >= min)
          r->mutable_pairs_of_public_keys()->RemoveLast();
        wrong = true;
        break;
      case 6: {
        std::string k = s.fixed_bytes(s.pick(std::vector<int>{1, 32, 34, 65}));
        ok->set_enc_pk(peers[other].enc->PublicKey().AsString());
        ok->set_noise_pk(peers[other].noise->PublicKey().AsString());
        if (s.flip()) {
          ok->set_enc_pk(k);
        } else {
          ok->set_noise_pk(k);
        }
        wrong = true;
        break;
      }
      case 7: {
        std::string k(33, static_cast<char>(s.of<int>({0xff, 0x00, 0x05})));
        ok->set_enc_pk(peers[other].enc->PublicKey().AsString());
        ok->set_noise_pk(peers[other].noise->PublicKey().AsString());
        if (s.flip()) {
          ok->set_enc_pk(k);
        } else {
          ok->set_noise_pk(k);
        }
        wrong = true;
        break;
      }
      case 8:
        r->clear_session_id();
        r->clear_pairs_of_public_keys();
        wrong = true;
        break;
      default:
        break;
    }
    if (phase == kShare && !wrong)
      for (int d : dead) peers[d].dead = 1;
    return wrong;
  }

  std::string PeerCipher(int i) {
    PairOfKeyShares p;
    peers[i].noise_share = "N" + std::to_string(i) + s.fixed_bytes(34);
    peers[i].prf_share = "P" + std::to_string(i) + s.fixed_bytes(34);
    p.set_noise_sk_share(peers[i].noise_share);
    p.set_prf_sk_share(peers[i].prf_share);
    return Seal(i, p.SerializeAsString());
  }
  std::string Seal(int i, const std::string& plain) {
    auto key = peers[i].enc->ComputeSharedSecret(
        EcdhPublicKey(reinterpret_cast<const uint8_t*>(enc_pk.data())));
    PBT_CHECK(key.ok(), "shared secret");
    return AesGcmEncryption().Encrypt(*key, plain);
  }

  bool MakeMasked(ServerToClientWrapperMessage* m, bool bad, std::set<int>* dead) {
    auto* r = m->mutable_masked_input_request();
    if (phase != kMasked) {
      for (int i = 0; i < n; ++i) r->add_encrypted_key_shares("x");
      return false;
    }
    int how = bad ? s.draw(8) : -1;
    bool wrong = false;
    auto before = Alive();
    *dead = how == 5 ? TooManyDead() : DrawDead(min);
    if (how == 5) wrong = static_cast<int>(before.size() - dead->size()) + 1 < min;
    std::vector<int> alive;
    for (int i = 0; i < n; ++i) {
      if (i == me || peers[i].dead || dead->count(i)) {
        r->add_encrypted_key_shares("");
      } else {
        r->add_encrypted_key_shares(PeerCipher(i));
        alive.push_back(i);
      }
    }
    if (alive.empty()) return wrong;
    int v = s.pick(alive);
    std::string* x = r->mutable_encrypted_key_shares(v);
    switch (how) {
      case 0:
        if (s.flip()) {
          r->add_encrypted_key_shares(s.flip() ? "" : "x");
        } else {
          r->mutable_encrypted_key_shares()->RemoveLast();
        }
        wrong = true;
        break;
      case 1:
        (*x)[s.draw(x->size())] ^= 1 << s.draw(8);
        wrong = true;
        break;
      case 2:
        x->resize(s.range(1, x->size() - 1));
        wrong = true;
        break;
      case 3:
        if (alive.size() >= 2) {
          int w = alive[(std::find(alive.begin(), alive.end(), v) - alive.begin() + 1) %
                        alive.size()];
          std::swap(*x, *r->mutable_encrypted_key_shares(w));
          wrong = true;
        }
        break;
      case 4:
        for (int i = 0; i < n; ++i) {
          if (i != me && peers[i].dead) {
            r->set_encrypted_key_shares(i, PeerCipher(i));
            wrong = true;
            break;
          }
        }
        break;
      case 6:
        *x = Seal(v, "\xff\xff\xff not a share pair");
        wrong = true;
        break;
      case 7: {
        auto stranger = EcdhKeyAgreement::CreateFromRandomKeys().value();
        auto key = stranger->ComputeSharedSecret(
            EcdhPublicKey(reinterpret_cast<const uint8_t*>(enc_pk.data())));
        PairOfKeyShares p;
        p.set_noise_sk_share(std::string(36, 'n'));
        p.set_prf_sk_share(std::string(36, 'p'));
        *x = AesGcmEncryption().Encrypt(*key, p.SerializeAsString());
        wrong = true;
        break;
      }
      default:
        break;
    }
    return wrong;
  }

  bool MakeUnmask(ServerToClientWrapperMessage* m, bool bad, std::set<int>* dead) {
    auto* r = m->mutable_unmasking_request();
    int how = bad ? s.draw(5) : -1;
    bool wrong = false;
    *dead = how == 4 ? TooManyDead() : DrawDead(min);
    if (how == 4)
      wrong = static_cast<int>(Alive().size() - dead->size()) + 1 < min;
    std::vector<uint32_t> ids;
    for (int d : *dead) ids.push_back(d + 1);
    switch (how) {
      case 0:
        ids.push_back(me + 1);
        wrong = true;
        break;
      case 1:
        ids.push_back(s.of<uint32_t>({0u, static_cast<uint32_t>(n + 1), 0xffffffffu,
                                      static_cast<uint32_t>(n + 17)}));
        wrong = true;
        break;
      case 2:
        if (!ids.empty()) {
          ids.push_back(s.pick(ids));
          wrong = true;
        }
        break;
      case 3:
        for (int i = 0; i < n; ++i) {
          if (i != me && peers[i].dead) {
            ids.push_back(i + 1);
            wrong = true;
            break;
          }
        }
        break;
      default:
        break;
    }
    s.shuffle(&ids);
    for (uint32_t i : ids) r->add_dead_3_client_ids(i);
    return wrong;
  }

  void CheckShares(const ClientToServerWrapperMessage& m) {
    PBT_CHECK(m.has_share_keys_response(), "not a share message");
    const auto& r = m.share_keys_response();
    PBT_EQ(r.encrypted_key_shares_size(), n, "number of encrypted shares");
    std::set<std::string> seen;
    for (int i = 0; i < n; ++i) {
      const std::string& x = r.encrypted_key_shares(i);
      if (i == me || peers[i].dead) {
        PBT_CHECK(x.empty(), "share for itself or for a dead peer");
        continue;
      }
      auto key = peers[i].enc->ComputeSharedSecret(
          EcdhPublicKey(reinterpret_cast<const uint8_t*>(enc_pk.data())));
      auto plain = AesGcmEncryption().Decrypt(*key, x);
      PBT_CHECK(plain.ok(), "peer " << i << " cannot read its share");
      PairOfKeyShares p;
      PBT_CHECK(p.ParseFromString(*plain), "share pair does not parse");
      PBT_EQ(p.noise_sk_share().size(), size_t{36}, "size of a pairwise-key share");
      PBT_EQ(p.prf_sk_share().size(), size_t{36}, "size of a self-mask share");
      PBT_CHECK(p.noise_sk_share() != p.prf_sk_share(), "both shares are equal");
      PBT_CHECK(seen.insert(p.noise_sk_share()).second, "two peers got one share");
      PBT_CHECK(seen.insert(p.prf_sk_share()).second, "two peers got one share");
      peers[i].my_noise = p.noise_sk_share();
      peers[i].my_prf = p.prf_sk_share();
    }
    auto alive = Alive();
    if (static_cast<int>(alive.size()) < min) return;
    std::vector<ShamirShare> noise(n), prf(n);
    std::vector<int> v(alive.begin(), alive.end());
    s.shuffle(&v);
    for (int k = 0; k < min; ++k) {
      noise[v[k]].data = peers[v[k]].my_noise;
      prf[v[k]].data = peers[v[k]].my_prf;
    }
    ShamirSecretSharing sss;
    auto sk = sss.Reconstruct(min, noise, 32);
    auto self = sss.Reconstruct(min, prf, 32);
    PBT_CHECK(sk.ok() && self.ok(), "the threshold of shares does not suffice");
    self_key = *self;
    auto agree = EcdhKeyAgreement::CreateFromKeypair(
        EcdhPrivateKey(reinterpret_cast<const uint8_t*>(sk->data())),
        EcdhPublicKey(reinterpret_cast<const uint8_t*>(noise_pk.data())));
    PBT_CHECK(agree.ok(), "shares do not rebuild the advertised pairwise key");
  }

  void CheckMasked(const ClientToServerWrapperMessage& m) {
    PBT_CHECK(m.has_masked_input_response(), "not a masked input");
    const auto& v = m.masked_input_response().vectors();
    PBT_EQ(v.size(), specs.size(), "number of masked vectors");
    std::vector<AesKey> add, sub;
    if (!self_key.empty()) {
      add.push_back(AesKey(reinterpret_cast<const uint8_t*>(self_key.data())));
      for (int i = 0; i < n; ++i) {
        if (i == me || peers[i].dead) continue;
        auto key = peers[i].noise->ComputeSharedSecret(
            EcdhPublicKey(reinterpret_cast<const uint8_t*>(noise_pk.data())));
        (i < me ? add : sub).push_back(*key);
      }
    }
    auto masks = add.empty() ? nullptr
                             : MapOfMasks(add, sub, specs, SessionId{session},
                                          AesCtrPrngFactory());
    for (auto& sp : specs) {
      auto it = v.find(sp.name());
      PBT_CHECK(it != v.end(), "masked vector missing");
      SecAggVector got(it->second.encoded_vector(), sp.modulus(), sp.length());
      if (!masks) continue;
      auto g = got.GetAsUint64Vector();
      auto k = masks->at(sp.name()).GetAsUint64Vector();
      for (int e = 0; e < sp.length(); ++e)
        PBT_EQ(g[e], (input[sp.name()][e] + k[e]) % sp.modulus(),
               "masked " << sp.name() << "[" << e << "]");
    }
  }

  void CheckUnmask(const ClientToServerWrapperMessage& m) {
    PBT_CHECK(m.has_unmasking_response(), "not an unmasking response");
    const auto& r = m.unmasking_response();
    PBT_EQ(r.noise_or_prf_key_shares_size(), n, "number of unmasking shares");
    for (int i = 0; i < n; ++i) {
      const auto& x = r.noise_or_prf_key_shares(i);
      if (i == me) {
        PBT_CHECK(x.has_prf_sk_share() && x.prf_sk_share().size() == 36,
                  "own self-mask share");
        if (!self_key.empty()) {
          std::vector<ShamirShare> prf(n);
          prf[me].data = x.prf_sk_share();
          int k = 1;
          for (int j = 0; j < n && k < min; ++j)
            if (!peers[j].my_prf.empty()) {
              prf[j].data = peers[j].my_prf;
              ++k;
            }
          auto self = ShamirSecretSharing().Reconstruct(min, prf, 32);
          PBT_CHECK(self.ok() && *self == self_key, "own share is inconsistent");
        }
      } else if (peers[i].dead == 0) {
        PBT_CHECK(x.has_prf_sk_share() && x.prf_sk_share() == peers[i].prf_share,
                  "self-mask share of contributing peer " << i);
      } else if (peers[i].dead == 3) {
        PBT_CHECK(x.has_noise_sk_share() && x.noise_sk_share() == peers[i].noise_share,
                  "pairwise-key share of dropped peer " << i);
      } else {
        PBT_CHECK(!x.has_noise_sk_share() && !x.has_prf_sk_share(),
                  "share of a peer that never shared");
      }
    }
  }

  pbt::Src& s;
  pbt::Case& c;
  Abrupt abrupt;
  Recorder::Log rec;
  std::deque<ClientToServerWrapperMessage> out;
  std::vector<InputVectorSpecification> specs;
  sim::Plain input;
  std::vector<Peer> peers;
  std::string enc_pk, noise_pk, session, self_key;
  std::unique_ptr<SecAggClient> client;
};

}  // namespace csim

#endif  // VERIF_SECAGG_CLIENT_SIM_H_
