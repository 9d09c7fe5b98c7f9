// LIBS: fcp_secagg_shared
// S09: pairwise encryption, key agreement and session identifiers.
#include <memory>
#include <set>

#define VERIF_DETRAND_DEFINE
#include "detrand.h"
#include "fcp/secagg/shared/aes_gcm_encryption.h"
#include "fcp/secagg/shared/compute_session_id.h"
#include "fcp/secagg/shared/ecdh_key_agreement.h"
#include "openssl/bn.h"
#include "openssl/ec.h"
#include "openssl/nid.h"
#include "pbt/pbt.h"

using namespace fcp::secagg;

namespace {

const uint8_t* U8(const std::string& s) {
  return reinterpret_cast<const uint8_t*>(s.data());
}

AesKey GenKey(pbt::Src& s) { return AesKey(U8(s.fixed_bytes(32))); }

void Encryption(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(0));
  AesGcmEncryption aes;
  AesKey key = GenKey(s);
  std::string plain = s.chance(1, 20) ? s.fixed_bytes(s.range(200, 5000)) : s.bytes(120);
  std::string ct = aes.Encrypt(key, plain);
  c.log << "plaintext " << plain.size() << " bytes, ciphertext " << ct.size();
  auto back = aes.Decrypt(key, ct);
  PBT_CHECK(back.ok(), "own ciphertext refused");
  PBT_CHECK(*back == plain, "round trip changed the plaintext");
  AesGcmEncryption fresh;
  auto back2 = fresh.Decrypt(key, ct);
  PBT_CHECK(back2.ok() && *back2 == plain, "a second instance disagrees");
  // A second encryption of the same text uses a fresh nonce.
  std::string ct2 = aes.Encrypt(key, plain);
  PBT_CHECK(ct.substr(0, 12) != ct2.substr(0, 12), "nonce reused");
  PBT_CHECK(plain.size() < 8 || ct.find(plain) == std::string::npos,
            "plaintext visible in the ciphertext");
  std::string bad = ct;
  int what = s.draw(7);
  AesKey k2 = key;
  switch (what) {
    case 0: {  // one bit anywhere
      size_t bit = s.draw(bad.size() * 8);
      bad[bit / 8] ^= static_cast<char>(1 << (bit % 8));
      c.log << " flip bit " << bit << " of byte " << bit / 8;
      break;
    }
    case 1:  // truncation
      bad.resize(s.draw(bad.size()));
      c.log << " truncated to " << bad.size();
      break;
    case 2:  // extension
      bad += s.fixed_bytes(s.range(1, 20));
      c.log << " extended";
      break;
    case 3: {  // wrong key
      std::string k = key.AsString();
      size_t bit = s.draw(256);
      k[bit / 8] ^= static_cast<char>(1 << (bit % 8));
      k2 = AesKey(U8(k));
      c.log << " key bit " << bit;
      break;
    }
    case 4:  // nonce of another message
      bad = ct2.substr(0, 12) + ct.substr(12);
      c.log << " foreign nonce";
      break;
    case 5:  // tag of another message
      bad = ct.substr(0, ct.size() - 16) + ct2.substr(ct2.size() - 16);
      c.log << " foreign tag";
      break;
    default:  // arbitrary bytes
      bad = s.bytes(80);
      c.log << " arbitrary bytes " << bad.size();
  }
  c.nontrivial();
  auto r = aes.Decrypt(k2, bad);
  PBT_CHECK(!r.ok(), "tampered ciphertext accepted");
  PBT_EQ(static_cast<int>(r.status().code()),
         static_cast<int>(absl::StatusCode::kDataLoss), "tampering status");
  auto again = aes.Decrypt(key, ct);
  PBT_CHECK(again.ok() && *again == plain, "a refused message broke the next one");
}

std::string Uncompressed(const std::string& pub) {
  EC_GROUP* g = EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1);
  EC_POINT* p = EC_POINT_new(g);
  std::string out(65, 0);
  bool ok = EC_POINT_oct2point(g, p, U8(pub), pub.size(), nullptr) &&
            EC_POINT_point2oct(g, p, POINT_CONVERSION_UNCOMPRESSED,
                               reinterpret_cast<uint8_t*>(&out[0]), 65,
                               nullptr) == 65;
  EC_POINT_free(p);
  EC_GROUP_free(g);
  PBT_CHECK(ok, "public key is not a curve point");
  return out;
}

bool OnCurve(const std::string& pub) {
  EC_GROUP* g = EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1);
  EC_POINT* p = EC_POINT_new(g);
  bool ok = EC_POINT_oct2point(g, p, U8(pub), pub.size(), nullptr);
  EC_POINT_free(p);
  EC_GROUP_free(g);
  return ok;
}

std::unique_ptr<EcdhKeyAgreement> Party() {
  auto r = EcdhKeyAgreement::CreateFromRandomKeys();
  PBT_CHECK(r.ok(), "key generation failed");
  return std::move(*r);
}

// A party with a generated key, often one that starts with zero bytes.
// Generated keys of different names differ.
std::unique_ptr<EcdhKeyAgreement> Chosen(pbt::Src& s, pbt::Case& c, char name) {
  std::string key = s.fixed_bytes(32);
  int zeros = s.small(0, 28);
  for (int i = 0; i < zeros; ++i) key[i] = 0;
  key[0] &= 0x7f;  // below the order of the group
  key[31] = name;
  EC_GROUP* g = EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1);
  EC_POINT* p = EC_POINT_new(g);
  BIGNUM* n = BN_bin2bn(U8(key), key.size(), nullptr);
  std::string pub(33, 0);
  bool ok = EC_POINT_mul(g, p, n, nullptr, nullptr, nullptr) &&
            EC_POINT_point2oct(g, p, POINT_CONVERSION_COMPRESSED, reinterpret_cast<uint8_t*>(&pub[0]), 33, nullptr) == 33;
  BN_free(n);
  EC_POINT_free(p);
  EC_GROUP_free(g);
  PBT_CHECK(ok, "no public key");
  auto r = EcdhKeyAgreement::CreateFromKeypair(EcdhPrivateKey(U8(key)), EcdhPublicKey(U8(pub)));
  PBT_CHECK(r.ok(), "valid key pair refused");
  PBT_CHECK((*r)->PrivateKey().AsString() == key && (*r)->PublicKey().AsString() == pub, "stored keys changed");
  c.log << "key with " << zeros << " zero bytes\n";
  if (zeros) c.label("key starting with zero bytes");
  return std::move(*r);
}

void KeyAgreement(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(0));
  auto a = s.flip() ? Chosen(s, c, 'a') : Party(), b = s.flip() ? Chosen(s, c, 'b') : Party(), x = Party();
  std::string pa = a->PublicKey().AsString(), pb = b->PublicKey().AsString();
  PBT_EQ(pa.size(), 33u, "public key size");
  PBT_EQ(a->PrivateKey().size(), 32, "private key size");
  PBT_CHECK(pa != pb && a->PrivateKey().AsString() != b->PrivateKey().AsString(),
            "two random key pairs coincide");
  c.nontrivial();
  auto sab = a->ComputeSharedSecret(b->PublicKey());
  auto sba = b->ComputeSharedSecret(a->PublicKey());
  PBT_CHECK(sab.ok() && sba.ok(), "valid public key refused");
  PBT_CHECK(*sab == *sba, "the two sides derive different secrets");
  PBT_EQ(sab->size(), 32, "secret size");
  // The uncompressed encoding of the same key gives the same secret.
  std::string ub = Uncompressed(pb);
  auto su = a->ComputeSharedSecret(EcdhPublicKey(U8(ub), EcdhPublicKey::kUncompressed));
  PBT_CHECK(su.ok() && *su == *sab, "uncompressed key gives another secret");
  // A third party derives something else.
  auto sxb = x->ComputeSharedSecret(b->PublicKey());
  PBT_CHECK(sxb.ok() && !(*sxb == *sab), "a third party derives the same secret");
  // Rebuilding from stored keys.
  auto from_private = EcdhKeyAgreement::CreateFromPrivateKey(a->PrivateKey());
  PBT_CHECK(from_private.ok(), "own private key refused");
  auto s2 = (*from_private)->ComputeSharedSecret(b->PublicKey());
  PBT_CHECK(s2.ok() && *s2 == *sab, "private key restore changes the secret");
  PBT_CHECK((*from_private)->PrivateKey() == a->PrivateKey(), "private key changed");
  PBT_EQ((*from_private)->PublicKey().size(), 0, "public key appeared");
  bool unc = s.flip();
  std::string ua = Uncompressed(pa);
  EcdhPublicKey pub = unc ? EcdhPublicKey(U8(ua), EcdhPublicKey::kUncompressed)
                          : a->PublicKey();
  auto pair = EcdhKeyAgreement::CreateFromKeypair(a->PrivateKey(), pub);
  PBT_CHECK(pair.ok(), "own key pair refused");
  PBT_CHECK((*pair)->PublicKey().AsString() == pa, "restored public key differs");
  auto s3 = (*pair)->ComputeSharedSecret(b->PublicKey());
  PBT_CHECK(s3.ok() && *s3 == *sab, "key pair restore changes the secret");
  // Mismatched pair.
  PBT_CHECK(!EcdhKeyAgreement::CreateFromKeypair(a->PrivateKey(), b->PublicKey()).ok(),
            "mismatched key pair accepted");
  PBT_CHECK(!EcdhKeyAgreement::CreateFromKeypair(a->PrivateKey(), EcdhPublicKey()).ok(),
            "empty public key accepted");
  PBT_CHECK(!EcdhKeyAgreement::CreateFromPrivateKey(EcdhPrivateKey()).ok(),
            "empty private key accepted");
  PBT_CHECK(!a->ComputeSharedSecret(EcdhPublicKey()).ok(), "empty peer key accepted");
  // Invalid public keys.
  bool big = s.flip();
  std::string bad = big ? ub : pb;
  switch (s.draw(4)) {
    case 0:
      bad[0] = static_cast<char>(s.draw(256));
      break;
    case 1: {
      size_t bit = 8 + s.draw((bad.size() - 1) * 8);
      bad[bit / 8] ^= static_cast<char>(1 << (bit % 8));
      break;
    }
    case 2:
      bad = s.fixed_bytes(bad.size());
      break;
    default:
      bad = std::string(bad.size(), s.flip() ? '\0' : '\xff');
      if (s.flip()) bad[0] = big ? 4 : 2;
  }
  bool valid = OnCurve(bad);
  c.log << "peer key " << pbt::Hex(bad) << (valid ? " valid" : " invalid");
  c.label(valid ? "valid" : "invalid");
  auto rb = a->ComputeSharedSecret(
      EcdhPublicKey(U8(bad), big ? EcdhPublicKey::kUncompressed
                                 : EcdhPublicKey::kCompressed));
  PBT_EQ(rb.ok(), valid, "acceptance of a peer key");
  if (!valid)
    PBT_EQ(static_cast<int>(rb.status().code()),
           static_cast<int>(absl::StatusCode::kInvalidArgument), "status");
}

typedef std::vector<std::pair<std::string, std::string>> Pairs;

ShareKeysRequest Req(const Pairs& p) {
  ShareKeysRequest r;
  for (auto& [n, e] : p) {
    auto* k = r.add_pairs_of_public_keys();
    k->set_noise_pk(n);
    k->set_enc_pk(e);
  }
  return r;
}

std::string Len(size_t n) {
  std::string r(4, 0);
  for (int i = 0; i < 4; ++i) r[i] = static_cast<char>(n >> (24 - 8 * i));
  return r;
}

void Session(pbt::Src& s, pbt::Case& c) {
  auto gen_key = [&](int hint) {
    if (s.chance(1, 3)) return s.fixed_bytes(hint);
    return s.bytes(8);
  };
  Pairs p;
  int n = s.small(0, 6);
  int hint = s.flip() ? 33 : s.range(0, 6);
  for (int i = 0; i < n; ++i) {
    std::string a = gen_key(hint), b = gen_key(hint);
    p.push_back({a, b});
  }
  Pairs q = p;
  switch (s.draw(7)) {
    case 0:
      if (q.empty()) break;
      std::swap(q[s.draw(q.size())], q[s.draw(q.size())]);
      break;
    case 1:
      if (q.empty()) break;
      q.pop_back();
      break;
    case 2:
      q.push_back({"", ""});
      break;
    case 3: {  // move bytes across the boundary of the two keys of a client
      if (q.empty()) break;
      auto& e = q[s.draw(q.size())];
      std::string all = e.first + e.second;
      size_t cut = s.draw(all.size() + 1);
      e = {all.substr(0, cut), all.substr(cut)};
      break;
    }
    case 4: {  // two clients folded into one, length marks embedded
      if (q.size() < 2) break;
      size_t i = s.draw(q.size() - 1);
      auto x = q[i], y = q[i + 1];
      std::string l1 = Len(s.flip() ? y.first.size() : x.first.size());
      std::string l2 = Len(s.flip() ? y.second.size() : y.first.size());
      q.erase(q.begin() + i + 1);
      q[i] = {x.first, x.second + l1 + y.first + l2 + y.second};
      break;
    }
    case 5: {  // first key swallows the second of its client
      if (q.empty()) break;
      auto& e = q[s.draw(q.size())];
      e = {e.first + Len(e.second.size()) + e.second, ""};
      break;
    }
    default: {
      if (q.empty()) break;
      auto& e = q[s.draw(q.size())];
      std::string& k = s.flip() ? e.first : e.second;
      if (k.empty()) {
        k = s.bytes(3);
      } else {
        size_t bit = s.draw(k.size() * 8);
        k[bit / 8] ^= static_cast<char>(1 << (bit % 8));
      }
    }
  }
  c.log << "A:";
  for (auto& [a, b] : p) c.log << " (" << pbt::Hex(a) << "," << pbt::Hex(b) << ")";
  c.log << " B:";
  for (auto& [a, b] : q) c.log << " (" << pbt::Hex(a) << "," << pbt::Hex(b) << ")";
  std::string ip = ComputeSessionId(Req(p)).data, iq = ComputeSessionId(Req(q)).data;
  PBT_EQ(ip.size(), 32u, "session id size");
  c.nontrivial(p != q);
  PBT_EQ(ip == iq, p == q, "equality of session ids of different key lists");
  ShareKeysRequest extra = Req(p);
  extra.set_session_id("ignored");
  PBT_CHECK(ComputeSessionId(extra).data == ip, "session id is not a function of the keys");
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "S09",
                   "random keys and messages, every kind of tampering, invalid "
                   "curve points, key lists that differ only in how bytes are "
                   "split; non-trivial when something was altered",
                   {{"encryption", Encryption, 150000, 2000000},
                    {"key agreement", KeyAgreement, 8000, 150000},
                    {"session id", Session, 200000, 3000000}});
}
