// LIBS: fcp_cc
// K03: encrypted blobs, signatures and blob sequence numbers.
#define VERIF_DETRAND_DEFINE
#include "detrand.h"

#include <deque>
#include <memory>
#include <string>
#include <vector>

#include "cbor.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "pbt/pbt.h"

namespace {

using namespace fcp::confidential_compute;  // NOLINT
using fcp::confidentialcompute::BlobMetadata;

std::string Text(pbt::Src& s) {
  return s.chance(1, 12) ? std::string(s.range(1000, 70000), static_cast<char>(s.draw(256))) : s.bytes(40);
}

std::string Alter(pbt::Src& s, const std::string& in) {
  std::string out = in;
  switch (in.empty() ? 1 : s.weighted({4, 1, 1, 1})) {
    case 0:
      out[s.draw(out.size())] ^= static_cast<char>(1 << s.draw(8));
      break;
    case 1:
      out += static_cast<char>(s.draw(256));
      break;
    case 2:
      out.resize(s.draw(out.size()));
      break;
    case 3:
      out.erase(0, 1);
      break;
  }
  return out;
}

std::string PublicKey(const MessageDecryptor& d) {
  return *d.GetPublicKey([](absl::string_view) { return std::string("sig"); }, -7);
}

void Blobs(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(1 << 30));
  google::protobuf::Struct props;
  if (s.flip()) (*props.mutable_fields())["p"].set_string_value(s.ident(3));
  MessageDecryptor dec(props), other(props);
  MessageEncryptor enc;
  std::string text = Text(s), aad = Text(s);
  c.log << "text " << text.size() << " bytes, context " << aad.size() << " bytes\n";
  std::string pub = PublicKey(dec);
  auto cwt = OkpCwt::Decode(pub);
  PBT_CHECK(cwt.ok(), "public key does not decode");
  PBT_EQ(cwt->algorithm.value_or(0), -7, "algorithm");
  PBT_EQ(cwt->signature, std::string("sig"), "signature");
  PBT_EQ(cwt->config_properties.SerializeAsString(), props.SerializeAsString(), "properties");
  PBT_CHECK(OkpCwt::Decode(PublicKey(dec))->public_key->x == cwt->public_key->x, "key material changed");
  PBT_CHECK(OkpCwt::Decode(PublicKey(other))->public_key->x != cwt->public_key->x, "key material shared");
  auto r = enc.Encrypt(text, pub, aad);
  PBT_CHECK(r.ok(), "does not encrypt: " << r.status());
  auto back = dec.Decrypt(r->ciphertext, aad, r->encrypted_symmetric_key, aad, r->encapped_key);
  PBT_CHECK(back.ok() && *back == text, "message lost: " << back.status());
  if (text.size() >= 8) {
    PBT_CHECK(r->ciphertext.find(text) == std::string::npos, "message readable in the ciphertext");
  }
  c.nontrivial(!text.empty() && !aad.empty());
  auto refused = [&](const absl::StatusOr<std::string>& x, const std::string& what) {
    PBT_CHECK(!x.ok(), "opened in spite of " << what);
    PBT_CHECK(absl::IsInvalidArgument(x.status()), what << " gives " << x.status());
  };
  refused(other.Decrypt(r->ciphertext, aad, r->encrypted_symmetric_key, aad, r->encapped_key), "another recipient");
  refused(dec.Decrypt(Alter(s, r->ciphertext), aad, r->encrypted_symmetric_key, aad, r->encapped_key), "altered ciphertext");
  refused(dec.Decrypt(r->ciphertext, Alter(s, aad), r->encrypted_symmetric_key, aad, r->encapped_key), "altered context of the text");
  refused(dec.Decrypt(r->ciphertext, aad, r->encrypted_symmetric_key, Alter(s, aad), r->encapped_key), "altered context of the key");
  refused(dec.Decrypt(r->ciphertext, aad, Alter(s, r->encrypted_symmetric_key), aad, r->encapped_key), "altered key");
  {
    std::string e = Alter(s, r->encapped_key);
    // The top bit of an X25519 public key is ignored by definition, but it is
    // bound into the derived key, so this is refused as well.
    refused(dec.Decrypt(r->ciphertext, aad, r->encrypted_symmetric_key, aad, e), "altered encapsulation");
  }
  // Parts of two messages do not mix.
  auto r2 = enc.Encrypt(text, pub, aad);
  PBT_CHECK(r2.ok(), "second message");
  PBT_CHECK(r2->ciphertext != r->ciphertext && r2->encapped_key != r->encapped_key, "keys repeat");
  refused(dec.Decrypt(r2->ciphertext, aad, r->encrypted_symmetric_key, aad, r->encapped_key), "another ciphertext");
  refused(dec.Decrypt(r->ciphertext, aad, r2->encrypted_symmetric_key, aad, r->encapped_key), "another key");
  refused(dec.Decrypt(r->ciphertext, aad, r->encrypted_symmetric_key, aad, r2->encapped_key), "another encapsulation");
  // A key rewrapped for another recipient under another context opens there.
  {
    std::string aad2 = s.bytes(10);
    bssl::ScopedEVP_HPKE_KEY hk;
    PBT_CHECK(EVP_HPKE_KEY_generate(hk.get(), EVP_hpke_x25519_hkdf_sha256()) == 1, "key");
    std::string hp(EVP_HPKE_MAX_PUBLIC_KEY_LENGTH, '\0');
    size_t n = 0;
    EVP_HPKE_KEY_public_key(hk.get(), reinterpret_cast<uint8_t*>(hp.data()), &n, hp.size());
    hp.resize(n);
    OkpCwt mid;
    mid.public_key = OkpKey{.algorithm = -65537, .curve = 4, .x = hp};
    auto first = enc.Encrypt(text, *mid.Encode(), aad);
    PBT_CHECK(first.ok(), "message for the intermediary");
    auto raw = crypto_internal::UnwrapSymmetricKey(hk.get(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(),
                                                   first->encrypted_symmetric_key, first->encapped_key, aad);
    PBT_CHECK(raw.ok(), "intermediary cannot unwrap: " << raw.status());
    auto key = SymmetricKey::Decode(*raw);
    PBT_CHECK(key.ok() && key->k.size() == 16 && key->algorithm == -65538, "wrapped key");
    auto wrapped = crypto_internal::WrapSymmetricKey(EVP_hpke_x25519_hkdf_sha256(), EVP_hpke_hkdf_sha256(),
                                                     EVP_hpke_aes_128_gcm(), *raw, cwt->public_key->x, aad2);
    PBT_CHECK(wrapped.ok(), "rewrap");
    auto got = dec.Decrypt(first->ciphertext, aad, wrapped->encrypted_symmetric_key, aad2, wrapped->encapped_key);
    PBT_CHECK(got.ok() && *got == text, "rewrapped message lost");
    if (aad2 != aad) {
      refused(dec.Decrypt(first->ciphertext, aad2, wrapped->encrypted_symmetric_key, aad2, wrapped->encapped_key), "the other context");
      refused(dec.Decrypt(first->ciphertext, aad, wrapped->encrypted_symmetric_key, aad, wrapped->encapped_key), "the other context of the key");
    }
    // A wrapped key of another algorithm is not used.
    SymmetricKey odd{.algorithm = s.of<int64_t>({-65537, 1, 0}), .k = key->k};
    auto w2 = crypto_internal::WrapSymmetricKey(EVP_hpke_x25519_hkdf_sha256(), EVP_hpke_hkdf_sha256(),
                                                EVP_hpke_aes_128_gcm(), *odd.Encode(), cwt->public_key->x, aad2);
    refused(dec.Decrypt(first->ciphertext, aad, w2->encrypted_symmetric_key, aad2, w2->encapped_key), "another algorithm");
  }
  // Public keys that are not usable are refused.
  OkpCwt bad = *cwt;
  switch (s.range(0, 5)) {
    case 0:
      bad.public_key.reset();
      break;
    case 1:
      bad.public_key->algorithm = s.of<int64_t>({-65538, 0, -7});
      break;
    case 2:
      bad.public_key->curve = s.of<int64_t>({0, 5, 6});
      break;
    case 3:
      bad.public_key->algorithm.reset();
      break;
    case 4:
      bad.public_key->curve.reset();
      break;
    case 5:
      bad.public_key->x = bad.public_key->x.substr(s.range(1, 20));
      break;
  }
  auto e = enc.Encrypt(text, *bad.Encode(), aad);
  PBT_CHECK(!e.ok() && absl::IsInvalidArgument(e.status()), "unusable public key: " << e.status());
  auto e2 = enc.Encrypt(text, s.bytes(10), aad);
  PBT_CHECK(!e2.ok(), "noise taken for a public key");
}

void Signatures(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(1 << 30));
  auto signer = EcdsaP256R1Signer::Create();
  auto other = EcdsaP256R1Signer::Create();
  std::string data = Text(s);
  c.log << "data " << data.size() << " bytes\n";
  c.nontrivial(!data.empty());
  std::string sig = signer.Sign(data);
  PBT_EQ(sig.size(), 64u, "size of a signature");
  std::string pub = signer.GetPublicKey();
  PBT_CHECK(pub.size() == 65 && pub[0] == 4, "form of the public key");
  auto v = EcdsaP256R1SignatureVerifier::Create(pub);
  PBT_CHECK(v.ok(), "own public key refused");
  PBT_CHECK(v->Verify(data, sig).ok(), "own signature refused");
  PBT_CHECK(v->Verify(data, signer.Sign(data)).ok(), "second signature refused");
  PBT_CHECK(!v->Verify(Alter(s, data), sig).ok(), "other data accepted");
  PBT_CHECK(!v->Verify(data, Alter(s, sig)).ok(), "altered signature accepted");
  PBT_CHECK(!v->Verify(data, other.Sign(data)).ok(), "signature of another key accepted");
  auto v2 = EcdsaP256R1SignatureVerifier::Create(other.GetPublicKey());
  PBT_CHECK(!v2->Verify(data, sig).ok(), "another key verifies");
  PBT_CHECK(!v->Verify(data, std::string(64, '\0')).ok(), "zero signature accepted");
  PBT_CHECK(!v->Verify(data, "").ok(), "empty signature accepted");
  PBT_CHECK(!v->Verify(data, sig.substr(32) + sig.substr(0, 32)).ok(), "swapped signature accepted");
  std::string bad = pub;
  switch (s.range(0, 3)) {
    case 0:
      bad = bad.substr(0, s.draw(65));
      break;
    case 1:
      bad[s.range(1, 64)] ^= static_cast<char>(1 << s.draw(8));  // off the curve
      break;
    case 2:
      bad += 'x';
      break;
    case 3:
      bad = s.bytes(70);
      break;
  }
  auto vb = EcdsaP256R1SignatureVerifier::Create(bad);
  if (bad != pub) PBT_CHECK(!vb.ok() && absl::IsInvalidArgument(vb.status()), "bad public key accepted");
}

// The randomness inside a signature cannot be seeded. One in 128 signatures has
// a half that starts with a zero byte, so a case makes enough to meet several.
void ManySignatures(pbt::Src& s, pbt::Case& c) {
  auto signer = EcdsaP256R1Signer::Create();
  auto v = EcdsaP256R1SignatureVerifier::Create(signer.GetPublicKey());
  PBT_CHECK(v.ok(), "own public key refused");
  std::string data = Text(s);
  c.log << "1500 signatures of " << data.size() << " bytes\n";
  c.nontrivial(!data.empty());
  int r = 0, t = 0;
  for (int i = 0; i < 1500; ++i) {
    std::string sig = signer.Sign(data);
    PBT_EQ(sig.size(), 64u, "size of a signature");
    PBT_CHECK(v->Verify(data, sig).ok(), "own signature refused");
    r += sig[0] == 0;
    t += sig[32] == 0;
  }
  if (r > 0 && t > 0) c.label("both halves started with a zero byte");
}

void Sequence(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(1 << 30));
  NonceChecker checker, other;
  std::string session = checker.GetSessionNonce();
  PBT_CHECK(session != other.GetSessionNonce(), "two sessions share a nonce");
  PBT_CHECK(session.size() >= 12, "short session nonce");
  NonceGenerator gen(session), foreign(other.GetSessionNonce());
  auto blob = [](const std::string& nonce) {
    BlobMetadata m;
    m.mutable_hpke_plus_aead_data()->mutable_rewrapped_symmetric_key_associated_data()->set_nonce(nonce);
    return m;
  };
  std::vector<std::string> nonces;
  int total = s.range(2, 300);
  std::set<std::string> distinct;
  for (int i = 0; i < total; ++i) {
    nonces.push_back(*gen.GetNextBlobNonce());
    PBT_CHECK(distinct.insert(nonces.back()).second, "nonce repeats");
  }
  int next = 0, odd = 0;
  int steps = s.range(1, 60);
  if (s.chance(1, 4)) steps += total;
  for (int i = 0; i < steps; ++i) {
    int k = s.weighted({8, 2, 2, 1, 1, 1, 1});
    BlobMetadata m;
    bool ok = false;
    switch (k) {
      case 0: {
        if (next >= total) continue;
        m = blob(nonces[next]);
        ok = true;
        break;
      }
      case 1:
        if (next == 0) continue;
        m = blob(nonces[s.draw(next)]);
        break;
      case 2:
        if (next + 1 >= total) continue;
        m = blob(nonces[s.range(next + 1, total - 1)]);
        break;
      case 3:
        m = blob(*foreign.GetNextBlobNonce());
        break;
      case 4:
        if (next >= total) continue;
        m = blob(Alter(s, nonces[next]));
        break;
      case 5:
        if (s.flip()) m = blob("");
        break;
      case 6:
        m.mutable_unencrypted();
        break;
    }
    c.log << k << " ";
    absl::Status st = checker.CheckBlobNonce(m);
    if (k == 6) {
      PBT_CHECK(st.ok(), "unencrypted blob refused");
    } else if (ok) {
      PBT_CHECK(st.ok(), "blob " << next << " refused: " << st);
      ++next;
    } else {
      PBT_CHECK(!st.ok(), "blob accepted out of turn, kind " << k);
      ++odd;
    }
  }
  c.log << "\n";
  c.nontrivial(next >= 2 && odd >= 1);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "K03",
                   "a message with content and context, signed data that is "
                   "not empty, or a session with two blobs in turn and one out of turn",
                   {{"blobs", Blobs, 1200, 20000},
                    {"signatures", Signatures, 800, 15000},
                    {"many signatures", ManySignatures, 24, 400},
                    {"sequence", Sequence, 4000, 60000}});
}
