// LIBS: fcp_client fcp_cc
// A01: acceptance of server encryption keys.
#define VERIF_DETRAND_DEFINE
#include "detrand.h"

#include <cstring>
#include <string>
#include <vector>

#include "absl/strings/cord.h"
#include "absl/strings/escaping.h"
#include "absl/time/clock.h"
#include "cbor.h"
#include "fcp/client/attestation/attestation_verifier.h"
#include "fcp/client/attestation/oak_rust_attestation_verifier.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "fcp/protos/confidentialcompute/access_policy.pb.h"
#include "google/protobuf/util/message_differencer.h"
#include "openssl/sha.h"
#include "pbt/pbt.h"

// Stands in for the Rust library: it knows one good bundle and answers as told.
namespace {
struct Oracle {
  std::string evidence, endorsements, references;
  std::string good_answer;    // answer for the good bundle
  std::string other_answer;   // answer for anything else
  int calls = 0, live = 0;
  int64_t earliest = 0, latest = 0;
  bool time_ok = true;
} oracle;
struct Result {
  char* data;
  size_t size;
};
}  // namespace

extern "C" Result fcp_rs_oak_attestation_verification_verify_attestation(
    int64_t now_ms, const char* ev, size_t evn, const char* en, size_t enn, const char* rv, size_t rvn) {
  ++oracle.calls;
  if (now_ms < oracle.earliest || now_ms > absl::ToUnixMillis(absl::Now())) oracle.time_ok = false;
  bool good = std::string(ev, evn) == oracle.evidence && std::string(en, enn) == oracle.endorsements &&
              std::string(rv, rvn) == oracle.references;
  const std::string& a = good ? oracle.good_answer : oracle.other_answer;
  Result r{nullptr, a.size()};
  if (!a.empty()) {
    r.data = new char[a.size()];
    memcpy(r.data, a.data(), a.size());
    ++oracle.live;
  }
  return r;
}
extern "C" void fcp_rs_oak_attestation_verification_free_attestation_result(Result r) {
  if (r.data) --oracle.live;
  delete[] r.data;
}

namespace {

using fcp::client::attestation::AlwaysFailingAttestationVerifier;
using fcp::client::attestation::AlwaysPassingAttestationVerifier;
using fcp::client::attestation::OakRustAttestationVerifier;
using fcp::confidential_compute::EcdsaP256R1Signer;
using fcp::confidential_compute::OkpCwt;
using fcp::confidential_compute::OkpKey;
using fcp::confidentialcompute::AttestationVerificationRecord;
using fcp::confidentialcompute::DataAccessPolicy;
using google::internal::federatedcompute::v1::ConfidentialEncryptionConfig;
using oak::attestation::v1::AttestationResults;

std::string Sha(const std::string& d) {
  uint8_t out[32];
  SHA256(reinterpret_cast<const uint8_t*>(d.data()), d.size(), out);
  return std::string(reinterpret_cast<char*>(out), 32);
}

absl::Cord Pieces(pbt::Src& s, const std::string& d) {
  absl::Cord c;
  size_t at = 0;
  while (at < d.size()) {
    size_t n = std::min<size_t>(d.size() - at, s.range(1, 40));
    c.Append(absl::MakeCordFromExternal(*new std::string(d.substr(at, n)), [](absl::string_view) {}));
    at += n;
  }
  return c;
}

DataAccessPolicy GenPolicy(pbt::Src& s) {
  DataAccessPolicy p;
  int n = s.small(0, 3);
  for (int i = 0; i < n; ++i) {
    auto* t = p.add_transforms();
    t->set_src(s.range(0, 5));
    if (s.flip()) t->mutable_application()->set_tag(s.ident(5));
    if (s.flip()) t->mutable_access_budget()->set_times(s.range(0, 5));
  }
  return p;
}

OkpCwt GenToken(pbt::Src& s) {
  OkpCwt t;
  t.algorithm = -7;
  t.public_key = OkpKey{.key_id = s.bytes(4), .algorithm = -65537, .curve = 4, .x = s.fixed_bytes(32)};
  if (s.flip()) t.issued_at = absl::FromUnixSeconds(s.range(0, 2000000000));
  if (s.flip()) (*t.config_properties.mutable_fields())["k"].set_string_value(s.ident(3));
  return t;
}

// Encodes and signs, in the one-signature or the several-signature form.
std::string SignedToken(pbt::Src& s, OkpCwt t, const EcdsaP256R1Signer& signer, const std::string& aad, bool several) {
  if (!several) {
    t.signature = signer.Sign(*t.BuildSigStructureForSigning(aad));
    return *t.Encode();
  }
  // Take the payload from the plain form.
  std::string inner_header = t.algorithm ? cb::Map({{cb::Int(1), cb::Int(*t.algorithm)}}) : cb::Map({});
  cb::Pairs claims;
  if (t.issued_at) claims.push_back({cb::Int(6), cb::Int(absl::ToUnixSeconds(*t.issued_at))});
  if (t.public_key) claims.push_back({cb::Int(-65537), cb::Bstr(*t.public_key->Encode())});
  std::string body = cb::Bstr(cb::Map({})), payload = cb::Bstr(cb::Map(claims));
  std::string to_sign = cb::Array({cb::Tstr("Signature"), body, cb::Bstr(inner_header), cb::Bstr(aad), payload});
  std::vector<std::string> sigs = {cb::Array({cb::Bstr(inner_header), cb::Map({}), cb::Bstr(signer.Sign(to_sign))})};
  if (s.flip()) sigs.push_back(cb::Array({cb::Bstr(inner_header), cb::Map({}), cb::Bstr("whatever")}));
  return cb::Array({body, cb::Map({}), payload, cb::Array(sigs)});
}

bool SameKey(const OkpKey& a, const OkpKey& b) {
  return a.key_id == b.key_id && a.algorithm == b.algorithm && a.curve == b.curve && a.x == b.x;
}

void Verify(pbt::Src& s, pbt::Case& c) {
  static auto* attested = new EcdsaP256R1Signer(EcdsaP256R1Signer::Create());
  static auto* stranger = new EcdsaP256R1Signer(EcdsaP256R1Signer::Create());
  detrand::Seed(s.draw(1 << 30));
  bool valid = true;
  auto fault = [&](const char* what) {
    valid = false;
    c.log << what << "\n";
  };
  // Each aspect is wrong now and then; often exactly one of them.
  int only = s.chance(1, 2) ? s.range(0, 11) : -1;
  auto wrong = [&](int aspect) { return only >= 0 ? only == aspect : s.chance(1, 25); };

  ConfidentialEncryptionConfig config;
  auto* ev = config.mutable_attestation_evidence();
  ev->mutable_root_layer()->set_remote_attestation_report(s.bytes(10));
  ev->mutable_application_keys()->set_signing_public_key_certificate(s.bytes(10));
  if (s.flip()) ev->add_layers()->set_eca_certificate(s.bytes(5));
  auto* en = config.mutable_attestation_endorsements();
  en->mutable_oak_restricted_kernel()->mutable_root_layer()->set_tee_certificate(s.bytes(5));
  oak::attestation::v1::ReferenceValues refs;
  refs.mutable_oak_restricted_kernel()->mutable_root_layer()->mutable_amd_sev()->set_stage0(s.bytes(5));
  oracle = Oracle();
  oracle.evidence = ev->SerializeAsString();
  oracle.endorsements = en->SerializeAsString();
  oracle.references = refs.SerializeAsString();
  AttestationResults good, bad;
  good.set_status(AttestationResults::STATUS_SUCCESS);
  good.set_signing_public_key(attested->GetPublicKey());
  good.set_encryption_public_key(s.bytes(4));
  bad.set_status(AttestationResults::STATUS_GENERIC_FAILURE);
  bad.set_reason("no");
  bad.set_signing_public_key(attested->GetPublicKey());
  oracle.other_answer = bad.SerializeAsString();
  if (wrong(0)) {
    fault("evidence fails");
    good.set_status(s.flip() ? AttestationResults::STATUS_GENERIC_FAILURE : AttestationResults::STATUS_UNSPECIFIED);
  }
  if (wrong(1)) {
    fault("unusable attested key");
    switch (s.range(0, 2)) {
      case 0:
        good.clear_signing_public_key();
        break;
      case 1:
        good.set_signing_public_key(s.bytes(65));
        break;
      case 2:
        good.set_signing_public_key(stranger->GetPublicKey());
        break;
    }
  }
  oracle.good_answer = good.SerializeAsString();
  if (wrong(2)) {
    fault("unreadable answer");
    oracle.good_answer = s.of<std::string>({"", "\x08", "\xff\xff"});
  }
  if (wrong(3)) {
    fault("evidence replaced after signing off");
    switch (s.range(0, 2)) {
      case 0:
        ev->mutable_root_layer()->set_remote_attestation_report("other" + s.bytes(6));
        ev->add_layers();
        break;
      case 1:
        en->mutable_oak_restricted_kernel()->mutable_root_layer()->set_stage0("x" + s.bytes(5));
        break;
      case 2:
        refs.mutable_oak_restricted_kernel()->mutable_root_layer()->mutable_amd_sev()->set_stage0("x" + s.bytes(9));
        break;
    }
    if (ev->SerializeAsString() == oracle.evidence && en->SerializeAsString() == oracle.endorsements &&
        refs.SerializeAsString() == oracle.references) {
      throw pbt::Discard{};
    }
  }

  DataAccessPolicy policy = GenPolicy(s);
  std::string policy_bytes = policy.SerializeAsString();
  if (s.flip()) policy_bytes += std::string("\x7a\x03xyz", 5);  // an unknown field
  if (s.chance(1, 3)) policy_bytes += GenPolicy(s).SerializeAsString();
  absl::flat_hash_set<std::string> allowed;
  int n = s.small(0, 3);
  for (int i = 0; i < n; ++i) allowed.insert(absl::BytesToHexString(Sha(s.bytes(4) + "p")));
  if (wrong(4)) {
    fault("policy does not parse");
    policy_bytes += s.of<std::string>({"\x0a\x7f", "\xff", "\x0a"});
    allowed.insert(absl::BytesToHexString(Sha(policy_bytes)));
  } else if (wrong(5)) {
    fault("policy not allowed");
    std::string h = absl::BytesToHexString(Sha(policy_bytes));
    switch (s.range(0, 5)) {
      case 1:
        allowed.insert(h.substr(0, 63));
        break;
      case 2:
        allowed.insert(Sha(policy_bytes));
        break;
      case 3:
        allowed.insert("");
        break;
      case 4:
        allowed.insert(absl::BytesToHexString(Sha(policy_bytes + "x")));
        break;
      case 5: {
        DataAccessPolicy canonical;
        canonical.ParseFromString(policy_bytes);
        canonical.DiscardUnknownFields();
        std::string other = canonical.SerializeAsString();
        if (other != policy_bytes) allowed.insert(absl::BytesToHexString(Sha(other)));
        break;
      }
    }
  } else {
    allowed.insert(absl::BytesToHexString(Sha(policy_bytes)));
  }

  OkpCwt token = GenToken(s);
  bool several = s.chance(1, 3);
  if (wrong(6)) {
    fault("another or no algorithm");
    if (s.flip()) {
      token.algorithm.reset();
    } else {
      token.algorithm = s.of<int64_t>({-8, 7, -65537, 0, -35});
    }
  }
  if (wrong(7)) {
    fault("no key in the token");
    token.public_key.reset();
  }
  bool by_stranger = wrong(8);
  if (by_stranger) fault("signed by another key");
  std::string aad;
  if (wrong(9)) {
    fault("signed for another context");
    aad = "ctx";
  }
  std::string bytes = SignedToken(s, token, by_stranger ? *stranger : *attested, aad, several);
  if (wrong(10)) {
    fault("token altered");
    std::string before = bytes;
    switch (s.range(0, 3)) {
      case 0:
        bytes[s.draw(bytes.size())] ^= static_cast<char>(1 << s.draw(8));
        break;
      case 1:
        bytes.resize(s.draw(bytes.size()));
        break;
      case 2:
        bytes += s.bytes(3) + "x";
        break;
      case 3:
        bytes = s.bytes(20);
        break;
    }
    // The second signature of several and unprotected parts are not covered.
    if (several) {
      bytes = before;
      bytes.resize(bytes.size() / 2);
    }
  }
  if (wrong(11)) {
    fault("signature of another token");
    OkpCwt other = GenToken(s);
    other.public_key->x = std::string(32, 'o');
    OkpCwt mixed = token;
    mixed.signature = attested->Sign(*other.BuildSigStructureForSigning(""));
    bytes = *mixed.Encode();
  }
  *config.mutable_public_key() = bytes;
  c.log << (several ? "several signatures" : "one signature") << (valid ? ", all in order" : "") << "\n";
  c.label(valid ? "all in order" : "something wrong");
  if (only >= 0 && !valid) c.label("exactly one fault");

  std::vector<AttestationVerificationRecord> records;
  OakRustAttestationVerifier verifier(refs, allowed, [&](const AttestationVerificationRecord& r) { records.push_back(r); });
  int rounds = s.chance(1, 4) ? 2 : 1;
  for (int round = 0; round < rounds; ++round) {
    records.clear();
    oracle.earliest = absl::ToUnixMillis(absl::Now());
    auto r = verifier.Verify(Pieces(s, policy_bytes), config);
    PBT_EQ(r.ok(), valid, "key accepted, " << r.status());
    PBT_EQ(records.size(), valid ? 1u : 0u, "records logged");
    if (valid) {
      PBT_CHECK(SameKey(*r, *token.public_key), "another key returned");
      AttestationVerificationRecord want;
      *want.mutable_attestation_evidence() = *ev;
      *want.mutable_attestation_endorsements() = *en;
      want.mutable_data_access_policy()->ParseFromString(policy_bytes);
      PBT_CHECK(google::protobuf::util::MessageDifferencer::Equals(records[0], want), "record differs from the inputs");
    }
    PBT_CHECK(oracle.calls >= 1 || !valid, "evidence never looked at");
    PBT_CHECK(oracle.time_ok, "evidence checked for another time");
    PBT_EQ(oracle.live, 0, "answers not released");
  }
  c.nontrivial();
  // The two fixed verifiers.
  AlwaysFailingAttestationVerifier never;
  PBT_CHECK(!never.Verify(Pieces(s, policy_bytes), config).ok(), "the failing verifier passed");
  AlwaysPassingAttestationVerifier always;
  auto p = always.Verify(Pieces(s, policy_bytes), config);
  auto decoded = OkpCwt::Decode(bytes);
  PBT_EQ(p.ok(), decoded.ok() && decoded->public_key.has_value(), "unchecked key, " << p.status());
  if (p.ok()) PBT_CHECK(SameKey(*p, *decoded->public_key), "unchecked key differs");
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "A01", "every bundle counts: each is either in order or has a known fault",
                   {{"verify", Verify, 6000, 100000}});
}
