// LIBS: fcp_cc
// K02: encodings of keys and tokens.
#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include "cbor.h"
#include "fcp/confidentialcompute/cose.h"
#include "pbt/pbt.h"

namespace {

using fcp::confidential_compute::OkpCwt;
using fcp::confidential_compute::OkpKey;
using fcp::confidential_compute::SymmetricKey;

std::string Blob(pbt::Src& s) {
  switch (s.weighted({6, 1, 1})) {
    case 0:
      return s.bytes(40);
    case 1:
      return std::string(s.range(250, 260), static_cast<char>(s.draw(256)));
    default:
      return std::string(s.range(65530, 65540), 'z');
  }
}
std::optional<int64_t> OptInt(pbt::Src& s) {
  if (s.chance(1, 3)) return std::nullopt;
  return s.chance(1, 3) ? s.of<int64_t>({-65537, -65538, 4, -7, 1, 0}) : s.edgy_signed();
}

OkpKey GenKey(pbt::Src& s) {
  return OkpKey{.key_id = Blob(s), .algorithm = OptInt(s), .curve = OptInt(s), .x = Blob(s)};
}
bool Same(const OkpKey& a, const OkpKey& b) {
  return a.key_id == b.key_id && a.algorithm == b.algorithm &&
         a.curve == b.curve && a.x == b.x;
}
bool Same(const SymmetricKey& a, const SymmetricKey& b) {
  return a.algorithm == b.algorithm && a.k == b.k;
}

void GenStruct(pbt::Src& s, google::protobuf::Struct* out, int depth) {
  int n = s.small(0, 3);
  for (int i = 0; i < n; ++i) {
    auto& v = (*out->mutable_fields())[s.ident(4)];
    switch (s.weighted({3, 2, 1, depth < 2 ? 1 : 0})) {
      case 0:
        v.set_string_value(s.ident(6));
        break;
      case 1:
        v.set_number_value(static_cast<double>(s.range(-1000, 1000)) / 8);
        break;
      case 2:
        v.set_bool_value(s.flip());
        break;
      case 3:
        GenStruct(s, v.mutable_struct_value(), depth + 1);
        break;
    }
  }
}
// Compares messages whose serialized form is not unique.
bool Same(const google::protobuf::Struct& a, const google::protobuf::Struct& b) {
  return a.DebugString() == b.DebugString() || [&] {
    if (a.fields().size() != b.fields().size()) return false;
    for (auto& [k, v] : a.fields()) {
      auto it = b.fields().find(k);
      if (it == b.fields().end()) return false;
      if (v.kind_case() != it->second.kind_case()) return false;
      if (v.has_struct_value()) {
        if (!Same(v.struct_value(), it->second.struct_value())) return false;
      } else if (v.SerializeAsString() != it->second.SerializeAsString()) {
        return false;
      }
    }
    return true;
  }();
}

OkpCwt GenCwt(pbt::Src& s) {
  OkpCwt c;
  c.algorithm = OptInt(s);
  auto time = [&]() -> std::optional<absl::Time> {
    if (s.chance(1, 3)) return std::nullopt;
    return absl::FromUnixSeconds(s.chance(1, 4) ? s.range(-100000000000, 100000000000)
                                                : s.range(0, 2000000000));
  };
  c.issued_at = time();
  c.expiration_time = time();
  if (!s.chance(1, 4)) c.public_key = GenKey(s);
  GenStruct(s, &c.config_properties, 0);
  c.signature = Blob(s);
  return c;
}
bool Same(const OkpCwt& a, const OkpCwt& b) {
  return a.algorithm == b.algorithm && a.issued_at == b.issued_at &&
         a.expiration_time == b.expiration_time &&
         a.public_key.has_value() == b.public_key.has_value() &&
         (!a.public_key || Same(*a.public_key, *b.public_key)) &&
         Same(a.config_properties, b.config_properties) && a.signature == b.signature;
}

// Parses from a buffer of the exact size.
template <typename T>
absl::StatusOr<T> Dec(const std::string& data) {
  std::unique_ptr<char[]> buf(new char[data.size()]);
  memcpy(buf.get(), data.data(), data.size());
  auto r = T::Decode(absl::string_view(buf.get(), data.size()));
  if (!r.ok()) {
    PBT_CHECK(absl::IsInvalidArgument(r.status()), "odd error " << r.status());
  }
  return r;
}

std::string Mutate(pbt::Src& s, std::string in) {
  int n = s.range(1, 3);
  for (int i = 0; i < n && !in.empty(); ++i) {
    size_t at = s.draw(in.size());
    switch (s.range(0, 4)) {
      case 0:
        in[at] = static_cast<char>(s.draw(256));
        break;
      case 1:
        in.resize(at);
        break;
      case 2:
        in.insert(at, s.bytes(3));
        break;
      case 3:
        in.erase(at, 1);
        break;
      case 4:
        in[at] ^= static_cast<char>(1 << s.draw(8));
        break;
    }
  }
  return in;
}

// Whatever a mutated encoding decodes to is itself encodable and stable.
template <typename T>
void Survives(const std::string& data) {
  auto r = Dec<T>(data);
  if (!r.ok()) return;
  auto e = r->Encode();
  PBT_CHECK(e.ok(), "decoded value does not encode");
  auto again = Dec<T>(*e);
  PBT_CHECK(again.ok() && Same(*again, *r), "decoded value does not survive");
}

void RoundTrip(pbt::Src& s, pbt::Case& c) {
  OkpKey k = GenKey(s);
  SymmetricKey y{.algorithm = OptInt(s), .k = Blob(s)};
  std::string ke = *k.Encode(), ye = *y.Encode();
  c.log << "key " << pbt::Hex(ke) << "\nsymmetric " << pbt::Hex(ye) << "\n";
  auto kd = Dec<OkpKey>(ke);
  PBT_CHECK(kd.ok() && Same(*kd, k), "key changed: " << kd.status());
  auto yd = Dec<SymmetricKey>(ye);
  PBT_CHECK(yd.ok() && Same(*yd, y), "symmetric key changed: " << yd.status());
  PBT_CHECK(!Dec<OkpKey>(ye).ok(), "symmetric key read as a key pair");
  PBT_CHECK(!Dec<SymmetricKey>(ke).ok(), "key pair read as a symmetric key");
  OkpCwt w = GenCwt(s);
  auto we = w.Encode();
  PBT_CHECK(we.ok(), "token does not encode");
  c.log << "token " << pbt::Hex(*we, 200) << "\n";
  auto wd = Dec<OkpCwt>(*we);
  PBT_CHECK(wd.ok() && Same(*wd, w), "token changed: " << wd.status());
  std::string aad = s.bytes(10);
  auto sign = w.BuildSigStructureForSigning(aad);
  auto verify = OkpCwt::GetSigStructureForVerifying(*we, aad);
  PBT_CHECK(sign.ok() && verify.ok(), "no signature structure: " << verify.status());
  PBT_EQ(pbt::Hex(*verify, 4000), pbt::Hex(*sign, 4000), "bytes signed and verified");
  // A different context, payload or algorithm is signed differently.
  auto other = w.BuildSigStructureForSigning(aad + "x");
  PBT_CHECK(*other != *sign, "context is not signed");
  // The order of properties may differ between copies, so one object is used.
  auto w_exp = w.expiration_time;
  w.expiration_time = w_exp ? *w_exp + absl::Seconds(1) : absl::FromUnixSeconds(5);
  PBT_CHECK(*w.BuildSigStructureForSigning(aad) != *sign, "expiry is not signed");
  w.expiration_time = w_exp;
  auto w_iat = w.issued_at;
  w.issued_at = w_iat ? *w_iat + absl::Seconds(1) : absl::FromUnixSeconds(5);
  PBT_CHECK(*w.BuildSigStructureForSigning(aad) != *sign, "issue time is not signed");
  w.issued_at = w_iat;
  auto w_alg = w.algorithm;
  w.algorithm = w_alg ? *w_alg ^ 1 : 3;
  PBT_CHECK(*w.BuildSigStructureForSigning(aad) != *sign, "algorithm is not signed");
  w.algorithm = w_alg;
  auto w_key = w.public_key;
  if (!w.public_key) w.public_key = OkpKey{};
  w.public_key->x += "k";
  PBT_CHECK(*w.BuildSigStructureForSigning(aad) != *sign, "key is not signed");
  w.public_key = w_key;
  w.signature += "s";
  PBT_CHECK(*w.BuildSigStructureForSigning(aad) == *sign, "signature is signed");
  // Extra or missing bytes at the end.
  std::string tail = s.bytes(3);
  if (tail.empty()) tail = std::string(1, '\0');
  PBT_CHECK(!Dec<OkpKey>(ke + tail).ok(), "trailing data after a key");
  PBT_CHECK(!Dec<SymmetricKey>(ye + tail).ok(), "trailing data after a key");
  PBT_CHECK(!Dec<OkpCwt>(*we + tail).ok(), "trailing data after a token");
  PBT_CHECK(!OkpCwt::GetSigStructureForVerifying(*we + tail, aad).ok(), "trailing data");
  PBT_CHECK(!Dec<OkpKey>(ke.substr(0, s.draw(ke.size()))).ok(), "cut key");
  PBT_CHECK(!Dec<SymmetricKey>(ye.substr(0, s.draw(ye.size()))).ok(), "cut key");
  PBT_CHECK(!Dec<OkpCwt>(we->substr(0, s.draw(we->size()))).ok(), "cut token");
  c.nontrivial(w.public_key.has_value() && !k.x.empty());
  for (int i = 0; i < 4; ++i) {
    Survives<OkpKey>(Mutate(s, ke));
    Survives<SymmetricKey>(Mutate(s, ye));
    std::string m = Mutate(s, *we);
    Survives<OkpCwt>(m);
    auto st = OkpCwt::GetSigStructureForVerifying(m, aad);
    if (Dec<OkpCwt>(m).ok()) PBT_CHECK(st.ok(), "token without signature structure");
  }
}

// Some item that is not of the given kind ('i', 'b').
std::string Other(pbt::Src& s, char not_kind) {
  std::vector<std::string> v = {cb::Tstr(s.ident(3)), cb::Array({cb::Int(1)}),
                                cb::Map({{cb::Int(1), cb::Int(2)}}), cb::Bool(true), cb::Null()};
  if (not_kind != 'i') v.push_back(cb::Int(s.range(-30, 30)));
  if (not_kind != 'b') v.push_back(cb::Bstr(s.bytes(3)));
  return s.pick(v);
}
std::string Any(pbt::Src& s) { return Other(s, 'x'); }

// A parameter map built by hand, in any order, with unknown entries and with
// at most some entries of the wrong type.
struct Built {
  std::string bytes;
  bool valid = true;
};
struct Entry {
  int64_t id;
  char kind;
  bool present;
  std::string good;
};
Built BuildMap(pbt::Src& s, std::vector<Entry> entries, const std::vector<int64_t>& unknown) {
  Built b;
  cb::Pairs p;
  for (auto& e : entries) {
    if (!e.present) continue;
    if (s.chance(1, 25)) {
      p.push_back({cb::Int(e.id), Other(s, e.kind)});
      b.valid = false;
    } else {
      p.push_back({cb::Int(e.id), e.good});
    }
  }
  int n = s.small(0, 2);
  for (int i = 0; i < n; ++i) {
    if (s.flip()) {
      p.push_back({cb::Int(unknown[i]), Any(s)});
    } else {
      p.push_back({s.flip() ? cb::Tstr("k" + std::to_string(i)) : cb::Bstr("b" + std::to_string(i)), Any(s)});
    }
  }
  s.shuffle(&p);
  b.bytes = cb::Map(p);
  return b;
}

Built BuildKey(pbt::Src& s, OkpKey* want) {
  *want = OkpKey{.key_id = s.bytes(5), .algorithm = OptInt(s), .curve = OptInt(s), .x = s.bytes(8)};
  int64_t kty = s.chance(1, 12) ? s.of<int64_t>({2, 4, 0, -1, 256 + 1}) : 1;
  bool has = !s.chance(1, 15);
  Built b = BuildMap(s,
                     {{1, 'i', has, cb::Int(kty)},
                      {2, 'b', !want->key_id.empty(), cb::Bstr(want->key_id)},
                      {3, 'i', want->algorithm.has_value(), cb::Int(want->algorithm.value_or(0))},
                      {-1, 'i', want->curve.has_value(), cb::Int(want->curve.value_or(0))},
                      {-2, 'b', !want->x.empty(), cb::Bstr(want->x)}},
                     {-3, 77});
  if (!has || kty != 1) b.valid = false;
  return b;
}

void Structured(pbt::Src& s, pbt::Case& c) {
  OkpKey key;
  Built kb = BuildKey(s, &key);
  auto kd = Dec<OkpKey>(kb.bytes);
  c.log << "key " << pbt::Hex(kb.bytes) << (kb.valid ? "" : " (bad)") << "\n";
  PBT_EQ(kd.ok(), kb.valid, "key accepted, " << kd.status());
  if (kb.valid) PBT_CHECK(Same(*kd, key), "key read differently");
  {
    SymmetricKey want{.algorithm = OptInt(s), .k = s.bytes(6)};
    int64_t kty = s.chance(1, 8) ? s.of<int64_t>({1, 2, 0, -1}) : 4;
    bool has = !s.chance(1, 10);
    Built b = BuildMap(s,
                       {{1, 'i', has, cb::Int(kty)},
                        {3, 'i', want.algorithm.has_value(), cb::Int(want.algorithm.value_or(0))},
                        {-1, 'b', !want.k.empty(), cb::Bstr(want.k)}},
                       {-2, 77});
    if (!has || kty != 4) b.valid = false;
    c.log << "symmetric " << pbt::Hex(b.bytes) << "\n";
    auto d = Dec<SymmetricKey>(b.bytes);
    PBT_EQ(d.ok(), b.valid, "symmetric key accepted, " << d.status());
    if (b.valid) PBT_CHECK(Same(*d, want), "symmetric key read differently");
  }
  // A token, signed once or by several.
  OkpCwt want;
  bool valid = true;
  bool several = s.flip();
  auto header = [&](std::optional<int64_t>* alg) {
    *alg = OptInt(s);
    return BuildMap(s, {{1, 'i', alg->has_value(), cb::Int(alg->value_or(0))}}, {4, 5});
  };
  std::optional<int64_t> body_alg;
  Built body_header = header(&body_alg);
  bool has_key = s.chance(3, 4);
  int64_t key_claim = s.flip() ? -65537 : -4670552;
  Built inner = BuildKey(s, &key);
  int64_t iat = s.range(0, 2000000000), exp = s.range(0, 2000000000);
  bool has_iat = s.flip(), has_exp = s.flip(), has_config = s.flip();
  google::protobuf::Struct config;
  (*config.mutable_fields())[s.ident(3)].set_string_value(s.ident(3));
  bool bad_config = has_config && s.chance(1, 15);
  Built payload = BuildMap(s,
                           {{4, 'i', has_exp, cb::Int(exp)},
                            {6, 'i', has_iat, cb::Int(iat)},
                            {key_claim, 'b', has_key, cb::Bstr(inner.bytes)},
                            {-65538, 'b', has_config,
                             cb::Bstr(bad_config ? "\x0a\x7f" : config.SerializeAsString())}},
                           {1, 77});
  valid = payload.valid && !bad_config && (!has_key || inner.valid);
  if (has_key) want.public_key = key;
  if (has_iat) want.issued_at = absl::FromUnixSeconds(iat);
  if (has_exp) want.expiration_time = absl::FromUnixSeconds(exp);
  if (has_config) want.config_properties = config;
  std::string payload_bytes = payload.bytes;
  if (s.chance(1, 20)) {
    payload_bytes = s.of<std::string>({cb::Int(3), payload.bytes + "\x01", cb::Array({}), ""});
    valid = false;
  }
  bool sig_ok = true;  // whether the shape needed for verification is there
  std::string fourth, first_protected;
  if (!several) {
    want.algorithm = body_alg;
    valid = valid && body_header.valid;
    want.signature = s.bytes(12);
    fourth = cb::Bstr(want.signature);
    if (s.chance(1, 15)) {
      fourth = s.of<std::string>({cb::Int(3), cb::Tstr("x"), cb::Map({}), cb::Null()});
      valid = false;
    }
  } else {
    int n = s.small(0, 3);
    std::vector<std::string> sigs;
    if (n == 0) {
      valid = false;
      sig_ok = false;
    }
    for (int i = 0; i < n; ++i) {
      std::optional<int64_t> alg;
      Built h = header(&alg);
      std::string signature = s.bytes(6);
      std::vector<std::string> parts = {cb::Bstr(h.bytes), cb::Map({}), cb::Bstr(signature)};
      bool ok = true, shape_ok = true;
      int damage = s.chance(1, 5) ? s.range(0, 5) : -1;
      if (damage == 0) parts[2] = Other(s, 'b'), ok = false;
      if (damage == 1) parts[0] = Other(s, 'b'), ok = shape_ok = false;
      if (damage == 2) parts.pop_back(), ok = shape_ok = false;
      if (damage == 3) parts.push_back(cb::Int(1)), ok = shape_ok = false;
      std::string item = cb::Array(parts);
      if (damage == 4) item = cb::Bstr(item), ok = shape_ok = false;
      if (damage == 5) item = s.flip() ? cb::Int(7) : cb::Null(), ok = shape_ok = false;
      sigs.push_back(item);
      if (i == 0) {
        want.algorithm = alg;
        want.signature = signature;
        valid = valid && ok && h.valid;
        sig_ok = shape_ok;
        first_protected = h.bytes;
        if (!ok) c.label("malformed signature entry");
      }
    }
    fourth = cb::Array(sigs);
  }
  std::vector<std::string> parts = {cb::Bstr(body_header.bytes), cb::Map({}), cb::Bstr(payload_bytes), fourth};
  bool verify_ok = sig_ok;
  if (s.chance(1, 12)) {
    switch (s.range(0, 4)) {
      case 0:
        parts[0] = Other(s, 'b');
        verify_ok = false;
        break;
      case 1:
        parts[1] = s.flip() ? cb::Bstr("") : cb::Array({});
        break;
      case 2:
        parts[2] = Other(s, 'b');
        verify_ok = false;
        break;
      case 3:
        parts.pop_back();
        verify_ok = false;
        break;
      case 4:
        parts.push_back(cb::Int(1));
        verify_ok = false;
        break;
    }
    valid = false;
  }
  std::string bytes = cb::Array(parts);
  c.log << "token " << pbt::Hex(bytes, 300) << (valid ? "" : " (bad)") << "\n";
  c.label(several ? "several signatures" : "one signature");
  c.nontrivial(valid || several);
  auto d = Dec<OkpCwt>(bytes);
  PBT_EQ(d.ok(), valid, "token accepted, " << d.status());
  if (valid) PBT_CHECK(Same(*d, want), "token read differently");
  std::string aad = s.bytes(4);
  auto st = OkpCwt::GetSigStructureForVerifying(bytes, aad);
  PBT_EQ(st.ok(), verify_ok, "signature structure, " << st.status());
  if (verify_ok) {
    std::string expect =
        several ? cb::Array({cb::Tstr("Signature"), parts[0], cb::Bstr(first_protected), cb::Bstr(aad), parts[2]})
                : cb::Array({cb::Tstr("Signature1"), parts[0], cb::Bstr(aad), parts[2]});
    PBT_EQ(pbt::Hex(*st, 4000), pbt::Hex(expect, 4000), "bytes verified");
  }
}

void Noise(pbt::Src& s, pbt::Case& c) {
  std::string in = s.bytes(30);
  if (s.flip()) in = Mutate(s, cb::Array({cb::Bstr(in), cb::Map({}), cb::Bstr(cb::Map({})), cb::Array({Any(s), Any(s)})}));
  c.log << pbt::Hex(in) << "\n";
  c.nontrivial(in.size() > 3);
  Survives<OkpKey>(in);
  Survives<SymmetricKey>(in);
  Survives<OkpCwt>(in);
  (void)OkpCwt::GetSigStructureForVerifying(in, "a");
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "K02",
                   "a token with a key, a valid or several-signature token "
                   "built by hand, or more than three bytes of noise",
                   {{"round_trip", RoundTrip, 6000, 100000},
                    {"structured", Structured, 20000, 400000},
                    {"noise", Noise, 20000, 500000}});
}
