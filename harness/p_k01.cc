// LIBS: fcp_cc
// K01: framing of uploaded payloads.
#include <cstring>
#include <memory>
#include <string>

#include "fcp/confidentialcompute/client_payload.h"
#include "fcp/protos/confidentialcompute/aggregation_client_payload.pb.h"
#include "pbt/pbt.h"

namespace {

using fcp::confidential_compute::ClientPayloadHeader;
using fcp::confidential_compute::DecodeAndConsumeClientPayloadHeader;
using fcp::confidential_compute::EncodeClientPayload;
using fcp::confidentialcompute::AggregationClientPayloadHeader;

std::string Field(pbt::Src& s) {
  switch (s.weighted({4, 2, 1, 1})) {
    case 0:
      return s.bytes(20);
    case 1:
      return std::string(s.range(100, 140), static_cast<char>(s.draw(256)));
    case 2:
      return std::string(s.range(16370, 16400), 'q');
    default:
      return "CAv1" + s.bytes(8);
  }
}

ClientPayloadHeader GenHeader(pbt::Src& s) {
  ClientPayloadHeader h;
  h.encrypted_symmetric_key = Field(s);
  h.encapsulated_public_key = Field(s);
  h.serialized_blob_header = Field(s);
  h.is_gzip_compressed = s.flip();
  return h;
}

bool Same(const ClientPayloadHeader& a, const ClientPayloadHeader& b) {
  return a.encrypted_symmetric_key == b.encrypted_symmetric_key &&
         a.encapsulated_public_key == b.encapsulated_public_key &&
         a.serialized_blob_header == b.serialized_blob_header &&
         a.is_gzip_compressed == b.is_gzip_compressed;
}

// Decodes from a buffer of exactly the right size, so reads past it are seen.
struct Decoded {
  bool ok;
  absl::Status status;
  ClientPayloadHeader header;
  std::string rest;
  bool in_place = true;
};
Decoded Decode(const std::string& data) {
  std::unique_ptr<char[]> buf(new char[data.size()]);
  memcpy(buf.get(), data.data(), data.size());
  absl::string_view view(buf.get(), data.size());
  auto r = DecodeAndConsumeClientPayloadHeader(view);
  Decoded d;
  d.ok = r.ok();
  d.status = r.status();
  if (r.ok()) d.header = *r;
  d.rest = std::string(view);
  d.in_place = view.data() >= buf.get() &&
               view.data() + view.size() == buf.get() + data.size();
  return d;
}

void RoundTrip(pbt::Src& s, pbt::Case& c) {
  ClientPayloadHeader h = GenHeader(s);
  std::string body = s.chance(1, 4) ? EncodeClientPayload(GenHeader(s), s.bytes(5)) : s.bytes(60);
  std::string enc = EncodeClientPayload(h, body);
  c.log << "key " << h.encrypted_symmetric_key.size() << " pub "
        << h.encapsulated_public_key.size() << " blob "
        << h.serialized_blob_header.size() << " gzip " << h.is_gzip_compressed
        << " body " << pbt::Hex(body, 20) << "\n";
  Decoded d = Decode(enc);
  PBT_CHECK(d.ok, "own payload refused: " << d.status);
  PBT_CHECK(Same(d.header, h), "header changed");
  PBT_EQ(pbt::Hex(d.rest), pbt::Hex(body), "body");
  PBT_CHECK(d.rest == body, "body changed");
  PBT_CHECK(d.in_place, "body is not the tail of the input");
  c.nontrivial(!body.empty() && !h.encrypted_symmetric_key.empty());
  // Every cut inside the frame header is refused.
  size_t header_end = enc.size() - body.size();
  for (int i = 0; i < 6; ++i) {
    size_t cut = s.draw(header_end);
    Decoded t = Decode(enc.substr(0, cut));
    PBT_CHECK(!t.ok, "payload cut to " << cut << " of " << header_end
                                       << " header bytes accepted");
    PBT_CHECK(absl::IsInvalidArgument(t.status), "odd error " << t.status);
  }
  // A damaged marker is refused and the data left alone.
  std::string m = enc;
  m[s.draw(4)] ^= static_cast<char>(s.range(1, 255));
  Decoded t = Decode(m);
  PBT_CHECK(!t.ok, "damaged marker accepted");
  PBT_CHECK(t.rest == m, "data without a marker was consumed");
}

// What a frame is, written out independently.
bool Reference(const std::string& in, ClientPayloadHeader* h, std::string* rest) {
  if (in.size() < 4 || in.compare(0, 4, "CAv1") != 0) return false;
  size_t at = 4;
  uint64_t len = 0;
  int n = 0;
  for (;; ++n) {
    if (n == 10 || at >= in.size()) return false;
    uint8_t b = in[at++];
    if (n == 9 && b > 1) return false;
    len |= static_cast<uint64_t>(b & 0x7f) << (7 * n);
    if (!(b & 0x80)) break;
  }
  if (len > in.size() - at) return false;
  AggregationClientPayloadHeader p;
  if (!p.ParseFromString(in.substr(at, len))) return false;
  h->encrypted_symmetric_key = p.encrypted_symmetric_key();
  h->encapsulated_public_key = p.encapsulated_public_key();
  h->serialized_blob_header = p.blob_header();
  h->is_gzip_compressed = p.compression_type() == fcp::confidentialcompute::COMPRESSION_TYPE_GZIP;
  *rest = in.substr(at + len);
  return true;
}

std::string Varint(uint64_t v, int pad) {
  std::string out;
  do {
    out += static_cast<char>((v & 0x7f) | 0x80);
    v >>= 7;
  } while (v);
  for (int i = 0; i < pad; ++i) out += static_cast<char>(0x80);
  out.back() &= 0x7f;
  return out;
}

void Malformed(pbt::Src& s, pbt::Case& c) {
  std::string in;
  int kind = s.weighted({3, 3, 3, 1});
  if (kind == 0) {  // mutate a good frame
    in = EncodeClientPayload(GenHeader(s), s.bytes(20));
    int n = s.range(1, 4);
    for (int i = 0; i < n && !in.empty(); ++i) {
      size_t at = s.chance(2, 3) ? s.draw(std::min<size_t>(in.size(), 12)) : s.draw(in.size());
      switch (s.range(0, 2)) {
        case 0:
          in[at] = static_cast<char>(s.draw(256));
          break;
        case 1:
          in.erase(at, s.range(1, 3));
          break;
        case 2:
          in.insert(at, s.bytes(3));
          break;
      }
    }
  } else if (kind == 1) {  // a declared length of any value
    std::string hdr;
    AggregationClientPayloadHeader p;
    p.set_encrypted_symmetric_key(s.bytes(6));
    p.set_blob_header(s.bytes(6));
    hdr = p.SerializeAsString();
    uint64_t len = hdr.size();
    switch (s.weighted({1, 2, 2, 2})) {
      case 1:
        len = hdr.size() + s.range(-3, 10);
        break;
      case 2:
        len = s.edgy(64);
        break;
      case 3:  // right in the low bits only
        len = hdr.size() + (static_cast<uint64_t>(s.range(1, 7)) << s.of<int>({31, 32, 40}));
        break;
    }
    in = "CAv1" + Varint(len, s.chance(1, 6) ? s.range(1, 3) : 0) + hdr + s.bytes(12);
  } else if (kind == 2) {  // odd but length-consistent headers
    std::string hdr;
    int n = s.small(0, 5);
    for (int i = 0; i < n; ++i) {
      switch (s.weighted({3, 1, 1, 1, 1, 1})) {
        case 0: {
          AggregationClientPayloadHeader p;
          p.set_encapsulated_public_key(s.bytes(4));
          p.set_compression_type(static_cast<fcp::confidentialcompute::CompressionType>(s.range(0, 3)));
          hdr += p.SerializeAsString();
          break;
        }
        case 1:
          hdr += static_cast<char>((s.range(1, 15) << 3) | 4);  // stray group end
          break;
        case 2:
          hdr += std::string(1, '\0');
          break;
        case 3:  // unknown field
          hdr += std::string("\x7a\x02hi", 4);
          break;
        case 4:  // a length that leaves the header
          hdr += '\x0a';
          hdr += static_cast<char>(s.range(0, 40));
          break;
        case 5:
          hdr += s.bytes(3);
          break;
      }
    }
    in = "CAv1" + Varint(hdr.size(), 0) + hdr + s.bytes(12);
  } else {
    in = (s.flip() ? "CAv1" : "") + s.bytes(30);
  }
  c.log << pbt::Hex(in, 80) << "\n";
  ClientPayloadHeader want;
  std::string rest;
  bool ok = Reference(in, &want, &rest);
  c.label(ok ? "still a frame" : "not a frame");
  c.nontrivial(!ok && in.size() > 4);
  Decoded d = Decode(in);
  PBT_EQ(d.ok, ok, "accepted (" << d.status << ")");
  if (ok) {
    PBT_CHECK(Same(d.header, want), "header read differently");
    PBT_EQ(pbt::Hex(d.rest), pbt::Hex(rest), "body read differently");
  } else {
    PBT_CHECK(absl::IsInvalidArgument(d.status), "odd error " << d.status);
    if (in.compare(0, 4, "CAv1") != 0) PBT_CHECK(d.rest == in, "input consumed");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "K01",
                   "a frame with a key and a body, or an input with a marker "
                   "that is not a frame",
                   {{"round_trip", RoundTrip, 10000, 200000},
                    {"malformed", Malformed, 40000, 1000000}});
}
