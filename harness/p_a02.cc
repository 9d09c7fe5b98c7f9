// LIBS: fcp_client fcp_cc
// A02: verification records through the text log and back.
#include <sstream>
#include <string>
#include <vector>

#include "absl/strings/escaping.h"
#include "fcp/client/attestation/extract_attestation_records.h"
#include "fcp/client/attestation/log_attestation_records.h"
#include "fcp/protos/confidentialcompute/verification_record.pb.h"
#include "openssl/sha.h"
#include "pbt/pbt.h"

namespace {

using fcp::client::attestation::ExtractRecords;
using fcp::client::attestation::Record;
using fcp::client::attestation::internal::LogSerializedVerificationRecordWith;
using fcp::confidentialcompute::AttestationVerificationRecord;

std::string Noise(pbt::Src& s, size_t n) {
  // Incompressible, from one choice.
  uint64_t x = s.draw(1 << 30) + 1;
  std::string out;
  for (size_t i = 0; i < n; ++i) {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    out += static_cast<char>(x >> 24);
  }
  return out;
}

AttestationVerificationRecord GenRecord(pbt::Src& s) {
  AttestationVerificationRecord r;
  size_t n = 0;
  switch (s.weighted({3, 4, 2, 1})) {
    case 0:
      n = s.small(0, 30);
      break;
    case 1:  // around one, two or three lines
      n = s.range(1, 3) * 150 - s.range(0, 60);
      break;
    case 2:
      n = s.range(0, 1500);
      break;
    case 3:
      n = s.range(3000, 200000);
      break;
  }
  if (n > 0 || s.flip()) r.mutable_attestation_evidence()->mutable_root_layer()->set_remote_attestation_report(Noise(s, n));
  if (s.chance(1, 3)) r.mutable_data_access_policy()->add_transforms()->set_src(s.range(0, 9));
  if (s.chance(1, 3)) r.mutable_attestation_endorsements()->mutable_oak_restricted_kernel()->mutable_root_layer()->set_tee_certificate(s.bytes(9));
  return r;
}

struct LogLine {
  std::string text;
  int record = -1;  // which record it belongs to
  bool chunk = false;
};

std::string Prefix(pbt::Src& s) {
  return s.of<std::string>({"", "I0424 09:57:22.979937    9092 log_attestation_records.cc:65] ", "04-24 09:57:22.979  1234  5678 D "});
}

std::string Unrelated(pbt::Src& s) {
  switch (s.range(0, 5)) {
    case 0:
      return s.str(30, "abc <>=:./0");
    case 1:
      return "fcp.foobar: <" + s.ident(10) + ">";
    case 2:
      return "fcp.attest: " + s.ident(10);
    case 3:
      return "";
    case 4:
      return "fcp.attest: " + s.ident(4) + "> tail";
    default:
      return "I0424 09:57:22.979937 other.cc:1] <" + std::string(s.range(0, 300), 'A') + ">";
  }
}
// Unrelated means: not a tagged line with an opening bracket.
bool IsUnrelated(const std::string& l) {
  return l.find("fcp.attest") == std::string::npos || l.find('<') == std::string::npos;
}

std::string Sha(const std::string& d) {
  uint8_t out[32];
  SHA256(reinterpret_cast<const uint8_t*>(d.data()), d.size(), out);
  return absl::BytesToHexString(std::string(reinterpret_cast<char*>(out), 32));
}

struct Got {
  std::string bytes, digest;
  int first, last;
};

std::vector<Got> Extract(const std::vector<LogLine>& lines, bool final_newline, int* count) {
  std::string all;
  for (size_t i = 0; i < lines.size(); ++i) {
    all += lines[i].text;
    if (i + 1 < lines.size() || final_newline) all += "\n";
  }
  std::istringstream in(all);
  std::vector<Got> out;
  *count = ExtractRecords(in, [&](const Record& r) {
    out.push_back({std::string(r.decompressed_record), r.digest, r.start_line, r.end_line});
  });
  return out;
}

void WriteLog(pbt::Src& s, const std::vector<AttestationVerificationRecord>& records, std::vector<LogLine>* lines) {
  for (size_t i = 0; i < records.size(); ++i) {
    std::string prefix = Prefix(s);
    LogSerializedVerificationRecordWith(records[i], [&](absl::string_view m, bool brackets) {
      std::string text = prefix + "fcp.attest: " + (brackets ? "<" + std::string(m) + ">" : std::string(m));
      PBT_CHECK(m.size() <= 1000, "overlong log line");
      PBT_CHECK(m.find('\n') == absl::string_view::npos, "line break in a log line");
      lines->push_back({text, static_cast<int>(i), brackets});
    });
  }
}

void Sprinkle(pbt::Src& s, std::vector<LogLine>* lines) {
  int n = s.small(0, 6);
  for (int i = 0; i < n; ++i) {
    std::string u = Unrelated(s);
    if (!IsUnrelated(u)) continue;
    lines->insert(lines->begin() + s.draw(lines->size() + 1), LogLine{u});
  }
}

void Log(pbt::Src& s, pbt::Case& c) {
  std::vector<AttestationVerificationRecord> records;
  int n = s.small(1, 4);
  for (int i = 0; i < n; ++i) records.push_back(GenRecord(s));
  std::vector<LogLine> lines;
  WriteLog(s, records, &lines);
  Sprinkle(s, &lines);
  int count = 0;
  auto got = Extract(lines, s.flip(), &count);
  c.log << n << " records of";
  for (auto& r : records) c.log << " " << r.ByteSizeLong();
  c.log << " bytes in " << lines.size() << " lines\n";
  c.nontrivial(lines.size() >= 5);
  if (lines.size() >= 50) c.label("long logs");
  PBT_EQ(got.size(), records.size(), "records recovered");
  PBT_EQ(count, n, "records counted");
  for (int i = 0; i < n; ++i) {
    std::string want = records[i].SerializeAsString();
    PBT_CHECK(got[i].bytes == want, "record " << i << " changed");
    PBT_EQ(got[i].digest, Sha(want), "digest");
    int first = 0, last = 0;
    for (size_t l = 0; l < lines.size(); ++l) {
      if (lines[l].record == i && lines[l].chunk) {
        if (!first) first = l + 1;
        last = l + 1;
      }
    }
    PBT_EQ(got[i].first, first, "first line");
    PBT_EQ(got[i].last, last, "last line");
  }
}

void Damage(pbt::Src& s, pbt::Case& c) {
  std::vector<AttestationVerificationRecord> records;
  int n = s.small(1, 3);
  for (int i = 0; i < n; ++i) {
    records.push_back(GenRecord(s));
    // Keep records apart so that each can be recognised.
    records.back().mutable_attestation_endorsements()->mutable_oak_restricted_kernel()->mutable_root_layer()->set_stage0(
        "record " + std::to_string(i));
  }
  std::vector<LogLine> lines;
  WriteLog(s, records, &lines);
  Sprinkle(s, &lines);
  std::vector<char> hit(n, 0);
  int kind = s.range(0, 6);
  auto chunk_at = [&]() {
    std::vector<size_t> v;
    for (size_t i = 0; i < lines.size(); ++i) {
      if (lines[i].chunk) v.push_back(i);
    }
    // Often the last or the first line of a record.
    if (s.flip()) {
      std::vector<size_t> w;
      for (size_t i : v) {
        if (lines[i].text.find("<>") != std::string::npos) w.push_back(i);
      }
      return s.pick(w);
    }
    return s.pick(v);
  };
  c.log << n << " records in " << lines.size() << " lines, damage " << kind << "\n";
  switch (kind) {
    case 0: {  // a line is lost
      size_t at = chunk_at();
      hit[lines[at].record] = 1;
      // Without its end a record runs into the next one.
      if (lines[at].text.find("<>") != std::string::npos && lines[at].record + 1 < n) hit[lines[at].record + 1] = 1;
      lines.erase(lines.begin() + at);
      break;
    }
    case 1: {  // the log starts late
      size_t cut = s.draw(lines.size());
      for (size_t i = 0; i < cut; ++i) {
        if (lines[i].chunk) hit[lines[i].record] = 1;
      }
      lines.erase(lines.begin(), lines.begin() + cut);
      break;
    }
    case 2: {  // the log stops early
      size_t cut = s.draw(lines.size());
      for (size_t i = cut; i < lines.size(); ++i) {
        if (lines[i].chunk) hit[lines[i].record] = 1;
      }
      lines.resize(cut);
      break;
    }
    case 3: {  // a character changes
      size_t at = chunk_at();
      std::string& t = lines[at].text;
      size_t b = t.find('<');
      if (t.size() - b <= 2) break;
      size_t p = s.range(b + 1, t.size() - 2);
      char to = s.of<char>({'A', 'z', '+', '9', '='});
      if (t[p] == to) break;
      // Unused bits of the last group do not carry data.
      if (t[t.size() - 2] == '=') {
        size_t q = t.size() - 2;
        while (q > b && t[q] == '=') --q;
        if (p >= q) break;
      }
      t[p] = to;
      hit[lines[at].record] = 1;
      break;
    }
    case 4: {  // a line is repeated
      size_t at = chunk_at();
      if (lines[at].text.find("<>") != std::string::npos) {
        // A second end is no record.
        lines.insert(lines.begin() + at, LogLine(lines[at]));
        break;
      }
      hit[lines[at].record] = 1;
      lines.insert(lines.begin() + at, LogLine(lines[at]));
      break;
    }
    case 5: {  // two lines change places
      size_t a = chunk_at(), b = chunk_at();
      if (lines[a].text == lines[b].text) break;
      for (int r = std::min(lines[a].record, lines[b].record); r <= std::max(lines[a].record, lines[b].record); ++r) {
        hit[r] = 1;
      }
      // An end that moves also opens its neighbour.
      for (size_t i : {a, b}) {
        if (lines[i].record + 1 < n) hit[lines[i].record + 1] = 1;
      }
      std::swap(lines[a].text, lines[b].text);
      break;
    }
    case 6: {  // a line is cut short
      size_t at = chunk_at();
      std::string& t = lines[at].text;
      size_t b = t.find('<');
      if (t.size() - b <= 2) break;
      t.resize(s.range(b, t.size() - 2));
      hit[lines[at].record] = 1;
      break;
    }
  }
  int count = 0;
  auto got = Extract(lines, true, &count);
  PBT_EQ(count, static_cast<int>(got.size()), "records counted");
  std::vector<int> times(n, 0);
  for (auto& g : got) {
    bool known = false;
    for (int i = 0; i < n; ++i) {
      if (g.bytes == records[i].SerializeAsString()) {
        ++times[i];
        known = true;
      }
    }
    PBT_CHECK(known, "a record that was never written came out (" << g.bytes.size() << " bytes)");
  }
  bool any = false;
  for (int i = 0; i < n; ++i) {
    any = any || hit[i];
    if (!hit[i]) PBT_EQ(times[i], 1, "undamaged record " << i);
    PBT_CHECK(times[i] <= 1, "record " << i << " came out twice");
  }
  c.nontrivial(any);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "A02", "a log of five lines or more, or a log with a damaged record",
                   {{"log", Log, 3000, 40000}, {"damage", Damage, 12000, 200000}});
}
