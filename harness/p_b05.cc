// LIBS: fcp_base
// B05: compressed, hashed and stored data comes back bit for bit or as an
// error.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>

#include <set>
#include <string>
#include <thread>
#include <vector>

#include "absl/strings/cord.h"
#include "fcp/base/base_name.h"
#include "fcp/base/compression.h"
#include "fcp/base/digest.h"
#include "fcp/base/platform.h"
#include "fcp/base/process_unique_id.h"
#include "fcp/base/random_token.h"
#include "openssl/sha.h"
#include "pbt/pbt.h"

namespace {

std::string GenData(pbt::Src& s, size_t big) {
  switch (s.weighted({2, 4, 2, 1, 1})) {
    case 0:
      return s.str(20, "ab");
    case 1:
      return s.bytes(300);
    case 2: {  // repetitive
      std::string unit = s.bytes(8);
      std::string out;
      size_t n = s.small(0, big / 8);
      for (size_t i = 0; i < n && out.size() < big; ++i) out += unit;
      return out;
    }
    case 3: {  // incompressible, around the buffer sizes in use
      size_t n = s.of<size_t>({4096, 8192, 65536, 32768, 1024, 131072});
      n = std::min(big, n) + s.range(-2, 2);
      std::string out(n, 0);
      uint64_t x = s.draw(0) | 1;
      for (char& ch : out) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        ch = static_cast<char>(x >> 32);
      }
      return out;
    }
    default:
      return std::string(s.small(0, big), static_cast<char>(s.draw(256)));
  }
}

absl::Cord Split(pbt::Src& s, const std::string& data) {
  absl::Cord c;
  size_t pos = 0;
  int max = s.of<int>({1, 3, 50, 5000, 100000});
  int pieces = 0;
  while (pos < data.size()) {
    size_t n = ++pieces > 200 ? data.size() - pos : s.range(1, max);
    std::string part = data.substr(pos, n);
    // A copy that the cord cannot merge with its neighbours.
    c.Append(absl::MakeCordFromExternal(*new std::string(part), [](absl::string_view) {}));
    pos += part.size();
  }
  return c;
}

// Independent decoder: a complete gzip stream and nothing else.
bool RefGunzip(const std::string& in, std::string* out) {
  out->clear();
  size_t pos = 0;
  bool any = false;
  while (pos < in.size()) {
    z_stream z = {};
    if (inflateInit2(&z, 15 + 16) != Z_OK) return false;
    z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data())) + pos;
    z.avail_in = in.size() - pos;
    int r;
    do {
      char buf[16384];
      z.next_out = reinterpret_cast<Bytef*>(buf);
      z.avail_out = sizeof(buf);
      r = inflate(&z, Z_NO_FLUSH);
      out->append(buf, sizeof(buf) - z.avail_out);
    } while (r == Z_OK);
    pos = in.size() - z.avail_in;
    inflateEnd(&z);
    if (r != Z_STREAM_END) return false;
    any = true;
  }
  return any;
}

void Gzip(pbt::Src& s, pbt::Case& c) {
  std::string data = GenData(s, 200000);
  c.log << "data of " << data.size() << " bytes\n";
  auto z = fcp::CompressWithGzip(data);
  PBT_CHECK(z.ok(), "compression failed: " << z.status());
  auto back = fcp::UncompressWithGzip(*z);
  PBT_CHECK(back.ok(), "decompression failed: " << back.status());
  PBT_CHECK(std::string(*back) == data, "decompressed data differs");
  std::string ref;
  PBT_CHECK(RefGunzip(*z, &ref) && ref == data,
            "the compressed form is not a gzip stream of the data");

  // Damage it.
  std::string bad = *z;
  int kind = s.weighted({3, 3, 2, 1, 1});
  switch (kind) {
    case 0:
      bad.resize(s.range(0, bad.size() - 1));
      break;
    case 1: {
      size_t i = s.flip() ? s.draw(bad.size())
                          : bad.size() - 1 - s.draw(std::min<size_t>(8, bad.size()));
      bad[i] ^= static_cast<char>(1 << s.draw(8));
      break;
    }
    case 2:
      bad.erase(s.draw(bad.size()), 1 + s.draw(4));
      break;
    case 3:
      bad.insert(s.draw(bad.size()), s.fixed_bytes(1 + s.draw(3)));
      break;
    default:
      bad = s.bytes(60);
  }
  std::string want;
  bool valid = RefGunzip(bad, &want);
  c.log << "damage " << kind << " leaves " << bad.size() << " bytes\n";
  auto got = fcp::UncompressWithGzip(bad);
  if (valid) {
    PBT_CHECK(got.ok() && std::string(*got) == want,
              "a valid stream was not decoded");
  } else if (!bad.empty()) {  // no input at all is read as no data
    PBT_CHECK(!got.ok(), "damaged stream accepted and gave "
                             << got->size() << " of " << data.size()
                             << " bytes");
  }
  c.nontrivial(!data.empty());
  c.label(valid ? "still valid" : kind == 0 ? "truncated" : "corrupted");
}

void Files(pbt::Src& s, pbt::Case& c) {
  std::string dir = c.scratch();
  std::string data = GenData(s, 150000);
  std::string name = s.ident();
  std::string path = fcp::ConcatPath(dir, name);
  PBT_EQ(path, dir + "/" + name, "joined path");
  PBT_EQ(fcp::ConcatPath("", name), name, "path joined to nothing");
  PBT_EQ(fcp::BaseName(path), name, "base name");
  PBT_EQ(std::string(fcp::StripTrailingPathSeparator(path + "/")), path, "stripped path");
  PBT_EQ(std::string(fcp::StripTrailingPathSeparator(path)), path, "path");

  c.log << "file of " << data.size() << " bytes\n";
  PBT_CHECK(!fcp::FileExists(path), "file exists before it is written");
  PBT_CHECK(!fcp::ReadFileToString(path).ok(), "missing file was read");
  PBT_CHECK(!fcp::ReadFileToCord(path).ok(), "missing file was read");
  int rounds = s.small(1, 3);
  for (int r = 0; r < rounds; ++r) {
    if (r) data = GenData(s, 3000);
    bool cord = s.flip();
    absl::Status st = cord ? fcp::WriteCordToFile(path, Split(s, data))
                           : fcp::WriteStringToFile(path, data);
    PBT_CHECK(st.ok(), "writing failed: " << st);
    PBT_CHECK(fcp::FileExists(path), "written file does not exist");
    auto a = fcp::ReadFileToString(path);
    PBT_CHECK(a.ok() && *a == data, "string read back differs");
    auto b = fcp::ReadFileToCord(path);
    PBT_CHECK(b.ok() && *b == absl::string_view(data), "cord read back differs");
  }
  c.nontrivial(data.size() > 0);

  // Paths that cannot be read or written.
  std::string content = GenData(s, 20000);
  std::string where = s.of<std::string>(
      {dir + "/no/such/file", dir, path + "/x", std::string("/dev/full")});
  c.log << "bad path " << where.substr(where.rfind('/')) << "\n";
  if (where != "/dev/full") {
    PBT_CHECK(!fcp::ReadFileToString(where).ok(), "unreadable path was read");
    PBT_CHECK(!fcp::ReadFileToCord(where).ok(), "unreadable path was read");
  }
  if (where != "/dev/full" || !content.empty()) {
    PBT_CHECK(!fcp::WriteStringToFile(where, content).ok(),
              "write to an unwritable path succeeded");
    PBT_CHECK(!fcp::WriteCordToFile(where, Split(s, content)).ok(),
              "write to an unwritable path succeeded");
  }
}

// The device runs full part way through.
void FullDisk(pbt::Src& s, pbt::Case& c) {
  std::string dir = c.scratch();
  std::string data = GenData(s, 60000);
  size_t limit = s.flip() ? s.range(0, data.size() + 10)
                          : std::max<int64_t>(0, static_cast<int64_t>(data.size()) + s.range(-2, 1));
  bool cord = s.flip();
  absl::Cord pieces = Split(s, data);
  c.log << data.size() << " bytes, room for " << limit << "\n";
  signal(SIGXFSZ, SIG_IGN);
  struct rlimit old, now;
  getrlimit(RLIMIT_FSIZE, &old);
  now = old;
  now.rlim_cur = limit;
  setrlimit(RLIMIT_FSIZE, &now);
  absl::Status st = cord ? fcp::WriteCordToFile(dir + "/f", pieces)
                         : fcp::WriteStringToFile(dir + "/f", data);
  setrlimit(RLIMIT_FSIZE, &old);
  bool fits = data.size() <= limit;
  PBT_EQ(st.ok(), fits, "reported outcome of the write");
  if (st.ok()) {
    auto a = fcp::ReadFileToString(dir + "/f");
    PBT_CHECK(a.ok() && *a == data, "data read back differs");
  }
  c.nontrivial(!fits);
}

void Digests(pbt::Src& s, pbt::Case& c) {
  std::string data = GenData(s, 5000);
  uint8_t md[32];
  SHA256(reinterpret_cast<const uint8_t*>(data.data()), data.size(), md);
  std::string want(reinterpret_cast<char*>(md), 32);
  c.log << data.size() << " bytes\n";
  PBT_EQ(pbt::Hex(fcp::ComputeSHA256(data)), pbt::Hex(want), "digest");
  absl::Cord cord = Split(s, data);
  PBT_EQ(pbt::Hex(fcp::ComputeSHA256(cord)), pbt::Hex(want), "digest of pieces");
  c.nontrivial(data.size() > 1);

  std::string raw = s.fixed_bytes(16);
  fcp::RandomToken t = fcp::RandomToken::FromBytes(raw);
  PBT_EQ(t.ToString(), raw, "token bytes");
  auto arr = t.ToBytes();
  PBT_EQ(std::string(arr.data(), arr.size()), raw, "token bytes");
  std::string hex;
  for (unsigned char ch : raw) {
    char b[3];
    snprintf(b, 3, "%02x", ch);
    hex += b;
  }
  PBT_EQ(t.ToPrintableString(), hex, "printed token");
  std::string other = raw;
  other[s.draw(16)] ^= static_cast<char>(1 << s.draw(8));
  fcp::RandomToken u = fcp::RandomToken::FromBytes(other);
  PBT_CHECK(t != u && !(t == u), "different tokens compare equal");
  PBT_CHECK(t == fcp::RandomToken::FromBytes(raw), "equal tokens differ");
}

// Freshly generated identifiers never repeat, whichever thread asks.
void Fresh(pbt::Src& s, pbt::Case& c) {
  int nt = s.small(1, 4), per = s.small(1, 200);
  c.log << nt << " threads, " << per << " each\n";
  c.nontrivial(nt > 1);
  std::vector<std::vector<uint64_t>> ids(nt);
  std::vector<std::vector<std::string>> tokens(nt);
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; ++t) {
    ts.emplace_back([&, t] {
      for (int i = 0; i < per; ++i) {
        ids[t].push_back(fcp::ProcessUniqueId::Next().value());
        if (i < 20) tokens[t].push_back(fcp::RandomToken::Generate().ToString());
      }
    });
  }
  for (auto& t : ts) t.join();
  std::set<uint64_t> all;
  std::set<std::string> all_tokens;
  for (auto& v : ids) {
    for (uint64_t x : v) PBT_CHECK(all.insert(x).second, "identifier repeated");
  }
  for (auto& v : tokens) {
    for (auto& x : v) PBT_CHECK(all_tokens.insert(x).second, "token repeated");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "B05",
                   "non-empty data, a write that does not fit, or several "
                   "threads asking for identifiers",
                   {{"gzip", Gzip, 8000, 150000},
                    {"files", Files, 3000, 40000},
                    {"full_disk", FullDisk, 3000, 40000},
                    {"digests", Digests, 8000, 100000},
                    {"fresh", Fresh, 1000, 15000}});
}
