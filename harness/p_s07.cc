// LIBS: fcp_secagg_shared
// S07: masks depend only on keys and session and cancel pairwise.
#include <atomic>
#include <cmath>
#include <memory>
#include <set>

#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/async_abort.h"
#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/prng.h"
#include "pbt/pbt.h"

using namespace fcp::secagg;
typedef unsigned __int128 u128;

namespace {

uint64_t GenModulus(pbt::Src& s) {
  int bits = s.range(1, 62);
  switch (s.weighted({3, 2, 2})) {
    case 0:
      return 1ull << bits;
    case 1: {
      uint64_t m = (1ull << bits) + s.range(-2, 2);
      return std::min<uint64_t>(std::max<uint64_t>(m, 2), 1ull << 62);
    }
    default:
      return s.urange(2, 1ull << bits);
  }
}

AesKey GenKey(pbt::Src& s) {
  if (s.chance(1, 6)) {  // legacy short keys
    std::string b = s.fixed_bytes(s.range(1, 17));
    return AesKey(reinterpret_cast<const uint8_t*>(b.data()), b.size());
  }
  std::string b = s.fixed_bytes(32);
  return AesKey(reinterpret_cast<const uint8_t*>(b.data()));
}

std::vector<InputVectorSpecification> GenSpecs(pbt::Src& s, pbt::Case& c) {
  int n = s.small(1, 4);
  std::vector<InputVectorSpecification> out;
  for (int i = 0; i < n; ++i) {
    int len = s.chance(1, 12) ? s.range(300, 2500) : s.small(0, 40);
    out.emplace_back(s.ident(4) + std::to_string(i), len, GenModulus(s));
    c.log << out.back().name() << "(len=" << len
          << ",mod=" << out.back().modulus() << ") ";
  }
  return out;
}

typedef std::map<std::string, std::vector<uint64_t>> Plain;

Plain ToPlain(const SecAggVectorMap& m) {
  Plain p;
  for (auto& [k, v] : m) p[k] = v.GetAsUint64Vector();
  return p;
}
Plain ToPlain(const SecAggUnpackedVectorMap& m) {
  Plain p;
  for (auto& [k, v] : m) p[k] = v;
  return p;
}

void Masks(pbt::Src& s, pbt::Case& c) {
  AesCtrPrngFactory factory;
  auto specs = GenSpecs(s, c);
  SessionId session{s.fixed_bytes(s.chance(4, 5) ? 32 : s.range(0, 40))};
  std::vector<AesKey> add, sub;
  int na = s.small(0, 5), ns = s.small(0, 5);
  for (int i = 0; i < na; ++i) add.push_back(GenKey(s));
  for (int i = 0; i < ns; ++i) sub.push_back(GenKey(s));
  c.log << "add=" << na << " sub=" << ns;
  std::atomic<std::string*> sig(nullptr);
  AsyncAbort abort(&sig);
  auto m1 = MapOfMasks(add, sub, specs, session, factory,
                       s.flip() ? &abort : nullptr);
  auto m3 = MapOfMasksV3(add, sub, specs, session, factory,
                         s.flip() ? &abort : nullptr);
  auto mu = UnpackedMapOfMasks(add, sub, specs, session, factory,
                               s.flip() ? &abort : nullptr);
  PBT_CHECK(m1 && m3 && mu, "mask generation gave up without an abort");
  Plain a = ToPlain(*m1), b = ToPlain(*m3), u = ToPlain(*mu);
  PBT_EQ(a.size(), specs.size(), "number of vectors");
  PBT_CHECK(a == b, "the optimized routine disagrees with the reference one");
  PBT_CHECK(a == u, "the unpacked routine disagrees with the packed one");
  for (auto& sp : specs) {
    PBT_EQ(m1->at(sp.name()).modulus(), sp.modulus(), "modulus");
    PBT_EQ(mu->at(sp.name()).modulus(), sp.modulus(), "modulus (unpacked)");
    PBT_EQ(a[sp.name()].size(), static_cast<size_t>(sp.length()), "length");
    for (uint64_t v : a[sp.name()])
      PBT_CHECK(v < sp.modulus(), "mask element outside the modulus");
  }
  Plain again = ToPlain(*MapOfMasksV3(add, sub, specs, session, factory));
  PBT_CHECK(a == again, "mask generation is not deterministic");
  // Swapping negates.
  Plain neg = ToPlain(*UnpackedMapOfMasks(sub, add, specs, session, factory));
  for (auto& sp : specs)
    for (int i = 0; i < sp.length(); ++i)
      PBT_EQ((u128(a[sp.name()][i]) + neg[sp.name()][i]) % sp.modulus() == 0,
             true, "swapped keys do not cancel at " << sp.name() << "[" << i << "]");
  // Linearity: the mask is the signed sum of the single-key masks.
  Plain sum;
  for (auto& sp : specs) sum[sp.name()].assign(sp.length(), 0);
  std::vector<AesKey> none;
  auto accumulate = [&](const AesKey& k, bool plus) {
    Plain one = ToPlain(plus ? *MapOfMasksV3({k}, none, specs, session, factory)
                             : *MapOfMasksV3(none, {k}, specs, session, factory));
    for (auto& sp : specs)
      for (int i = 0; i < sp.length(); ++i)
        sum[sp.name()][i] = static_cast<uint64_t>(
            (u128(sum[sp.name()][i]) + one[sp.name()][i]) % sp.modulus());
  };
  for (auto& k : add) accumulate(k, true);
  for (auto& k : sub) accumulate(k, false);
  PBT_CHECK(sum == a, "the mask is not the sum of the single-key masks");
  // Order of keys and of specifications does not matter.
  std::vector<AesKey> add2 = add;
  s.shuffle(&add2);
  std::vector<InputVectorSpecification> rev(specs.rbegin(), specs.rend());
  PBT_CHECK(ToPlain(*MapOfMasksV3(add2, sub, rev, session, factory)) == a,
            "reordering keys or vectors changed the mask");
  bool len = false;
  for (auto& sp : specs) len = len || sp.length() > 1;
  c.nontrivial(len && na + ns > 0);
  // A raised abort stops generation.
  if (s.chance(1, 10)) {
    abort.Abort("stop");
    PBT_CHECK(!MapOfMasksV3(add, sub, specs, session, factory, &abort),
              "mask generation ignored the abort");
  }
}

// Different key, session, vector name, length or modulus => unrelated mask.
void Separation(pbt::Src& s, pbt::Case& c) {
  AesCtrPrngFactory factory;
  int bits = s.range(32, 62);
  uint64_t mod = s.flip() ? 1ull << bits : (1ull << bits) - s.range(1, 1000);
  int len = s.range(8, 40);
  std::string name = s.ident(5);
  std::string session = s.fixed_bytes(32);
  std::string key = s.fixed_bytes(32);
  auto gen = [&](const std::string& k, const std::string& ses,
                 const std::string& nm, int l, uint64_t m) {
    InputVectorSpecification spec(nm, l, m);
    std::vector<AesKey> keys{AesKey(reinterpret_cast<const uint8_t*>(k.data()))};
    auto r = UnpackedMapOfMasks(keys, {}, {spec}, SessionId{ses}, factory);
    std::vector<uint64_t> v = r->at(nm);
    v.resize(8);
    return v;
  };
  auto base = gen(key, session, name, len, mod);
  auto flip_bit = [&](std::string x) {
    size_t bit = s.draw(x.size() * 8);
    x[bit / 8] ^= static_cast<char>(1 << (bit % 8));
    return x;
  };
  std::vector<uint64_t> other;
  int what = s.draw(5);
  switch (what) {
    case 0:
      other = gen(flip_bit(key), session, name, len, mod);
      break;
    case 1:
      other = gen(key, flip_bit(session), name, len, mod);
      break;
    case 2:
      other = gen(key, session, s.flip() ? name + "x" : "x" + name, len, mod);
      break;
    case 3:
      other = gen(key, session, name, len + 1, mod);
      break;
    default:
      other = gen(key, session, name, len, 1ull << (bits == 62 ? 61 : bits + 1));
  }
  static const char* kWhat[] = {"key", "session", "name", "length", "modulus"};
  c.log << "changed " << kWhat[what] << " mod=" << mod << " len=" << len;
  c.label(kWhat[what]);
  c.nontrivial();
  // 8 elements of >= 32 bits: a coincidental match in any position has
  // probability < 2^-28 per case; two of them < 2^-55.
  int same = 0;
  for (int i = 0; i < 8; ++i) same += base[i] == other[i];
  PBT_CHECK(same < 2, "masks coincide although the " << kWhat[what]
                                                      << " differs");
  std::set<uint64_t> distinct(base.begin(), base.end());
  PBT_CHECK(distinct.size() > 5, "mask elements repeat");
}

// Every residue must be equally likely. Counts over one long vector stay
// within 7 standard deviations.
void Uniform(pbt::Src& s, pbt::Case& c) {
  AesCtrPrngFactory factory;
  uint64_t mod = s.chance(1, 2) ? s.range(2, 40)
                                : (1ull << s.range(5, 16)) + s.range(-3, 200);
  if (mod < 2) mod = 2;
  int n = 40000;
  std::string key = s.fixed_bytes(32);
  InputVectorSpecification spec("v", n, mod);
  std::vector<AesKey> keys{AesKey(reinterpret_cast<const uint8_t*>(key.data()))};
  auto m = UnpackedMapOfMasks(keys, {}, {spec}, SessionId{std::string(32, 'a')},
                              factory);
  int buckets = mod <= 40 ? mod : 16;
  std::vector<double> count(buckets, 0), width(buckets, 0);
  for (uint64_t v : m->at("v")) {
    PBT_CHECK(v < mod, "outside the modulus");
    count[static_cast<size_t>(u128(v) * buckets / mod)]++;
  }
  for (uint64_t x = 0; x < mod; ++x)
    width[static_cast<size_t>(u128(x) * buckets / mod)]++;
  c.log << "mod=" << mod << " n=" << n;
  c.nontrivial();
  for (int b = 0; b < buckets; ++b) {
    double p = width[b] / mod;
    double sd = std::sqrt(n * p * (1 - p));
    PBT_CHECK(std::fabs(count[b] - n * p) <= 7 * sd + 1,
              "bucket " << b << " of " << buckets << " has " << count[b]
                        << " hits, expected " << n * p << " for modulus " << mod);
  }
}

void Stream(pbt::Src& s, pbt::Case& c) {
  AesCtrPrngFactory factory;
  PBT_CHECK(factory.SupportsBatchMode(), "batch mode expected");
  AesKey key = [&] {
    std::string b = s.fixed_bytes(32);
    return AesKey(reinterpret_cast<const uint8_t*>(b.data()));
  }();
  int total = s.chance(1, 4) ? s.range(1000, 6000) : s.range(1, 400);
  std::string ref;
  auto p1 = factory.MakePrng(key);
  for (int i = 0; i < total; ++i) ref.push_back(static_cast<char>(p1->Rand8()));
  // Mixed 8 and 64 bit reads.
  auto p2 = factory.MakePrng(key);
  int pos = 0;
  int steps = 0;
  while (pos + 8 <= total) {
    if (steps++ < 200 ? s.flip() : (steps % 3)) {
      uint64_t v = p2->Rand64();
      for (int k = 0; k < 8; ++k)
        PBT_EQ(static_cast<int>(static_cast<uint8_t>(v >> (8 * k))),
               static_cast<int>(static_cast<uint8_t>(ref[pos + k])),
               "64-bit read at " << pos);
      pos += 8;
    } else {
      PBT_EQ(static_cast<int>(p2->Rand8()),
             static_cast<int>(static_cast<uint8_t>(ref[pos])), "8-bit read");
      pos += 1;
    }
  }
  // Buffered reads.
  auto p3 = factory.MakePrng(key);
  auto* batch = static_cast<SecureBatchPrng*>(p3.get());
  int max = static_cast<int>(batch->GetMaxBufferSize());
  pos = 0;
  steps = 0;
  while (pos < total && steps++ < 500) {
    int want = s.chance(1, 8) ? max + 16 * s.range(0, 4) : 16 * s.range(1, max / 16);
    std::vector<uint8_t> buf(want);
    int got = batch->RandBuffer(buf.data(), want);
    PBT_EQ(got, std::min(want, max), "bytes generated");
    for (int k = 0; k < got && pos + k < total; ++k)
      PBT_EQ(static_cast<int>(buf[k]),
             static_cast<int>(static_cast<uint8_t>(ref[pos + k])),
             "buffered read at " << pos + k);
    pos += got;
  }
  c.log << "total=" << total;
  c.nontrivial(total > 16);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "S07",
      "random key lists (incl. legacy short keys), sessions, vector sets and "
      "read patterns; non-trivial when a vector has 2+ elements and a key is "
      "used, or when a component was changed",
      {{"masks", Masks, 60000, 900000},
       {"separation", Separation, 60000, 900000},
       {"uniform", Uniform, 1500, 20000},
       {"stream", Stream, 15000, 200000}});
}
