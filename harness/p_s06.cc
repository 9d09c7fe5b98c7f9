// LIBS: fcp_secagg_shared
// S06: packed vectors preserve elements and add exactly modulo their modulus.
#include <memory>

#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/math.h"
#include "fcp/secagg/shared/secagg_vector.h"
#include "pbt/pbt.h"

using namespace fcp::secagg;
typedef unsigned __int128 u128;

namespace {

uint64_t GenModulus(pbt::Src& s) {
  int bits = s.range(1, 62);
  switch (s.weighted({3, 2, 2})) {
    case 0:
      return 1ull << bits;
    case 1: {  // just around a power of two
      uint64_t m = (1ull << bits) + s.range(-2, 2);
      return std::min<uint64_t>(std::max<uint64_t>(m, 2), 1ull << 62);
    }
    default:
      return s.urange(2, 1ull << bits < 2 ? 2 : 1ull << bits);
  }
}

std::vector<uint64_t> GenElements(pbt::Src& s, size_t n, uint64_t mod) {
  std::vector<uint64_t> v(n);
  int mode = s.weighted({3, 1, 1, 2});
  uint64_t seed = mode == 0 ? s.draw(0) : 0;
  for (size_t i = 0; i < n; ++i) {
    switch (mode) {
      case 0:
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        v[i] = (seed ^ (seed >> 29)) % mod;
        break;
      case 1:
        v[i] = mod - 1;
        break;
      case 2:
        v[i] = i % 2 ? mod - 1 : 0;
        break;
      default:
        v[i] = s.edgy(62) % mod;
    }
  }
  return v;
}

int Width(uint64_t mod) {
  int w = 0;
  for (uint64_t m = mod - 1; m; m >>= 1) ++w;
  return w;
}

std::string RefPack(const std::vector<uint64_t>& v, uint64_t mod) {
  int w = Width(mod);
  std::string out((v.size() * w + 7) / 8, 0);
  size_t bit = 0;
  for (uint64_t x : v)
    for (int k = 0; k < w; ++k, ++bit)
      if (x >> k & 1) out[bit / 8] |= static_cast<char>(1 << (bit % 8));
  return out;
}

std::string Str(const std::vector<uint64_t>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size() && i < 12; ++i)
    o += (i ? "," : "") + std::to_string(v[i]);
  return o + (v.size() > 12 ? ",...]" : "]");
}

size_t GenLength(pbt::Src& s) {
  if (s.chance(1, 25)) return s.range(200, 3000);
  return s.small(0, 64);
}

void Codec(pbt::Src& s, pbt::Case& c) {
  uint64_t mod = GenModulus(s);
  size_t n = GenLength(s);
  std::vector<uint64_t> v = GenElements(s, n, mod);
  c.log << "modulus=" << mod << " n=" << n << " v=" << Str(v);
  c.nontrivial(n > 1);
  c.label(Width(mod) > 56 ? "wide" : Width(mod) % 8 ? "unaligned" : "aligned");
  std::string want = RefPack(v, mod);
  PBT_EQ(SecAggVector::GetBitWidth(mod), Width(mod), "bit width");
  bool pack_branchless = s.flip();
  SecAggVector a(v, mod, pack_branchless);
  SecAggVector b(v, mod, !pack_branchless);
  SecAggVector::Coder coder(mod, Width(mod), n);
  for (uint64_t x : v) coder.WriteValue(x);
  SecAggVector d = std::move(coder).Create();
  SecAggVector e(want, mod, n, s.flip());
  for (const SecAggVector* x : {&a, &b, &d, &e}) {
    PBT_EQ(pbt::Hex(x->GetAsPackedBytes(), 4096), pbt::Hex(want, 4096),
           "packed bytes");
    PBT_EQ(x->num_elements(), n, "num_elements");
    PBT_EQ(x->modulus(), mod, "modulus");
    PBT_EQ(x->bit_width(), static_cast<size_t>(Width(mod)), "bit_width");
    PBT_EQ(Str(x->GetAsUint64Vector()), Str(v), "unpacked");
    PBT_CHECK(x->GetAsUint64Vector() == v, "unpacked elements differ");
    SecAggVector::Decoder dec(*x);
    for (size_t i = 0; i < n; ++i)
      PBT_EQ(dec.ReadValue(), v[i], "decoder element " << i);
    SecAggUnpackedVector up(*x);
    PBT_CHECK(static_cast<const std::vector<uint64_t>&>(up) == v,
              "unpacked vector differs");
    PBT_EQ(up.modulus(), mod, "unpacked modulus");
  }
  PBT_CHECK(a == b, "equal vectors compare unequal");
  // Moves.
  SecAggVector moved(std::move(a));
  PBT_CHECK(moved.GetAsUint64Vector() == v, "move constructor lost the value");
  SecAggVector target(std::vector<uint64_t>{1, 0, 1}, 2);
  target = std::move(moved);
  PBT_CHECK(target.GetAsUint64Vector() == v && target.modulus() == mod &&
                target.num_elements() == n,
            "move assignment lost the value");
  PBT_EQ(pbt::Hex(std::move(target).TakePackedBytes(), 4096),
         pbt::Hex(want, 4096), "taken bytes");
}

// Bytes from outside may hold values >= modulus: every reader that feeds an
// aggregation must still stay inside the modulus and keep the residue.
void Foreign(pbt::Src& s, pbt::Case& c) {
  uint64_t mod = GenModulus(s);
  int w = Width(mod);
  size_t n = GenLength(s);
  uint64_t top = 1ull << w;
  std::vector<uint64_t> raw = GenElements(s, n, top);
  std::string bytes = RefPack(raw, top);
  c.log << "modulus=" << mod << " raw=" << Str(raw);
  bool over = false;
  SecAggVector vec(bytes, mod, n, true);
  SecAggUnpackedVector acc(n, mod);
  acc.Add(vec);
  SecAggUnpackedVector up(vec);
  SecAggVector::Decoder dec{absl::string_view(bytes), mod};
  for (size_t i = 0; i < n; ++i) {
    over = over || raw[i] >= mod;
    uint64_t want = raw[i] % mod;
    PBT_EQ(dec.ReadValue(), want, "decoder element " << i);
    PBT_EQ(acc[i], want, "accumulated element " << i);
    PBT_EQ(up[i], want, "unpacked element " << i);
  }
  c.nontrivial(over);
}

void Addition(pbt::Src& s, pbt::Case& c) {
  int vecs = s.small(1, 4);
  int terms = s.small(1, 6);
  std::vector<std::string> names;
  std::vector<uint64_t> mods;
  std::vector<std::vector<uint64_t>> want;
  SecAggUnpackedVectorMap acc_packed, acc_unpacked;
  auto acc_static = std::make_unique<SecAggUnpackedVectorMap>();
  auto acc_fn = std::make_unique<SecAggVectorMap>();
  for (int i = 0; i < vecs; ++i) {
    names.push_back("v" + std::to_string(i));
    mods.push_back(GenModulus(s));
    size_t n = GenLength(s);
    want.emplace_back(n, 0);
    acc_packed.emplace(names[i], SecAggUnpackedVector(n, mods[i]));
    acc_unpacked.emplace(names[i], SecAggUnpackedVector(n, mods[i]));
    acc_static->emplace(names[i], SecAggUnpackedVector(n, mods[i]));
    acc_fn->emplace(names[i], SecAggVector(std::vector<uint64_t>(n, 0), mods[i]));
    c.log << names[i] << "(n=" << n << ",mod=" << mods[i] << ") ";
    c.nontrivial(n > 0 && terms > 1);
  }
  for (int t = 0; t < terms; ++t) {
    SecAggVectorMap term;
    for (int i = 0; i < vecs; ++i) {
      auto v = GenElements(s, want[i].size(), mods[i]);
      if (t < 2) c.log << Str(v) << " ";
      for (size_t k = 0; k < v.size(); ++k)
        want[i][k] = static_cast<uint64_t>((u128(want[i][k]) + v[k]) % mods[i]);
      term.emplace(names[i], SecAggVector(v, mods[i], s.flip()));
    }
    SecAggUnpackedVectorMap unpacked(term);
    acc_packed.Add(term);
    acc_unpacked.Add(unpacked);
    acc_static = SecAggUnpackedVectorMap::AddMaps(*acc_static, unpacked);
    acc_fn = AddMaps(*acc_fn, term);
    for (int i = 0; i < vecs; ++i) {
      PBT_CHECK(acc_packed.at(names[i]) == want[i],
                "packed add: " << Str(acc_packed.at(names[i])) << " want "
                               << Str(want[i]));
      PBT_CHECK(acc_unpacked.at(names[i]) == want[i],
                "unpacked add: " << Str(acc_unpacked.at(names[i])) << " want "
                                 << Str(want[i]));
      PBT_CHECK(acc_static->at(names[i]) == want[i],
                "map add: " << Str(acc_static->at(names[i])) << " want "
                            << Str(want[i]));
      PBT_CHECK(acc_fn->at(names[i]).GetAsUint64Vector() == want[i],
                "packed map add: " << Str(acc_fn->at(names[i]).GetAsUint64Vector())
                                   << " want " << Str(want[i]));
    }
  }
}

void Arithmetic(pbt::Src& s, pbt::Case& c) {
  uint64_t z = GenModulus(s);
  uint64_t a = s.flip() ? s.edgy(62) % z : z - 1 - s.edgy(62) % z;
  uint64_t b = s.flip() ? s.edgy(62) % z : z - 1 - s.edgy(62) % z;
  c.log << "a=" << a << " b=" << b << " z=" << z;
  c.nontrivial();
  uint64_t sum = static_cast<uint64_t>((u128(a) + b) % z);
  uint64_t diff = static_cast<uint64_t>((u128(a) + z - b) % z);
  PBT_EQ(AddMod(a, b, z), sum, "AddMod");
  PBT_EQ(AddModOpt(a, b, z), sum, "AddModOpt");
  PBT_EQ(SubtractMod(a, b, z), diff, "SubtractMod");
  PBT_EQ(SubtractModOpt(a, b, z), diff, "SubtractModOpt");
  PBT_EQ(MultiplyMod64(a, b, z), static_cast<uint64_t>(u128(a) * b % z),
         "MultiplyMod64");
  uint32_t x = s.edgy(32), y = s.edgy(32);
  uint64_t m = s.urange(1, 1ull << 32);
  PBT_EQ(MultiplyMod(x, y, m), static_cast<uint32_t>(uint64_t{x} * y % m),
         "MultiplyMod");
  uint64_t p = s.of<uint64_t>({2147483659ull, 2305843009213693951ull, 65537, 7,
                               4294967291ull});
  uint64_t q = s.urange(1, p - 1);
  PBT_EQ(static_cast<uint64_t>(u128(InverseModPrime(q, p)) * q % p), 1u,
         "InverseModPrime");
  uint32_t num = s.edgy(31), den = s.urange(1, 1 << 20);
  PBT_EQ(DivideRoundUp(num, den), (uint64_t{num} + den - 1) / den,
         "DivideRoundUp");
  std::string be = IntToByteString(x);
  uint32_t back = 0;
  for (unsigned char ch : be) back = back << 8 | ch;
  PBT_CHECK(be.size() == 4 && back == x, "IntToByteString");
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "S06",
      "moduli around every bit width, lengths to 3000, edge and random "
      "elements; non-trivial when the vector has 2+ elements (codec), holds an "
      "out-of-range word (foreign), or 2+ terms are added",
      {{"codec", Codec, 250000, 4000000},
       {"foreign", Foreign, 100000, 1500000},
       {"addition", Addition, 120000, 1500000},
       {"arithmetic", Arithmetic, 300000, 4000000}});
}
