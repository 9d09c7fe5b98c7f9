// LIBS: fcp_secagg_shared
// S05: threshold secret sharing reconstructs from any threshold-sized subset.
#include <memory>

#define VERIF_DETRAND_DEFINE
#include "detrand.h"
#include "fcp/secagg/shared/aes_key.h"
#include "fcp/secagg/shared/shamir_secret_sharing.h"
#include "pbt/pbt.h"

using fcp::secagg::AesKey;
using fcp::secagg::ShamirSecretSharing;
using fcp::secagg::ShamirShare;

namespace {

std::string GenSecret(pbt::Src& s, size_t max_len) {
  size_t len = s.chance(1, 3) ? s.of<size_t>({1, 4, 16, 17, 31, 32, 33, 62})
                              : s.small(1, max_len);
  if (len > max_len) len = max_len;
  switch (s.weighted({4, 1, 1, 1})) {
    case 1:
      return std::string(len, '\xff');
    case 2:
      return std::string(len, '\0');
    case 3: {
      std::string x(len, '\0');
      x[s.draw(len)] = static_cast<char>(1 << s.draw(8));
      return x;
    }
    default:
      return s.fixed_bytes(len);
  }
}

// Keeps a random subset of the shares of the given size.
std::vector<ShamirShare> Subset(pbt::Src& s,
                                const std::vector<ShamirShare>& shares,
                                int keep, std::string* picked) {
  std::vector<int> idx(shares.size());
  for (size_t i = 0; i < idx.size(); ++i) idx[i] = i;
  s.shuffle(&idx);
  std::vector<ShamirShare> out(shares.size());
  for (int i = 0; i < keep; ++i) {
    out[idx[i]] = shares[idx[i]];
    *picked += (i ? "," : "") + std::to_string(idx[i]);
  }
  return out;
}

// Share and reconstruct a series of secrets with one object, comparing with
// the original secret and with a fresh object.
void Sharing(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(0), s.chance(1, 2));
  ShamirSecretSharing one;
  int rounds = s.small(1, 5);
  bool proper = false;
  for (int r = 0; r < rounds; ++r) {
    int n = s.chance(1, 12) ? s.range(2, 150) : s.small(2, 24);
    int t = s.chance(1, 3) ? (s.flip() ? n : 2) : s.range(2, n);
    std::string secret = GenSecret(s, n > 40 ? 36 : 80);
    ShamirSecretSharing sharer_fresh;
    ShamirSecretSharing& sharer = s.flip() ? one : sharer_fresh;
    std::vector<ShamirShare> shares = sharer.Share(t, n, secret);
    PBT_EQ(shares.size(), static_cast<size_t>(n), "number of shares");
    for (auto& sh : shares) {
      PBT_CHECK(!sh.data.empty(), "empty share");
      PBT_EQ(sh.data.size(), shares[0].data.size(), "share sizes differ");
    }
    int recs = s.small(1, 4);
    for (int k = 0; k < recs; ++k) {
      int keep = s.chance(1, 4) ? s.range(0, t - 1) : s.small(t, n);
      std::string picked;
      std::vector<ShamirShare> sub = Subset(s, shares, keep, &picked);
      c.log << "n=" << n << " t=" << t << " secret=" << pbt::Hex(secret, 16)
            << " keep={" << picked << "}; ";
      auto got = one.Reconstruct(t, sub, secret.size());
      if (keep < t) {
        c.label("below threshold");
        PBT_CHECK(!got.ok(), "reconstructed from fewer than threshold shares");
        continue;
      }
      c.label("reconstructed");
      proper = proper || keep < n || n > 2;
      PBT_CHECK(got.ok(), "reconstruct failed: " << got.status().ToString());
      PBT_EQ(pbt::Hex(*got), pbt::Hex(secret), "wrong secret");
      ShamirSecretSharing fresh;
      auto again = fresh.Reconstruct(t, sub, secret.size());
      PBT_CHECK(again.ok() && *again == *got,
                "a fresh object reconstructs differently");
    }
  }
  c.nontrivial(proper);
}

// Sharing and reassembling through the key type.
void KeyShares(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(0), s.chance(1, 3));
  int n = s.small(2, 30);
  int t = s.range(2, n);
  std::string bytes = s.fixed_bytes(32);
  if (s.chance(1, 3)) {
    int zeros = s.range(1, 31);
    for (int i = 0; i < zeros; ++i) bytes[i] = 0;
  }
  if (s.chance(1, 8)) bytes = std::string(32, '\xff');
  AesKey key(reinterpret_cast<const uint8_t*>(bytes.data()));
  ShamirSecretSharing shamir;
  auto shares = shamir.Share(t, n, key);
  std::string picked;
  bool below = s.chance(1, 6);
  int keep = below ? s.range(1, t - 1) : s.range(t, n);
  auto sub = Subset(s, shares, keep, &picked);
  auto got = AesKey::CreateFromShares(sub, t);
  c.log << "key=" << pbt::Hex(bytes) << " n=" << n << " t=" << t << " keep={"
        << picked << "}";
  if (below) {
    PBT_CHECK(!got.ok(), "key built from fewer than threshold shares");
    return;
  }
  c.nontrivial();
  PBT_CHECK(got.ok(), "key not rebuilt: " << got.status().ToString());
  PBT_CHECK(*got == key && got->AsString() == key.AsString(),
            "rebuilt key differs: " << pbt::Hex(got->AsString()));
}

// Any threshold shares determine all the others: checked by an independent
// 128-bit interpolation at every position outside the chosen subset.
void Interpolates(pbt::Src& s, pbt::Case& c) {
  bool uniform = s.flip();
  detrand::Seed(s.draw(0), uniform ? 0 : 1);
  constexpr unsigned __int128 P = 2147483659u;
  auto powmod = [](unsigned __int128 b, uint64_t e) {
    unsigned __int128 r = 1;
    b %= P;
    for (; e; e >>= 1) {
      if (e & 1) r = r * b % P;
      b = b * b % P;
    }
    return r;
  };
  int n = s.range(2, 12);
  int t = s.range(2, n);
  std::string secret = GenSecret(s, 24);
  ShamirSecretSharing shamir;
  auto shares = shamir.Share(t, n, secret);
  size_t words = shares[0].data.size() / 4;
  PBT_EQ(words, (secret.size() * 8 + 30) / 31, "share length");
  auto word = [&](int i, size_t w) {
    uint64_t v = 0;
    for (int k = 0; k < 4; ++k)
      v = v << 8 | static_cast<uint8_t>(shares[i].data[4 * w + k]);
    return v;
  };
  std::vector<int> idx(n);
  for (int i = 0; i < n; ++i) idx[i] = i;
  s.shuffle(&idx);
  c.log << "n=" << n << " t=" << t << " secret=" << pbt::Hex(secret);
  c.nontrivial(t < n);
  for (size_t w = 0; w < words; ++w) {
    for (int i = 0; i < n; ++i)
      PBT_CHECK(word(i, w) < P, "share word outside the field");
    for (int target = t; target < n; ++target) {
      unsigned __int128 x = idx[target] + 1, acc = 0;
      for (int i = 0; i < t; ++i) {
        unsigned __int128 num = 1, den = 1, xi = idx[i] + 1;
        for (int j = 0; j < t; ++j) {
          if (j == i) continue;
          unsigned __int128 xj = idx[j] + 1;
          num = num * ((x + P - xj) % P) % P;
          den = den * ((xi + P - xj) % P) % P;
        }
        acc = (acc + word(idx[i], w) * num % P * powmod(den, 2147483657u)) % P;
      }
      PBT_EQ(static_cast<uint64_t>(acc), word(idx[target], w),
             "share " << idx[target] << " is not on the polynomial");
    }
  }
  // Secrecy: with uniform randomness, threshold-1 shares must not determine
  // the secret, and different words must be masked independently. Both would
  // happen by chance with probability < 2^-60.
  if (!uniform || words < 2) return;
  c.label("secrecy checked");
  auto at_zero = [&](int count, size_t w) {
    unsigned __int128 acc = 0;
    for (int i = 0; i < count; ++i) {
      unsigned __int128 num = 1, den = 1, xi = idx[i] + 1;
      for (int j = 0; j < count; ++j) {
        if (j == i) continue;
        unsigned __int128 xj = idx[j] + 1;
        num = num * (P - xj) % P;
        den = den * ((xi + P - xj) % P) % P;
      }
      acc = (acc + word(idx[i], w) * num % P * powmod(den, 2147483657u)) % P;
    }
    return static_cast<uint64_t>(acc);
  };
  bool fewer_suffice = true;
  for (size_t w = 0; w < words; ++w)
    fewer_suffice = fewer_suffice && at_zero(t - 1, w) == at_zero(t, w);
  PBT_CHECK(!fewer_suffice, "threshold-1 shares determine the secret");
  for (size_t w = 1; w < words && n >= 3; ++w) {
    bool constant = true;
    for (int i = 1; i < n; ++i) {
      constant = constant && (word(i, w) + P - word(i, 0)) % P ==
                                 (word(0, w) + P - word(0, 0)) % P;
    }
    PBT_CHECK(!constant, "words " << w << " and 0 are masked identically");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "S05",
      "random secrets (edge patterns), n, threshold and subsets; non-trivial "
      "when a secret was reconstructed from a proper or >2 share set",
      {{"sharing", Sharing, 350000, 6000000},
       {"keys", KeyShares, 100000, 2000000},
       {"polynomial", Interpolates, 80000, 1500000}});
}
