// LIBS: fcp_dictionary
// D01: dictionary lookups against the list they were described with.
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "fcp/dictionary/dictionary.h"
#include "pbt/pbt.h"

namespace {

using fcp::dictionary::Dictionary;
using fcp::dictionary::DictionaryDescription;

void Lookup(pbt::Src& s, pbt::Case& c) {
  DictionaryDescription d;
  bool bad = false, maybe_bad = false;
  std::vector<std::string> tokens;
  std::set<std::string> seen;
  bool dups = false;
  int shape = s.weighted({20, 1, 1});
  int n = s.chance(1, 20) ? s.range(50, 400) : s.small(0, 12);
  if (shape == 0) {
    auto* idx = d.mutable_vocabulary()->mutable_index();
    for (int i = 0; i < n; ++i) {
      std::string t;
      int kind = s.weighted({6, 3, 1, 1});
      if (kind == 0) t = s.ident(3);
      if (kind == 1) t = s.str(4, "ab \n\xc3\xa9");
      if (kind == 2) t = std::string(1, '\0') + s.ident(2);
      if (kind == 3 && !tokens.empty()) t = tokens.back() + s.of<const char*>({" ", "a", ""});
      if (t.empty()) t = "t" + std::to_string(i);
      if (!seen.insert(t).second) {
        if (!s.chance(1, 8)) {
          t += "#" + std::to_string(i);
          seen.insert(t);
        } else {
          dups = true;
        }
      }
      tokens.push_back(t);
      idx->add_token(t);
    }
    if (s.chance(1, 15)) {
      int at = tokens.empty() ? 0 : s.draw(tokens.size());
      if (tokens.empty()) {
        idx->add_token("");
      } else {
        *idx->mutable_token(at) = "";
      }
      bad = true;
    }
  } else if (shape == 1) {
    d.mutable_vocabulary();
    bad = true;
  } else {
    bad = true;
  }

  int max_special = -1;
  int unk = -1;
  std::map<std::string, int> special;
  if (s.chance(2, 3)) {
    auto* sp = d.mutable_special_ids();
    auto value = [&]() -> int {
      if (s.chance(1, 25)) {
        maybe_bad = true;
        return -static_cast<int>(s.range(1, 5));
      }
      return s.small(0, 40);
    };
    if (s.flip()) {
      int v = value();
      sp->set_unk(v);
      if (v >= 0) unk = v;
      max_special = std::max(max_special, v);
    }
    if (s.flip()) {
      int v = value();
      sp->set_bos(v);
      max_special = std::max(max_special, v);
    }
    if (s.flip()) {
      int v = value();
      sp->set_eos(v);
      max_special = std::max(max_special, v);
    }
  }
  std::vector<int> block;
  if (s.flip()) {
    auto* b = d.mutable_output_blocklist_ids();
    int at = max_special;
    int k = s.small(0, 5);
    int damage = s.chance(1, 6) ? s.range(0, std::max(0, k - 1)) : -1;
    for (int i = 0; i < k; ++i) {
      int id = at + s.range(1, 4);
      if (i == damage) {
        id = i == 0 ? max_special - s.small(0, 3) : at - s.small(0, 2);
        bad = true;
      }
      at = std::max(at, id);
      block.push_back(id);
      b->add_id(id);
    }
  }
  c.log << d.ShortDebugString().substr(0, 600) << "\n";
  if (bad) c.label("malformed");
  if (dups) c.label("repeated values");
  if (maybe_bad) c.label("negative special id");

  auto made = Dictionary::Create(d);
  if (bad) {
    PBT_CHECK(!made.ok(), "malformed description accepted");
    PBT_CHECK(absl::IsInvalidArgument(made.status()),
              "unexpected error " << made.status());
    c.nontrivial();
    return;
  }
  if (!made.ok() && maybe_bad) return;
  PBT_CHECK(made.ok(), "well-formed description refused: " << made.status());
  const Dictionary& dict = **made;
  c.nontrivial(tokens.size() >= 2);
  int first = max_special + 1;
  if (!dups) PBT_EQ(dict.Size(), first + static_cast<int>(tokens.size()), "size");
  for (size_t i = 0; i < tokens.size(); ++i) {
    int id = dict.TokenToId(tokens[i]);
    if (!dups) PBT_EQ(id, first + static_cast<int>(i), "index of " << pbt::Quote(tokens[i]));
    PBT_EQ(dict.IdToToken(id), tokens[i], "value at its own index");
    PBT_EQ(dict.IdToToken(first + i), tokens[i], "value at index " << first + i);
    PBT_CHECK(!dict.IsSpecialId(id), "a listed value got a special index");
  }
  // Everything else is out of the vocabulary.
  int probes = s.range(3, 12);
  for (int i = 0; i < probes; ++i) {
    std::string t;
    int kind = s.weighted({2, 2, 2, 1, 1});
    if (kind == 0) t = s.ident(4);
    if (kind == 1 && !tokens.empty()) t = s.pick(tokens) + s.of<std::string>({"x", " ", std::string(1, '\0')});
    if (kind == 2 && !tokens.empty()) {
      t = s.pick(tokens);
      t = t.substr(0, t.size() - 1);
    }
    if (kind == 3) t = s.bytes(6);
    if (kind == 4) t = "";
    bool listed = std::find(tokens.begin(), tokens.end(), t) != tokens.end();
    if (!listed) {
      PBT_EQ(dict.TokenToId(t), unk, "index of the unlisted " << pbt::Quote(t));
    }
  }
  for (int id : {-1, -2, first - 1, first - 2, first + static_cast<int>(tokens.size()),
                 first + static_cast<int>(tokens.size()) + 1, 1 << 30}) {
    PBT_EQ(dict.IdToToken(id), std::string(), "value at the unused index " << id);
  }
  for (auto v : {dict.GetSpecialIds().unk(), dict.GetSpecialIds().bos(),
                 dict.GetSpecialIds().eos()}) {
    if (v >= 0) PBT_CHECK(dict.IsSpecialId(v), "special id " << v << " not special");
  }
  PBT_EQ(dict.GetSpecialIds().SerializeAsString(),
         d.special_ids().SerializeAsString(), "special ids");
  std::vector<int> want;
  for (int i = 0; i < first; ++i) want.push_back(i);
  want.insert(want.end(), block.begin(), block.end());
  PBT_CHECK(dict.GetSortedOutputBlocklistIds() == want, "blocked ids");
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "D01",
                   "a malformed description, or a vocabulary of two values or more",
                   {{"lookup", Lookup, 15000, 300000}});
}
