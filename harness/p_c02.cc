// LIBS: fcp_client
// C02: temporary files are unique, private to the instance and cleaned up.
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <set>
#include <sstream>
#include <thread>

#include "client_fakes.h"
#include "fcp/client/cache/temp_files.h"
#include "pbt/pbt.h"

namespace {
namespace fs = std::filesystem;
using fcp::client::cache::TempFiles;

std::string Slurp(const fs::path& p) {
  std::ifstream in(p, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

// Everything below a directory, with type, mode and content.
std::map<std::string, std::string> Snapshot(const fs::path& top, const fs::path& except) {
  std::map<std::string, std::string> m;
  for (auto it = fs::recursive_directory_iterator(top); it != fs::recursive_directory_iterator();
       ++it) {
    if (it->path() == except) {
      it.disable_recursion_pending();
      continue;
    }
    std::string d;
    if (it->is_symlink()) {
      d = "link " + fs::read_symlink(it->path()).string();
    } else if (it->is_directory()) {
      d = "dir";
    } else {
      struct stat st;
      stat(it->path().c_str(), &st);
      d = "file " + std::to_string(st.st_mode) + " " + Slurp(it->path());
    }
    m[it->path().string()] = d;
  }
  return m;
}

std::string Part(pbt::Src& s, bool suffix) {
  switch (s.weighted({4, 1, 1, 1})) {
    case 0:
      return suffix ? s.pick(std::vector<std::string>{"", ".ckp", ".pb", "_x"})
                    : s.pick(std::vector<std::string>{"", "init", "output", "a"});
    case 1:
      return s.str(8, "abc._- 012");
    case 2:
      return std::to_string(s.range(0, 99));
    default:
      return std::string(s.range(0, 100), 'n');
  }
}

void Histories(pbt::Src& s, pbt::Case& c) {
  std::string top = c.scratch() + "/top", dir = top + "/cache";
  if (s.chance(3, 4)) fs::create_directories(dir);
  fs::path own = dir + "/fcp/tmp";
  bool older = s.flip();
  if (older) fs::create_directories(own);
  fs::create_directories(top + "/elsewhere/deep");
  std::ofstream(top + "/elsewhere/deep/f") << "keep";
  std::ofstream(top + "/beside") << "keep";
  if (fs::exists(dir)) std::ofstream(dir + "/mine") << "keep";
  if (older) {
    std::ofstream(dir + "/fcp/tmpother") << "keep";
    fs::create_directories(dir + "/fcp/cache");
    std::ofstream(dir + "/fcp/cache/r") << "keep";
  }
  fakes::Log log;
  std::vector<std::unique_ptr<TempFiles>> inst;
  std::set<std::string> live;
  std::map<std::string, std::string> content;
  auto outside = Snapshot(top, own);
  int made = 0, wiped = 0, collisions = 0;
  auto check = [&](const char* when) {
    auto now = Snapshot(top, own);
    for (auto& [p, d] : outside)
      PBT_CHECK(now.count(p) && now[p] == d, when << ": " << p << " changed or is gone");
    for (auto& [p, d] : now)
      PBT_CHECK(outside.count(p) || d == "dir", when << ": " << p << " appeared");
    std::set<std::string> in;
    if (fs::exists(own))
      for (auto& e : fs::directory_iterator(own)) in.insert(e.path().string());
    PBT_EQ(in.size(), live.size(), "number of files in the temporary directory " << when);
    for (auto& f : live) {
      PBT_CHECK(in.count(f), when << ": " << f << " is missing");
      PBT_EQ(Slurp(f), content[f], "content of " << f << " " << when);
    }
  };
  int n = s.range(2, 14);
  unsigned seed = 1;
  for (int i = 0; i < n; ++i) {
    int op = inst.empty() ? 0 : s.weighted({1, 6, 2, 1, 1});
    switch (op) {
      case 0: {
        if (fs::exists(own) && s.flip()) {
          // Leftovers of a killed run, including links to other places.
          std::ofstream(own.string() + "/left" + std::to_string(i)) << "x";
          if (s.flip()) fs::create_directory(own.string() + "/emptydir" + std::to_string(i));
          if (s.flip())
            fs::create_symlink(top + "/elsewhere", own.string() + "/ln" + std::to_string(i));
          if (s.flip())
            fs::create_symlink(top + "/beside", own.string() + "/lf" + std::to_string(i));
          if (s.flip())
            fs::create_symlink(top + "/nowhere", own.string() + "/ld" + std::to_string(i));
          c.log << " leftovers";
        }
        c.log << " new";
        auto r = TempFiles::Create(dir, &log);
        PBT_CHECK(r.ok(), "cannot create: " << r.status());
        inst.push_back(std::move(*r));
        wiped += !live.empty();
        live.clear();
        check("after creating an instance");
        break;
      }
      case 1: {
        auto& t = inst[s.urange(0, inst.size() - 1)];
        std::string pre = Part(s, false), suf = Part(s, true);
        if (s.chance(1, 3)) {
          srand(seed);  // makes the next names repeat earlier ones
          ++collisions;
        } else if (s.chance(1, 3)) {
          srand(seed = s.range(1, 1000));
        }
        c.log << " file(" << pre << "," << suf << ")";
        auto r = t->CreateTempFile(pre, suf);
        PBT_CHECK(r.ok(), "cannot create a file: " << r.status());
        fs::path p(*r);
        PBT_CHECK(!live.count(*r), "the same file was handed out twice: " << *r);
        PBT_CHECK(fs::is_regular_file(fs::symlink_status(p)), *r << " is not a regular file");
        PBT_EQ(fs::file_size(p), 0u, "size of a new file");
        PBT_EQ(p.parent_path().string(), own.string(), "directory of the file");
        std::string b = p.filename().string();
        PBT_CHECK(b.size() >= pre.size() + suf.size() && b.compare(0, pre.size(), pre) == 0 &&
                      b.compare(b.size() - suf.size(), suf.size(), suf) == 0,
                  "name " << b << " for prefix " << pre << " and suffix " << suf);
        content[*r] = "data" + std::to_string(i);
        std::ofstream(p) << content[*r];
        live.insert(*r);
        ++made;
        check("after creating a file");
        break;
      }
      case 2: {
        size_t k = s.urange(0, inst.size() - 1);
        c.log << " drop";
        if (fs::exists(own) && s.chance(1, 4)) {
          fs::create_symlink(top + "/elsewhere", own.string() + "/ln" + std::to_string(i));
          c.log << "+link";
        }
        inst.erase(inst.begin() + k);
        wiped += !live.empty();
        live.clear();
        check("after destroying an instance");
        break;
      }
      case 3: {
        // No file descriptors left: an error, not an endless loop or a file
        // that does not exist.
        struct rlimit old, none;
        getrlimit(RLIMIT_NOFILE, &old);
        none = old;
        none.rlim_cur = 0;
        setrlimit(RLIMIT_NOFILE, &none);
        auto r = inst[0]->CreateTempFile("p", "s");
        setrlimit(RLIMIT_NOFILE, &old);
        PBT_CHECK(!r.ok(), "a file was reported although none could be opened");
        c.log << " nofds";
        check("after a failed creation");
        break;
      }
      default: {
        if (live.empty()) break;
        // The owner removes one of its files itself.
        auto it = live.begin();
        std::advance(it, s.urange(0, live.size() - 1));
        fs::remove(*it);
        live.erase(it);
        c.log << " unlink";
      }
    }
  }
  inst.clear();
  live.clear();
  check("at the end");
  c.nontrivial(made >= 2 && wiped >= 1);
  if (collisions) c.label("repeated names forced");
}

void Threads(pbt::Src& s, pbt::Case& c) {
  std::string dir = c.scratch() + "/cache";
  fakes::Log log;
  auto r = TempFiles::Create(dir, &log);
  PBT_CHECK(r.ok(), "create");
  int threads = s.range(2, 4), each = s.range(2, 30);
  std::vector<std::vector<std::string>> got(threads);
  std::vector<std::thread> ts;
  std::atomic<int> bad{0};
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      for (int i = 0; i < each; ++i) {
        if (i % 5 == 0) srand(7);
        auto f = (*r)->CreateTempFile("x", "");
        if (f.ok()) got[t].push_back(*f);
        else ++bad;
      }
    });
  for (auto& t : ts) t.join();
  PBT_EQ(bad.load(), 0, "failed creations");
  std::set<std::string> all;
  for (auto& g : got)
    for (auto& f : g) PBT_CHECK(all.insert(f).second, "two threads got " << f);
  for (auto& f : all) PBT_CHECK(fs::exists(f), f << " is missing");
  r->reset();
  for (auto& f : all) PBT_CHECK(!fs::exists(f), f << " was left behind");
  c.nontrivial(true);
}

void BadPlaces(pbt::Src& s, pbt::Case& c) {
  fakes::Log log;
  std::string top = c.scratch();
  std::ofstream(top + "/plain") << "keep";
  std::string where = s.pick(std::vector<std::string>{
      "", "relative", "./x", top + "/plain", top + "/plain/below"});
  bool relative = where.empty() || where[0] != '/';
  c.log << "create in " << pbt::Quote(where.size() && where[0] == '/' ? where.substr(top.size()) : where);
  auto before = Snapshot(top, "");
  auto r = TempFiles::Create(where, &log);
  PBT_CHECK(!r.ok(), "instance created in an unusable place");
  if (relative)
    PBT_EQ(static_cast<int>(r.status().code()), static_cast<int>(absl::StatusCode::kInvalidArgument),
           "code for a relative path");
  PBT_CHECK(Snapshot(top, "") == before, "something changed");
  c.nontrivial(true);
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "C02",
      "histories of up to 14 steps over several instances on one directory with "
      "leftovers, links, forced name collisions and exhausted descriptors, plus "
      "concurrent creation; non-trivial when at least two files were made and a "
      "clean-up removed something",
      {{"histories", Histories, 6000, 200000},
       {"threads", Threads, 100, 3000},
       {"places", BadPlaces, 40, 200}});
}
