// C29: file name patterns against an independent implementation of shell globbing
#include "vf.h"
#include "podio/utilities/Glob.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <set>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

namespace {
std::string g_root;
void touch(const std::string& p) {
  int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0644);
  if (fd >= 0) {
    close(fd);
  }
}
// a scratch tree per process; removed by the check
void tree() {
  if (!g_root.empty()) {
    return;
  }
  g_root = std::string(getenv("VF_SCRATCH")) + "/g" + std::to_string(getpid());
  mkdir(g_root.c_str(), 0755);
  for (auto* d : {"/d", "/d/e", "/da", "/bd"}) {
    mkdir((g_root + d).c_str(), 0755);
  }
  for (auto* f : {"/a", "/b", "/aa", "/ab", "/bc", "/c", "/.h", "/a-b", "/a*", "/a]", "/d/a", "/d/b", "/d/.x", "/d/e/a", "/bd/a", "/bd/ab"}) {
    touch(g_root + f);
  }
  setenv("HOME", g_root.c_str(), 1);
}
struct Cwd {
  int old;
  Cwd() : old(open(".", O_RDONLY)) {
    if (chdir(g_root.c_str())) {
      abort();
    }
  }
  ~Cwd() {
    if (fchdir(old)) {
      abort();
    }
    close(old);
  }
};

// ------------------------------------------------------------ reference
bool magic(const std::string& s) { return s.find_first_of("*?[") != std::string::npos; }
bool match(const char* p, const char* s, bool start) {
  if (!*p) {
    return !*s;
  }
  if (start && *s == '.' && *p != '.') {
    return false;
  }
  switch (*p) {
  case '*':
    for (const char* t = s;; ++t) {
      if (match(p + 1, t, false)) {
        return true;
      }
      if (!*t) {
        return false;
      }
    }
  case '?':
    return *s && match(p + 1, s + 1, false);
  case '[': {
    const char* q = p + 1;
    const bool neg = *q == '!';
    q += neg;
    const char* first = q;
    bool in = false;
    while (*q && (*q != ']' || q == first)) {
      if (q[1] == '-' && q[2] && q[2] != ']') {
        in |= *s >= q[0] && *s <= q[2];
        q += 3;
      } else {
        in |= *s == *q;
        q++;
      }
    }
    if (!*q) { // not closed: an ordinary character
      return *s == '[' && match(p + 1, s + 1, false);
    }
    return *s && in != neg && match(q + 1, s + 1, false);
  }
  default:
    return *s == *p && match(p + 1, s + 1, false);
  }
}
bool exists(const std::string& p) {
  struct stat st;
  return lstat(p.c_str(), &st) == 0;
}
bool isDir(const std::string& p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}
void walk(const std::string& prefix, const std::vector<std::string>& segs, size_t i, bool dirOnly, std::vector<std::string>& out) {
  if (i == segs.size()) {
    if (dirOnly ? isDir(prefix) : exists(prefix)) {
      out.push_back(dirOnly ? prefix + "/" : prefix);
    }
    return;
  }
  const std::string base = i == 0 && prefix.empty() ? "" : prefix + "/";
  if (!magic(segs[i])) {
    const std::string n = base + segs[i];
    if (i + 1 == segs.size() || isDir(n)) {
      walk(n, segs, i + 1, dirOnly, out);
    }
    return;
  }
  std::vector<std::string> names;
  if (DIR* d = opendir(base.empty() ? "." : base.c_str())) {
    while (auto* e = readdir(d)) {
      names.push_back(e->d_name);
    }
    closedir(d);
  }
  for (auto& n : names) {
    if (match(segs[i].c_str(), n.c_str(), true)) {
      const std::string full = base + n;
      if (i + 1 == segs.size() || isDir(full)) {
        walk(full, segs, i + 1, dirOnly, out);
      }
    }
  }
}
std::vector<std::string> alternatives(const std::string& p) {
  // only balanced braces are in the alphabet
  const size_t o = p.find('{');
  if (o == std::string::npos) {
    return {p};
  }
  std::vector<std::string> parts;
  int depth = 0;
  size_t start = o + 1, end = std::string::npos;
  for (size_t i = o; i < p.size(); ++i) {
    if (p[i] == '{') {
      depth++;
    } else if (p[i] == '}') {
      if (--depth == 0) {
        parts.push_back(p.substr(start, i - start));
        end = i;
        break;
      }
    } else if (p[i] == ',' && depth == 1) {
      parts.push_back(p.substr(start, i - start));
      start = i + 1;
    }
  }
  std::vector<std::string> res;
  for (auto& part : parts) {
    for (auto& a : alternatives(p.substr(0, o) + part + p.substr(end + 1))) {
      res.push_back(a);
    }
  }
  return res;
}
std::vector<std::string> oracle(const std::string& pattern) {
  const bool braces = pattern.find('{') != std::string::npos;
  if (!braces && !magic(pattern)) {
    return {pattern}; // as it stands
  }
  std::vector<std::string> res;
  for (auto a : alternatives(pattern)) {
    std::string prefix;
    if (a.rfind("~/", 0) == 0 || a == "~") {
      a = std::string(getenv("HOME")) + a.substr(1);
    }
    std::vector<std::string> segs;
    size_t i = 0;
    std::string root;
    if (!a.empty() && a[0] == '/') {
      root = "/";
      i = 1;
    }
    std::string cur;
    for (; i < a.size(); ++i) {
      if (a[i] == '/') {
        segs.push_back(cur);
        cur.clear();
      } else {
        cur += a[i];
      }
    }
    const bool dirOnly = cur.empty();
    if (!cur.empty()) {
      segs.push_back(cur);
    }
    std::vector<std::string> r;
    if (root == "/") {
      // fixed, existing first segments only
      segs[0] = "/" + segs[0];
      walk("", segs, 0, dirOnly, r);
    } else if (!segs.empty()) {
      walk("", segs, 0, dirOnly, r);
    }
    std::sort(r.begin(), r.end());
    res.insert(res.end(), r.begin(), r.end());
  }
  return res;
}
std::string join(const std::vector<std::string>& v) {
  std::string r = std::to_string(v.size()) + ":";
  for (auto& s : v) {
    r += " <" + s + ">";
  }
  return r;
}
void compare(const std::string& pattern) {
  if (pattern.back() == '/' && pattern.find_first_of("{*?[") != std::string::npos) {
    // the C library drops the separator after a last part without wildcard
    const auto p = pattern.substr(0, pattern.size() - 1);
    if (p.find('{') != std::string::npos || !magic(p.substr(p.rfind('/') + 1))) {
      return;
    }
  }
  vf::step();
  vf::state(pattern);
  vf::trace("pattern %s", pattern.c_str());
  auto want = oracle(pattern);
  std::vector<std::string> got;
  const bool threw = vf::throws<std::runtime_error>([&] { got = podio::utils::expand_glob(pattern); }, "wrong-exception");
  if (want.empty()) {
    VF_ASSERT(threw, "no-match-accepted");
  } else {
    if (threw) {
      vf::failf("match-refused", "%s refused, expected %s", pattern.c_str(), join(want).c_str());
    }
    if (!podio::utils::is_glob_pattern(pattern) && want[0].back() == '/' && !exists(want[0])) {
      want[0].pop_back(); // the C library may drop the separator at the end of a missing name
      if (got.size() == 1 && got[0].back() == '/') {
        got[0].pop_back();
      }
    }
    VF_EQ(join(got), join(want), "expansion-differs");
  }
  const bool m = pattern.find_first_of("*?[{") != std::string::npos;
  VF_EQ(podio::utils::is_glob_pattern(pattern), m, "is-pattern");
}
const char* TOKENS[] = {"a", "b", "d", "*", "?", "[ab]", "[!a]", "[a-c]", "/", "{a,b}", "{d/a,b}", "{b*,a,{a,zz}}", ".", "]"};
} // namespace

VF_SCENARIO_OPT(patterns, 5, 6, 3, false) {
  tree();
  Cwd cwd;
  std::string p;
  for (int i = 0; i < vf::depth(); ++i) {
    const int c = vf::choose(1 + static_cast<int>(sizeof(TOKENS) / sizeof(TOKENS[0])));
    if (c == 0) {
      break;
    }
    p += TOKENS[c - 1];
  }
  if (p.empty() || p[0] == '/' || p.find("//") != std::string::npos) {
    return;
  }
  compare(p);
}

// absolute and home paths
VF_SCENARIO_OPT(prefixed, 2, 3, 2, false) {
  tree();
  Cwd cwd;
  const bool home = vf::flip();
  std::string p = home ? "~/" : g_root + "/";
  for (int i = 0; i < vf::depth(); ++i) {
    const int c = vf::choose(1 + static_cast<int>(sizeof(TOKENS) / sizeof(TOKENS[0])));
    if (c == 0) {
      break;
    }
    p += TOKENS[c - 1];
  }
  if (p.find("//") != std::string::npos) {
    return;
  }
  if (home && p.find_first_of("*?[{") == std::string::npos) {
    // the home directory is expanded; what happens without a wildcard to a missing name is as it stands
    if (exists(g_root + p.substr(1))) {
      vf::step();
      const auto got = podio::utils::expand_glob(p);
      VF_EQ(join(got), join({g_root + p.substr(1)}), "expansion-differs");
    }
    return;
  }
  compare(p);
}
// unreadable or missing directories, and names that only look similar
VF_SCENARIO_OPT(missing, 1, 1, 1, false) {
  tree();
  Cwd cwd;
  const char* pats[] = {"nosuch/*", "nosuch*", "*/nosuch", "a/*", "nosuch", "with space", "nosuch/x", "{nosuch,nope}", "{nosuch,a}", "[z]", "?????", "d/*/*", "*/*/*", "*", ".*h", "[.]h"};
  compare(vf::pick(pats));
}
