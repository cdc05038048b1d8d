// C06: collection IDs identify names, in every table and under every interleaving
#include "mc.h"
#include "vf.h"
#include "podio/CollectionIDTable.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>

using podio::CollectionIDTable;

namespace {
// the hash that makes the IDs (MurmurHash3, 32 bit), written independently
uint32_t rot(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
uint32_t hashOf(const std::string& s) {
  uint32_t h = 0;
  size_t i = 0;
  auto at = [&](size_t k) { return static_cast<uint32_t>(static_cast<unsigned char>(s[k])); };
  auto mix = [](uint32_t k) {
    k *= 3432918353u;
    k = rot(k, 15);
    return k * 461845907u;
  };
  for (; i + 4 <= s.size(); i += 4) {
    h ^= mix(at(i) | at(i + 1) << 8 | at(i + 2) << 16 | at(i + 3) << 24);
    h = rot(h, 13) * 5 + 3864292196u;
  }
  uint32_t k = 0;
  for (size_t j = s.size(); j > i; --j) {
    k = k << 8 | at(j - 1);
  }
  if (i < s.size()) {
    h ^= mix(k);
  }
  h ^= static_cast<uint32_t>(s.size());
  h = (h ^ (h >> 16)) * 2246822507u;
  h = (h ^ (h >> 13)) * 3266489909u;
  return h ^ (h >> 16);
}

const std::vector<std::string>& alphabet() {
  static const std::vector<std::string> v{"a", "b", "", std::string("a\0b", 3), "a_rather_long_collection_name_that_is_on_the_heap", "A"};
  return v;
}

struct Model {
  std::vector<std::string> names; // in the order of addition
  bool has(const std::string& n) const { return std::find(names.begin(), names.end(), n) != names.end(); }
};

void verify(const CollectionIDTable& t, const Model& m) {
  VF_EQ(t.empty(), m.names.empty(), "empty");
  VF_EQ(t.names().size(), m.names.size(), "names");
  VF_EQ(t.ids().size(), m.names.size(), "ids");
  for (size_t i = 0; i < m.names.size(); ++i) {
    VF_ASSERT(t.present(t.names()[i]), "names");
    VF_EQ(t.ids()[i], hashOf(t.names()[i]), "ids-and-names-disagree");
    VF_ASSERT(m.has(t.names()[i]), "names");
  }
  for (const auto& n : alphabet()) {
    const uint32_t id = hashOf(n);
    const auto gotId = t.collectionID(n);
    const auto gotName = t.name(id);
    VF_EQ(gotId.has_value(), m.has(n), "id-of-name");
    VF_EQ(gotName.has_value(), m.has(n), "name-of-id");
    VF_EQ(t.present(n), m.has(n), "present-name");
    VF_EQ(t.present(id), m.has(n), "present-id");
    if (m.has(n)) {
      VF_EQ(*gotId, id, "id-of-name");
      VF_EQ(*gotName, n, "name-of-id");
    }
  }
  for (uint32_t id : {1u, 0xffffffffu, 12345u}) {
    VF_ASSERT(!t.name(id).has_value(), "unknown-id");
    VF_ASSERT(!t.present(id), "unknown-id");
  }
}
} // namespace

// all sequences of operations on two tables
VF_SCENARIO(tables, 4, 6) {
  std::unique_ptr<CollectionIDTable> t[2] = {std::make_unique<CollectionIDTable>(), std::make_unique<CollectionIDTable>()};
  Model m[2];
  const int nNames = static_cast<int>(alphabet().size());
  for (int i = 0;; ++i) {
    const int which = vf::choose(2), other = 1 - which;
    const int op = vf::choose(nNames + 4);
    if (op < nNames) {
      const auto& n = alphabet()[op];
      VF_EQ(t[which]->add(n), hashOf(n), "id-of-new-name");
      if (!m[which].has(n)) {
        m[which].names.push_back(n);
      }
    } else if (op == nNames) {
      *t[which] = CollectionIDTable(t[other]->ids(), t[other]->names());
      m[which] = m[other];
    } else if (op == nNames + 1) {
      auto ids = t[other]->ids();
      auto names = t[other]->names();
      t[which] = std::make_unique<CollectionIDTable>(std::move(ids), std::move(names));
      m[which] = m[other];
    } else if (op == nNames + 2) {
      CollectionIDTable tmp(std::move(*t[which]));
      t[which] = std::make_unique<CollectionIDTable>();
      *t[which] = std::move(tmp);
    } else {
      t[which] = std::make_unique<CollectionIDTable>();
      m[which] = Model{};
    }
    vf::step();
    verify(*t[0], m[0]);
    verify(*t[1], m[1]);
    if (vf::last(i)) {
      break;
    }
  }
}

// names of every length with every byte value
VF_SCENARIO(names_of_all_kinds, 300, 700) {
  const int len = vf::choose(vf::depth() + 1);
  const int fill = vf::choose(4);
  CollectionIDTable t, u;
  std::map<uint32_t, std::string> seen;
  std::vector<std::string> names;
  auto use = [&](const std::string& n) {
    if (seen.contains(hashOf(n))) {
      return; // the same name, or one of the few collisions of the hash
    }
    seen[hashOf(n)] = n;
    names.push_back(n);
    VF_EQ(t.add(n), hashOf(n), "id-of-new-name");
    vf::step();
  };
  const char base[4] = {'x', '\0', '\xff', ' '};
  const std::string s(len, base[fill]);
  use(s);
  for (int pos : {0, 1, len / 2, len - 2, len - 1}) {
    if (pos < 0 || pos >= len) {
      continue;
    }
    for (int b = 0; b < 256; b += vf::thorough() ? 1 : 5) {
      std::string n = s;
      n[pos] = static_cast<char>(b);
      use(n);
    }
  }
  for (auto& n : names) {
    VF_EQ(t.collectionID(n).value_or(0), hashOf(n), "id-of-name");
    VF_EQ(t.name(hashOf(n)).value_or("?"), n, "name-of-id");
  }
  // in another order
  for (size_t i = names.size(); i > 0; --i) {
    VF_EQ(u.add(names[i - 1]), hashOf(names[i - 1]), "id-depends-on-history");
  }
  CollectionIDTable v(t.ids(), t.names());
  for (auto& n : names) {
    VF_EQ(v.collectionID(n).value_or(0), u.collectionID(n).value_or(1), "rebuilt-table-differs");
    VF_EQ(v.add(n), hashOf(n), "rebuilt-table-differs");
  }
  VF_EQ(v.ids().size(), names.size(), "rebuilt-table-differs");
}

// ------------------------------------------------------------ threads
namespace {
enum Op { AddA, AddB, AddLong, AddKnown, IdA, IdKnown, NameA, NameKnown, HasA, HasIdA, NOps };
const char* const opName[] = {"add(a)", "add(b)", "add(long)", "add(known)", "collectionID(a)", "collectionID(known)", "name(a)", "name(known)", "present(a)", "present(id of a)"};

struct World {
  CollectionIDTable t;
  std::vector<std::string> res;
  World(int size, size_t n) : res(n) {
    t.add("known");
    for (int i = 1; i < size; ++i) {
      t.add("other" + std::to_string(i));
    }
  }
  void op(int who, int o) {
    const std::string longName = alphabet()[4];
    auto id = [](std::optional<uint32_t> v) { return v ? std::to_string(*v) : std::string("none"); };
    auto& r = res[who];
    switch (o) {
    case AddA:
      r += std::to_string(t.add("a"));
      break;
    case AddB:
      r += std::to_string(t.add("b"));
      break;
    case AddLong:
      r += std::to_string(t.add(longName));
      break;
    case AddKnown:
      r += std::to_string(t.add("known"));
      break;
    case IdA:
      r += id(t.collectionID("a"));
      break;
    case IdKnown:
      r += id(t.collectionID("known"));
      break;
    case NameA:
      r += t.name(hashOf("a")).value_or("none");
      break;
    case NameKnown:
      r += t.name(hashOf("known")).value_or("none");
      break;
    case HasA:
      r += t.present("a") ? "yes" : "no";
      break;
    case HasIdA:
      r += t.present(hashOf("a")) ? "yes" : "no";
      break;
    }
    r += "|";
  }
  std::string outcome() {
    std::string r;
    for (auto& s : res) {
      r += s + "\n";
    }
    std::vector<std::string> l;
    for (size_t i = 0; i < t.names().size(); ++i) {
      l.push_back(t.names()[i] + ":" + std::to_string(t.ids().at(i)) + " ");
    }
    VF_EQ(t.names().size(), t.ids().size(), "ids-and-names-disagree");
    std::sort(l.begin(), l.end());
    for (auto& s : l) {
      r += s;
    }
    return r;
  }
};

using Program = std::vector<std::vector<int>>;
void orders(const Program& p, int size, std::vector<size_t>& pos, std::vector<int>& order, std::set<std::string>& out) {
  bool done = true;
  for (size_t t = 0; t < p.size(); ++t) {
    if (pos[t] < p[t].size()) {
      done = false;
      pos[t]++;
      order.push_back(static_cast<int>(t));
      orders(p, size, pos, order, out);
      order.pop_back();
      pos[t]--;
    }
  }
  if (done) {
    World w(size, p.size());
    std::vector<size_t> at(p.size());
    for (int t : order) {
      w.op(t, p[t][at[t]++]);
    }
    out.insert(w.outcome());
  }
}

void runProgram(const Program& p, int size, int preemptions) {
  static Program last;
  static int lastSize = -1;
  static std::set<std::string> expect;
  if (last != p || lastSize != size) {
    vf::NotCounted nc;
    last = p;
    lastSize = size;
    expect.clear();
    std::vector<size_t> pos(p.size());
    std::vector<int> order;
    orders(p, size, pos, order, expect);
  }
  if (vf::tracing()) {
    for (size_t t = 0; t < p.size(); ++t) {
      for (int o : p[t]) {
        vf::trace("thread %zu: %s", t, opName[o]);
      }
    }
  }
  World w(size, p.size());
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < p.size(); ++t) {
    bodies.push_back([&, t] {
      for (int o : p[t]) {
        w.op(static_cast<int>(t), o);
      }
    });
  }
  mc::run(bodies, preemptions);
  const auto out = w.outcome();
  if (!expect.contains(out)) {
    vf::failf("not-sequential", "no sequential order of the calls gives\n%s\none gives\n%s", out.c_str(), expect.begin()->c_str());
  }
  vf::state(out);
}
} // namespace

VF_SCENARIO_OPT(two_against_two, 3, 5, 4, true) {
  const int a = vf::choose(NOps), b = vf::choose(NOps), c = vf::choose(NOps), d = vf::choose(NOps);
  if (c < a) {
    vf::prune();
  }
  runProgram({{a, b}, {c, d}}, vf::choose(2) + 3, vf::depth());
}
VF_SCENARIO_OPT(three_threads, 3, 6, 3, true) {
  const int a = vf::choose(NOps), b = vf::choose(NOps), c = vf::choose(NOps);
  if (b < a || c < b) {
    vf::prune();
  }
  runProgram({{a}, {b}, {c}}, vf::choose(4) + 1, vf::depth());
}
