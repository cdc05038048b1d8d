// C02: several threads use one Frame. Every interleaving (up to a preemption
// bound) has to give results that some sequential order of the calls gives.
#include "mc.h"
#include "store.h"

using namespace vfm_;

namespace {
const std::vector<std::string> names{"A", "B", "H", "S", "L", "U"};

std::shared_ptr<const Stored> makeStored() {
  podio::Frame f;
  HitCollection hits;
  for (int i = 0; i < 2; ++i) {
    auto h = hits.create();
    h.cellID(10 + i);
    h.energy(i + 0.5);
  }
  ClusterCollection a, b;
  auto a0 = a.create(), a1 = a.create();
  auto b0 = b.create();
  a0.energy(1);
  a1.energy(2);
  b0.energy(3);
  a0.addhits(hits[1]);
  a0.addhits(hits[0]);
  a0.addsubs(b0);
  a1.parent(b0);
  a1.addcounts(5);
  b0.seed(hits[0]);
  b0.addsubs(a1);
  b0.addsubs(a0);
  b0.addpoints(vf::Vec3{1, 2, 3});
  HitCollection sub;
  sub.setSubsetCollection();
  sub.push_back(hits[1]);
  HCLinkColl links;
  auto l = links.create();
  l.setFrom(hits[0]);
  l.setTo(b0);
  l.setWeight(0.25f);
  podio::UserDataCollection<int32_t> u;
  u.push_back(7);
  f.put(std::move(hits), "H");
  f.put(std::move(a), "A");
  f.put(std::move(b), "B");
  f.put(std::move(sub), "S");
  f.put(std::move(links), "L");
  f.put(std::move(u), "U");
  return storeFrame(f, names);
}
const std::shared_ptr<const Stored>& stored() {
  static const auto s = makeStored();
  return s;
}

enum Op { GetA, GetB, GetH, GetS, GetL, GetU, BadType, GetX, PutX, PutY, PutA, List, Name, Table, NOps };
const char* const opName[] = {"get(A)", "get(B)", "get(H)", "get(S)", "get(L)", "get(U)", "get<HitCollection>(A)", "get(X)", "put(X)", "put(Y)", "put(A)", "list", "getName", "idTable"};

uint32_t idOf(const std::string& name) {
  static std::map<std::string, uint32_t> m = [] {
    std::map<std::string, uint32_t> r;
    podio::CollectionIDTable t;
    for (auto n : {"A", "B", "H", "S", "L", "U", "X", "Y"}) {
      r[n] = t.add(n);
    }
    return r;
  }();
  return m.at(name);
}

struct Thread {
  std::string results;
  std::vector<std::pair<std::string, const podio::CollectionBase*>> got;
};

std::string sorted(std::vector<std::string> v) {
  std::sort(v.begin(), v.end());
  std::string r;
  for (auto& s : v) {
    r += s + " ";
  }
  return r;
}

void doOp(podio::Frame& f, int op, int who, Thread& t) {
  auto got = [&](const char* name, const podio::CollectionBase* c) {
    t.results += describe(c);
    if (c) {
      t.results += str(podio::ObjectID{0, c->getID()});
      t.got.emplace_back(name, c);
    }
  };
  switch (op) {
  case GetA:
    got("A", &f.get<ClusterCollection>("A"));
    break;
  case GetB:
    got("B", &f.get<ClusterCollection>("B"));
    break;
  case GetH:
    got("H", &f.get<HitCollection>("H"));
    break;
  case GetS:
    got("S", &f.get<HitCollection>("S"));
    break;
  case GetL:
    got("L", &f.get<HCLinkColl>("L"));
    break;
  case GetU:
    got("U", f.get("U"));
    break;
  case BadType:
    try {
      f.get<HitCollection>("A");
      t.results += "got";
    } catch (const std::runtime_error&) {
      t.results += "refused";
    }
    break;
  case GetX:
    got("X", f.get("X"));
    break;
  case PutX:
  case PutA: {
    HitCollection c;
    c.create().energy(100 + who);
    const char* name = op == PutX ? "X" : "A";
    try {
      got(name, &f.put(std::move(c), name));
    } catch (const std::invalid_argument&) {
      t.results += "refused";
    }
    break;
  }
  case PutY: {
    auto c = std::make_unique<podio::UserDataCollection<double>>();
    c->push_back(who);
    try {
      f.put(std::move(c), "Y");
      t.results += "ok";
    } catch (const std::invalid_argument&) {
      t.results += "refused";
    }
    break;
  }
  case List:
    t.results += sorted(f.getAvailableCollections());
    break;
  case Name:
    for (const char* n : {"X", "A"}) {
      const auto r = f.getName(idOf(n));
      t.results += r ? *r + " " : std::string("- ");
    }
    break;
  case Table: {
    const auto tab = f.getCollectionIDTableForWrite();
    VF_EQ(tab.names().size(), tab.ids().size(), "id-table-torn");
    std::vector<std::string> all;
    for (size_t i = 0; i < tab.names().size(); ++i) {
      VF_EQ(tab.ids()[i], idOf(tab.names()[i]), "id-table-torn");
      all.push_back(tab.names()[i]);
    }
    t.results += sorted(all);
    break;
  }
  }
  t.results += "|";
}

using Program = std::vector<std::vector<int>>; // ops per thread, [0] are done before

std::string outcome(podio::Frame& f, std::vector<Thread>& ts) {
  std::string r;
  for (auto& t : ts) {
    r += t.results + "\n";
    for (auto& [name, c] : t.got) {
      const auto* now = f.get(name);
      if (now != c) {
        vf::failf("not-the-same-collection", "get(%s) gave a thread another collection than later requests", name.c_str());
      }
      if (f.getName(*c) != name) {
        vf::failf("name-of-collection", "getName of the collection %s is wrong", name.c_str());
      }
    }
  }
  const auto avail = f.getAvailableCollections();
  r += sorted(avail) + "\n";
  for (const char* n : {"A", "B", "H", "S", "L", "U", "X", "Y"}) {
    r += describe(f.get(n));
  }
  return r;
}

void merges(const Program& p, std::vector<size_t>& pos, std::vector<int>& order, std::set<std::string>& res) {
  bool done = true;
  for (size_t t = 1; t < p.size(); ++t) {
    if (pos[t] < p[t].size()) {
      done = false;
      pos[t]++;
      order.push_back(t);
      merges(p, pos, order, res);
      order.pop_back();
      pos[t]--;
    }
  }
  if (done) {
    auto f = makeFrame(stored());
    std::vector<Thread> ts(p.size());
    for (int op : p[0]) {
      doOp(f, op, 0, ts[0]);
    }
    std::vector<size_t> at(p.size());
    for (int t : order) {
      doOp(f, p[t][at[t]++], t, ts[t]);
    }
    res.insert(outcome(f, ts));
  }
}

const std::set<std::string>& sequential(const Program& p) {
  static Program last;
  static std::set<std::string> res;
  if (last != p) {
    vf::NotCounted nc;
    last = p;
    res.clear();
    std::vector<size_t> pos(p.size());
    std::vector<int> order;
    merges(p, pos, order, res);
  }
  return res;
}

void runProgram(const Program& p, int preemptions) {
  const auto& expect = sequential(p);
  if (vf::tracing()) {
    for (size_t t = 0; t < p.size(); ++t) {
      std::string s;
      for (int op : p[t]) {
        s += std::string(" ") + opName[op];
      }
      vf::trace("%s %zu:%s", t ? "thread" : "before", t ? t - 1 : 0, s.c_str());
    }
  }
  auto f = makeFrame(stored());
  std::vector<Thread> ts(p.size());
  for (int op : p[0]) {
    doOp(f, op, 0, ts[0]);
  }
  std::vector<std::function<void()>> bodies;
  for (size_t t = 1; t < p.size(); ++t) {
    bodies.push_back([&, t] {
      for (int op : p[t]) {
        doOp(f, op, static_cast<int>(t), ts[t]);
      }
    });
  }
  mc::run(bodies, preemptions);
  const auto out = outcome(f, ts);
  if (!expect.contains(out)) {
    std::string calls;
    for (size_t t = 1; t < p.size(); ++t) {
      calls += t > 1 ? " || " : "";
      for (int op : p[t]) {
        calls += std::string(opName[op]) + " ";
      }
    }
    vf::failf("not-sequential", "threads %s: no sequential order of the calls gives the results\n%s\na sequential order gives\n%s", calls.c_str(),
              out.substr(0, 450).c_str(), expect.begin()->substr(0, 450).c_str());
  }
  vf::state(out);
}

std::vector<int> before() {
  switch (vf::choose(2)) {
  case 1:
    return {GetH};
  default:
    return {};
  }
}
} // namespace

// two threads with one call each
VF_SCENARIO_OPT(two_calls, 3, 5, 3, true) {
  const int a = vf::choose(NOps), b = vf::choose(NOps);
  if (b < a) {
    vf::prune();
  }
  const auto pre = before();
  runProgram({pre, {a}, {b}}, vf::depth());
}
// two against one
VF_SCENARIO_OPT(two_against_one, 2, 3, 3, true) {
  const int a = vf::choose(NOps), b = vf::choose(NOps), c = vf::choose(NOps);
  runProgram({{}, {a, b}, {c}}, vf::depth());
}
// three threads with one call each
VF_SCENARIO_OPT(three_threads, 1, 2, 3, true) {
  const int a = vf::choose(NOps), b = vf::choose(NOps), c = vf::choose(NOps);
  if (b < a || c < b) {
    vf::prune();
  }
  runProgram({{}, {a}, {b}, {c}}, vf::depth());
}
// two against two; thorough only
VF_SCENARIO_OPT(two_against_two, 0, 2, 4, true) {
  if (!vf::thorough()) {
    return;
  }
  const int a = vf::choose(NOps), b = vf::choose(NOps), c = vf::choose(NOps), d = vf::choose(NOps);
  if (c < a) {
    vf::prune();
  }
  runProgram({{}, {a, b}, {c, d}}, vf::depth());
}
