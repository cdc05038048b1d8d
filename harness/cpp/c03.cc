// C03: several threads fetch the contents of one Frame for writing. Every
// interleaving (up to a preemption bound) has to give all of them what a single
// writer gets.
#include "mc.h"
#include "store.h"

using namespace vfm_;

namespace {
const std::vector<std::string> names{"A", "B", "H", "S", "SL", "L", "U", "T", "V"};

podio::Frame makeMemory() {
  podio::Frame f;
  HitCollection hits;
  for (int i = 0; i < 2; ++i) {
    auto h = hits.create();
    h.cellID(10 + i);
    h.energy(i + 0.5);
  }
  ClusterCollection a, b;
  auto a0 = a.create(), a1 = a.create();
  auto b0 = b.create();
  a0.energy(1);
  a1.energy(2);
  b0.energy(3);
  a0.addhits(hits[1]);
  a0.addhits(hits[0]);
  a0.addsubs(b0);
  a0.addcounts(4);
  a0.addpoints(vf::Vec3{4, 5, 6});
  a1.addpoints(vf::Vec3{7, 8, 9});
  a1.parent(b0);
  a1.addcounts(5);
  a1.addcounts(6);
  b0.seed(hits[0]);
  b0.addsubs(a1);
  b0.addsubs(a0);
  b0.addpoints(vf::Vec3{1, 2, 3});
  TrackCollection tracks;
  auto t0 = tracks.create(), t1 = tracks.create();
  t0.chi2(4);
  t0.addthings(hits[1]);
  t0.addthings(a0);
  t1.best(b0);
  t1.addnext(t0);
  HitCollection sub;
  sub.setSubsetCollection();
  sub.push_back(hits[1]);
  HCLinkColl links;
  auto l = links.create();
  l.setFrom(hits[0]);
  l.setTo(b0);
  l.setWeight(0.25f);
  links.create().setTo(a1);
  HCLinkColl subl;
  subl.setSubsetCollection();
  subl.push_back(l);
  podio::UserDataCollection<int32_t> u;
  u.push_back(7);
  u.push_back(8);
  podio::UserDataCollection<double> v;
  v.push_back(0.5);
  f.put(std::move(hits), "H");
  f.put(std::move(a), "A");
  f.put(std::move(b), "B");
  f.put(std::move(sub), "S");
  f.put(std::move(links), "L");
  f.put(std::move(subl), "SL");
  f.put(std::move(u), "U");
  f.put(std::move(v), "V");
  f.put(std::move(tracks), "T");
  // a collection that cannot be written
  ClusterCollection bad;
  bad.create().addcounts(3);
  MutableHit untracked;
  auto bc = bad.create();
  bc.addhits(f.get<HitCollection>("H")[0]);
  bc.addhits(untracked);
  f.put(std::move(bad), "E");
  f.putParameter("p", 3);
  f.putParameter("q", std::vector<double>{1, 2});
  f.putParameter("s", std::string("text"));
  return f;
}
std::shared_ptr<const Stored> stored() {
  static const auto s = storeFrame(makeMemory(), names);
  return s;
}

std::string params(const podio::GenericParameters& p) {
  std::string r;
  auto one = [&]<class T>(T) {
    auto keys = p.getKeys<T>();
    std::sort(keys.begin(), keys.end());
    for (auto& k : keys) {
      r += k + "=";
      for (auto& v : p.get<std::vector<T>>(k).value_or(std::vector<T>{})) {
        if constexpr (std::is_same_v<T, std::string>) {
          r += v + ",";
        } else {
          r += num(v) + ",";
        }
      }
    }
    r += ";";
  };
  one(int{});
  one(double{});
  one(float{});
  one(std::string{});
  return r;
}

enum Op { WA, WB, WH, WS, WSL, WL, WU, WT, WE, Params, Table, ReadA, ReadT, ReadU, Two, NOps };
const char* const opName[] = {"write(A)", "write(B)", "write(H)", "write(S)", "write(SL)", "write(L)", "write(U)", "write(T)", "write(E)",
                              "parameters", "idTable", "read(A)", "read(T)", "read(U)", "write(A),write(U)"};
const char* const collOf[] = {"A", "B", "H", "S", "SL", "L", "U", "T", "E", "", "", "A", "T", "U", ""};

std::string writeColl(const podio::Frame& f, const char* name) {
  const podio::CollectionBase* c = nullptr;
  try {
    c = f.getCollectionForWrite(name);
  } catch (const std::runtime_error&) {
    return "refused";
  }
  return c ? show(storePrepared(*c, name)) : std::string("(null)");
}

std::string doOp(const podio::Frame& f, int op) {
  switch (op) {
  case Params: {
    const podio::GenericParameters p(f.getParameters());
    return params(p);
  }
  case Table: {
    const auto t = f.getCollectionIDTableForWrite();
    std::string r;
    for (size_t i = 0; i < t.names().size(); ++i) {
      r += t.names()[i] + ":" + num(t.ids().at(i)) + " ";
    }
    return r;
  }
  case ReadA:
  case ReadT:
  case ReadU:
    return describe(f.get(collOf[op]));
  case Two:
    return writeColl(f, "A") + writeColl(f, "U");
  default:
    return writeColl(f, collOf[op]);
  }
}

podio::Frame makeWorld(int kind) {
  return kind == 0 ? makeMemory() : makeFrame(stored());
}
// what a single caller gets
const std::string& expected(int kind, int op) {
  static std::map<std::pair<int, int>, std::string> m;
  auto it = m.find({kind, op});
  if (it == m.end()) {
    vf::NotCounted nc;
    auto f = makeWorld(kind);
    it = m.emplace(std::make_pair(kind, op), doOp(f, op)).first;
  }
  return it->second;
}

void runProgram(int kind, const std::vector<std::vector<int>>& p, int preemptions) {
  if (vf::tracing()) {
    vf::trace("%s frame", kind ? "stored" : "new");
    for (size_t t = 0; t < p.size(); ++t) {
      for (int op : p[t]) {
        vf::trace("thread %zu: %s", t, opName[op]);
      }
    }
  }
  auto f = makeWorld(kind);
  std::vector<std::vector<std::string>> res(p.size());
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < p.size(); ++t) {
    for (int op : p[t]) {
      expected(kind, op);
    }
    bodies.push_back([&, t] {
      for (int op : p[t]) {
        res[t].push_back(doOp(f, op));
      }
    });
  }
  mc::run(bodies, preemptions);
  auto compare = [&](const std::string& got, int op, const char* when) {
    if (got != expected(kind, op)) {
      vf::failf(op == Params || op == Table ? "other-contents" : op >= ReadA && op <= ReadU ? "reader-disturbed" : "not-what-one-writer-gets",
                "%s %s got\n%s\nbut a single caller gets\n%s", opName[op], when, got.substr(0, 500).c_str(),
                expected(kind, op).substr(0, 500).c_str());
    }
  };
  for (size_t t = 0; t < p.size(); ++t) {
    for (size_t i = 0; i < p[t].size(); ++i) {
      compare(res[t][i], p[t][i], "in a thread");
    }
  }
  // and once more afterwards
  for (auto& ops : p) {
    for (int op : ops) {
      compare(doOp(f, op), op, "afterwards");
    }
  }
  for (int op : {static_cast<int>(ReadA), static_cast<int>(ReadT)}) {
    compare(doOp(f, op), op, "afterwards");
  }
  std::string st = std::to_string(kind);
  for (auto& ops : p) {
    for (int op : ops) {
      st += std::to_string(op) + ",";
    }
    st += "|";
  }
  vf::state(st);
}
} // namespace

VF_SCENARIO_OPT(two_writers, 2, 4, 3, true) {
  const int a = vf::choose(NOps), b = vf::choose(NOps), kind = vf::choose(2);
  if (b < a) {
    vf::prune();
  }
  runProgram(kind, {{a}, {b}}, vf::depth());
}
VF_SCENARIO_OPT(three_writers, 1, 2, 4, true) {
  const int a = vf::choose(NOps), b = vf::choose(NOps), c = vf::choose(NOps), kind = vf::choose(2);
  if (b < a || c < b) {
    vf::prune();
  }
  runProgram(kind, {{a}, {b}, {c}}, vf::depth());
}
VF_SCENARIO_OPT(two_against_one, 1, 3, 4, true) {
  const int a = vf::choose(NOps), b = vf::choose(NOps), c = vf::choose(NOps), kind = vf::choose(2);
  runProgram(kind, {{a, b}, {c}}, vf::depth());
}
