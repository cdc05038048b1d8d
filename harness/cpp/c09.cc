// C09: lazy reading is independent of the order of access
#include "store.h"
#include <algorithm>
#include <numeric>
using namespace vfm_;
namespace {
const std::vector<std::string> names{"h", "h2", "c", "c2", "t", "p", "s", "s2", "l", "ls", "u"};
// a frame in which (almost) everything refers to everything
podio::Frame original() {
  HitCollection h, h2, s2;
  ClusterCollection c, c2, s;
  TrackCollection t;
  PadCollection p;
  AHLinkColl l, ls;
  s.setSubsetCollection();
  s2.setSubsetCollection();
  ls.setSubsetCollection();
  for (int i = 0; i < 2; ++i) {
    auto x = h.create();
    x.energy(10 + i);
    x.cellID(100 + i);
    auto y = h2.create();
    y.energy(20 + i);
    c.create(30. + i, i).addcounts(300 + i);
    c2.create(40. + i, -i).addpoints(vf::Vec3{1. * i, 2, 3});
    p.create(50. + i, 5.f);
    auto k = t.create();
    k.energy(60 + i);
    k.chi2(0.5f * i);
  }
  for (int i = 0; i < 2; ++i) {
    c[i].addhits(h[1 - i]);
    c[i].addhits(h2[i]);
    c[i].addhits(h[i]);
    c[i].addsubs(c2[i]);
    c[i].addsubs(c[1 - i]);
    c[i].seed(h2[1 - i]);
    c[i].parent(c2[0]);
    c2[i].addhits(h2[0]);
    c2[i].addsubs(c[0]);
    c2[i].parent(c[i]);
    c2[i].seed(h[0]);
    t[i].addthings(h[i]);
    t[i].addthings(c2[1 - i]);
    t[i].addthings(p[0]);
    t[i].addthings(c[1]);
    t[i].addnext(t[1 - i]);
    i ? t[i].best(c[0]) : t[i].best(p[1]);
    auto k = l.create();
    k.setWeight(0.25f + i);
    i ? k.setFrom(c2[0]) : k.setFrom(h[1]);
    k.setTo(h2[i]);
  }
  s.push_back(c2[1]);
  s.push_back(c[0]);
  s2.push_back(h2[1]);
  s2.push_back(h[0]);
  s2.push_back(h2[0]);
  ls.push_back(l[1]);
  podio::UserDataCollection<double> u(std::vector<double>{1.5, -2.5});
  podio::Frame f;
  f.put(std::move(h), "h");
  f.put(std::move(h2), "h2");
  f.put(std::move(c), "c");
  f.put(std::move(c2), "c2");
  f.put(std::move(t), "t");
  f.put(std::move(p), "p");
  f.put(std::move(s), "s");
  f.put(std::move(s2), "s2");
  f.put(std::move(l), "l");
  f.put(std::move(ls), "ls");
  f.put(std::move(u), "u");
  f.putParameter("key", 42);
  f.putParameter("key", std::vector<std::string>{"a", ""});
  return f;
}
struct Fixed {
  std::shared_ptr<const Stored> st;
  std::map<std::string, uint32_t> id;
  podio::Frame f = original();
  Fixed() {
    st = storeFrame(f, names);
    for (auto& n : names) {
      id[n] = f.get(n)->getID();
    }
  }
};
// what is to be seen if some of the collections are not stored
std::map<std::string, std::string> expected(const Fixed& x, const std::set<std::string>& missing) {
  std::map<std::string, std::string> r;
  for (auto& m : missing) {
    hidden().insert(x.id.at(m));
  }
  for (auto& n : names) {
    r[n] = missing.contains(n) ? "(null)" : describe(x.f.get(n));
  }
  hidden().clear();
  return r;
}
struct Run {
  const Fixed& x;
  std::set<std::string> missing;
  std::map<std::string, std::string> want;
  std::shared_ptr<FDStats> stats = std::make_shared<FDStats>();
  podio::Frame g;
  std::map<std::string, const podio::CollectionBase*> addr;
  int extra{0};

  Run(const Fixed& y, std::set<std::string> m) :
      x(y), missing(m), want(expected(y, m)), g(makeFrame(y.st, std::vector<std::string>(m.begin(), m.end()), stats)) {
  }
  const podio::CollectionBase* get(const std::string& n, int how) {
    const podio::CollectionBase* p = nullptr;
    switch (how) {
    case 0:
      p = g.get(n);
      break;
    case 1:
      p = g.getCollectionForWrite(n);
      break;
    }
    if (missing.contains(n)) {
      VF_ASSERT(p == nullptr, "missing-found");
      return p;
    }
    if (!p) {
      vf::failf("stored-missing", "%s is not available", n.c_str());
    }
    auto [it, first] = addr.emplace(n, p);
    VF_ASSERT(it->second == p, "address");
    VF_EQ(p->getID(), x.id.at(n), "collection-id");
    vf::step();
    return p;
  }
  void check(const std::string& n) {
    const auto got = describe(get(n, 0));
    if (got != want.at(n)) {
      vf::failf("contents", "%s reads\n%.600s\nexpected\n%.600s", n.c_str(), got.c_str(), want.at(n).c_str());
    }
  }
  template <class T>
  void element(const T& o) {
    if (!o.isAvailable()) {
      return;
    }
    const auto id = o.id();
    for (auto& [n, i] : x.id) {
      if (i == id.collectionID) {
        const auto* c = dynamic_cast<const typename T::collection_type*>(g.get(n));
        VF_ASSERT(c && (*c)[id.index] == o, "object-identity");
        return;
      }
    }
    vf::failf("object-identity", "unknown ID %s", str(id).c_str());
  }
  void finish(bool backwards, bool writeFirst) {
    auto order = names;
    if (backwards) {
      std::reverse(order.begin(), order.end());
    }
    std::vector<std::string> present;
    for (auto& n : names) {
      if (!missing.contains(n)) {
        present.push_back(n);
      }
    }
    auto written = [&] {
      auto st = storeFrame(g, present);
      for (size_t i = 0; i < present.size(); ++i) {
        const auto k = std::find(names.begin(), names.end(), present[i]) - names.begin();
        const auto a = show(st->colls[i]), b = show(x.st->colls[k]);
        if (a != b) {
          vf::failf("stored-contents", "%.500s\nexpected\n%.500s", a.c_str(), b.c_str());
        }
        VF_EQ(st->colls[i].registry, x.st->colls[k].registry, "stored-registry");
      }
      for (auto& n : names) {
        VF_EQ(st->table.collectionID(n).value_or(0), x.id.at(n), "stored-table");
      }
      VF_EQ(st->params->get<int>("key").value_or(0), 42, "stored-parameters");
      VF_EQ(st->params->get<std::vector<std::string>>("key").value().size(), 2u, "stored-parameters");
    };
    if (writeFirst) {
      written();
    }
    for (auto& n : order) {
      check(n);
    }
    for (auto& n : present) {
      if (auto* c = dynamic_cast<const ClusterCollection*>(g.get(n))) {
        for (auto k : *c) {
          element(k);
          if (!k.isAvailable()) {
            continue;
          }
          for (auto o : k.hits()) {
            element(o);
          }
          for (auto o : k.subs()) {
            element(o);
          }
          element(k.seed());
          element(k.parent());
        }
      }
      if (auto* c = dynamic_cast<const HitCollection*>(g.get(n))) {
        for (auto k : *c) {
          element(k);
        }
      }
    }
    // a relation to what is missing must not make it available
    auto av = g.getAvailableCollections();
    std::sort(av.begin(), av.end());
    auto w = present;
    for (int i = 0; i < extra; ++i) {
      w.push_back("extra" + std::to_string(i));
    }
    std::sort(w.begin(), w.end());
    VF_ASSERT(av == w, "available");
    written();
    for (auto& [n, k] : stats->unpacked) {
      if (k > 1) {
        vf::failf("unpacked-twice", "%s was unpacked %d times", n.c_str(), k);
      }
    }
    for (auto& n : order) {
      check(n);
    }
  }
};
// the untouched original, once per process
const Fixed& fixed() {
  static const Fixed* f = new Fixed;
  return *f;
}
} // namespace
VF_SCENARIO_OPT(access_sequences, 3, 4, 2, false) {
  std::set<std::string> missing;
  static const std::vector<std::set<std::string>> sets{{}, {"h2"}, {"c2"}, {"c", "l"}};
  missing = vf::pickv(sets);
  Run r(fixed(), missing);
  for (int i = 0;; ++i) {
    const int op = vf::choose(static_cast<int>(names.size()) + 11);
    const int n = static_cast<int>(names.size());
    if (op < n) {
      vf::trace("get %s", names[op].c_str());
      r.check(names[op]);
    } else {
      switch (op - n) {
      case 0:
        vf::trace("c, c2 for writing");
        r.get("c", 1);
        r.get("c2", 1);
        break;
      case 1:
        vf::trace("t for writing");
        r.get("t", 1);
        break;
      case 2:
        vf::trace("s for writing");
        r.get("s", 1);
        break;
      case 3:
        vf::trace("l for writing twice");
        r.get("l", 1);
        r.get("l", 1);
        break;
      case 4: {
        vf::trace("list");
        auto av = r.g.getAvailableCollections();
        VF_EQ(av.size(), names.size() - missing.size() + r.extra, "available");
        break;
      }
      case 5: {
        vf::trace("put an unrelated collection");
        HitCollection h;
        h.create().energy(99);
        r.g.put(std::move(h), "extra" + std::to_string(r.extra++));
        break;
      }
      case 6: {
        vf::trace("put a collection related to stored ones");
        ClusterCollection c;
        auto k = c.create();
        if (!missing.contains("h2")) {
          const auto& h2 = r.g.get<HitCollection>("h2");
          k.addhits(h2[0]);
          k.seed(h2[1]);
        }
        if (!missing.contains("c")) {
          const auto& cc = r.g.get<ClusterCollection>("c");
          k.addsubs(cc[0]);
          k.parent(cc[1]);
        }
        const std::string nm = "extra" + std::to_string(r.extra++);
        r.g.put(std::move(c), nm);
        VF_ASSERT(r.g.getCollectionForWrite(nm) != nullptr, "extra-writing");
        break;
      }
      case 7: {
        vf::trace("put a subset of a stored collection");
        HitCollection s;
        s.setSubsetCollection();
        if (!missing.contains("h2")) {
          s.push_back(r.g.get<HitCollection>("h2")[1]);
        }
        r.g.put(std::move(s), "extra" + std::to_string(r.extra++));
        break;
      }
      case 8:
        vf::trace("unknown name");
        VF_ASSERT(r.g.get("nothing") == nullptr, "unknown-name");
        VF_THROWS(std::runtime_error, r.g.get<HitCollection>("c2"), "wrong-type");
        VF_THROWS(std::runtime_error, r.g.get<HitCollection>("nothing"), "unknown-name");
        break;
      case 9:
        vf::trace("move the frame");
        {
          podio::Frame tmp = std::move(r.g);
          r.g = std::move(tmp);
        }
        break;
      case 10:
        vf::trace("parameters and ID table");
        VF_EQ(r.g.getParameter<int>("key").value_or(0), 42, "parameters");
        VF_EQ(r.g.getCollectionIDTableForWrite().collectionID("c2").value_or(0), r.x.id.at("c2"), "id-table");
        VF_EQ(r.g.getName(r.x.id.at("t")).value_or(""), "t", "id-table");
        break;
      }
    }
    vf::step();
    if (vf::last(i)) {
      break;
    }
  }
  std::string code;
  for (auto& [n, p] : r.addr) {
    code += n;
  }
  for (auto& m : missing) {
    code += "-" + m;
  }
  vf::state(code + std::to_string(r.extra));
  const bool backwards = r.addr.size() % 2;
  r.finish(backwards, vf::flip());
}
// every order of first access to the connected collections
VF_SCENARIO_OPT(orders, 1, 2, 3, false) {
  std::vector<std::string> left{"h2", "c", "c2", "t", "s", "l"};
  static const std::vector<std::set<std::string>> sets{{}, {"h"}, {"c2"}, {"c"}, {"h2", "p"}};
  Run r(fixed(), sets[vf::choose(vf::thorough() ? 5 : 3)]);
  if (vf::thorough()) {
    left.push_back("ls");
  }
  std::string code;
  while (!left.empty()) {
    const int k = vf::choose(static_cast<int>(left.size()));
    code += left[k];
    vf::trace("get %s", left[k].c_str());
    r.check(left[k]);
    left.erase(left.begin() + k);
  }
  vf::state(code + std::to_string(r.missing.size()));
  r.finish(false, false);
}
// every subset of collections missing
VF_SCENARIO_OPT(missing, 1, 2, 3, false) {
  std::set<std::string> m;
  for (auto& n : names) {
    if (n != "u" && n != "ls" && vf::flip()) {
      m.insert(n);
    }
  }
  // the links must be there for the subset of them to have a meaning
  Run r(fixed(), m);
  const int first = vf::choose(vf::thorough() ? static_cast<int>(names.size()) : 3);
  r.check(names[(3 * first) % names.size()]);
  std::string code;
  for (auto& n : m) {
    code += n + ",";
  }
  vf::state(code + std::to_string(first));
  r.finish(first % 2, first == 2);
}
// nothing is read before writing again
VF_SCENARIO_OPT(rewrite, 1, 1, 1, false) {
  Run r(fixed(), {});
  auto order = names;
  const int rot = vf::choose(static_cast<int>(names.size()));
  std::rotate(order.begin(), order.begin() + rot, order.end());
  if (vf::flip()) {
    std::reverse(order.begin(), order.end());
  }
  auto st = storeFrame(r.g, order);
  for (size_t i = 0; i < order.size(); ++i) {
    const auto k = std::find(names.begin(), names.end(), order[i]) - names.begin();
    VF_EQ(show(st->colls[i]), show(r.x.st->colls[k]), "stored-contents");
  }
  // three generations
  auto g = makeFrame(st);
  auto st2 = storeFrame(g, names);
  VF_EQ(show(*st2), show(*r.x.st), "stored-contents");
  auto h = makeFrame(st2);
  for (auto& n : order) {
    VF_EQ(describe(h.get(n)), r.want.at(n), "contents");
  }
  vf::state(rot);
  vf::step(3);
}
// many objects: indices beyond the first few
VF_SCENARIO_OPT(sizes, 1, 1, 1, true) {
  const int nh = vf::choose(5), nc = vf::choose(5), first = vf::choose(3);
  HitCollection h;
  ClusterCollection c;
  HitCollection s;
  s.setSubsetCollection();
  for (int i = 0; i < nh; ++i) {
    h.create().energy(i);
  }
  for (int i = 0; i < nc; ++i) {
    c.create(10. * i, i);
  }
  for (int i = 0; i < nc; ++i) {
    for (int k = i; k < nh; ++k) {
      c[i].addhits(h[k]);
      c[i].addcounts(i * k);
    }
    if (i < nh) {
      c[i].seed(h[i]);
      s.push_back(h[nh - 1 - i]);
    }
    c[i].parent(c[nc - 1 - i]);
    c[i].addsubs(c[(i * i) % nc]);
  }
  podio::Frame f;
  f.put(std::move(h), "h");
  f.put(std::move(c), "c");
  f.put(std::move(s), "s");
  const std::vector<std::string> ns{"h", "c", "s"};
  auto st = storeFrame(f, ns);
  auto g = makeFrame(st);
  for (int i = 0; i < 3; ++i) {
    const auto& n = ns[(first + i) % 3];
    VF_EQ(describe(g.get(n)), describe(f.get(n)), "contents");
    vf::step();
  }
  vf::state(nh * 25 + nc * 5 + first);
}
