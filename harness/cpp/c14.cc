// C14: equality, hashing, ordering and IDs agree
#include "vf.h"
#include "linkworld.h"
#include "world.h"
#include <unordered_map>
using namespace vfm_;
namespace {
template <class T>
size_t hashOf(const T& t) {
  return std::hash<T>{}(t);
}
struct View { // one way to look at an object
  int m;
  const char* what;
  std::optional<MutableCluster> mc;
  std::optional<Cluster> c;
  std::optional<MutableHit> mh;
  std::optional<Hit> h;
  std::optional<AnyObj> a;
};
std::vector<View> views(World& w) {
  std::vector<View> r;
  auto iface = [&](const AnyObj& a, int m, const char* what) {
    View v{m, what, {}, {}, {}, {}, {}};
    v.a.emplace(a);
    r.push_back(std::move(v));
  };
  auto cl = [&](const Cluster& c, int m, const char* what) {
    if (!w.ok(m)) {
      return;
    }
    View v{m, what, {}, {}, {}, {}, {}};
    v.c.emplace(c);
    r.push_back(std::move(v));
    iface(AnyObj(c), m, what);
  };
  auto hit = [&](const Hit& c, int m, const char* what) {
    if (!w.ok(m)) {
      return;
    }
    View v{m, what, {}, {}, {}, {}, {}};
    v.h.emplace(c);
    r.push_back(std::move(v));
    iface(AnyObj(c), m, what);
  };
  for (auto& s : w.mc) {
    if (w.ok(s.m)) {
      View v{s.m, "mutable handle", {}, {}, {}, {}, {}};
      v.mc.emplace(s.h);
      r.push_back(std::move(v));
      cl(s.h, s.m, "converted handle");
      iface(AnyObj(s.h), s.m, "interface of mutable handle");
    }
  }
  for (auto& s : w.c) {
    cl(s.h, s.m, "handle");
  }
  if (w.ok(w.mh[0].m)) {
    View v{w.mh[0].m, "mutable hit", {}, {}, {}, {}, {}};
    v.mh.emplace(w.mh[0].h);
    r.push_back(std::move(v));
    hit(w.mh[0].h, w.mh[0].m, "converted hit");
  }
  hit(w.h[0].h, w.h[0].m, "hit");
  for (auto& s : w.a) {
    if (w.ok(s.m)) {
      iface(s.h, s.m, "interface handle");
    }
  }
  for (auto& k : w.cc) {
    auto& st = w.mcoll[k.st];
    for (size_t i = 0; i < st.objs.size(); ++i) {
      if (w.ok(st.objs[i])) {
        cl(std::as_const(*k.c)[i], st.objs[i], "element");
        View v{st.objs[i], "mutable element", {}, {}, {}, {}, {}};
        v.mc.emplace((*k.c)[i]);
        r.push_back(std::move(v));
      }
    }
  }
  auto& hs = w.mcoll[w.hc.st];
  for (size_t i = 0; i < hs.objs.size(); ++i) {
    hit(std::as_const(*w.hc.c)[i], hs.objs[i], "hit element");
  }
  // relation targets
  const size_t n = r.size();
  for (size_t i = 0; i < n; ++i) {
    if (r[i].mc) {
      MutableCluster x = *r[i].mc; // r grows below
      const auto o = w.mo[r[i].m];
      for (size_t k = 0; k < o.subs.size(); ++k) {
        if (w.ok(o.subs[k])) {
          cl(x.subs(k), o.subs[k], "related cluster");
        }
      }
      for (size_t k = 0; k < o.hits.size(); ++k) {
        if (w.ok(o.hits[k])) {
          hit(x.hits(k), o.hits[k], "related hit");
        }
      }
      if (w.ok(o.parent)) {
        cl(x.parent(), o.parent, "parent");
      }
    }
  }
  return r;
}
std::string tag(const View& v) {
  return std::string(v.what) + " #" + std::to_string(v.m) + (v.a ? " as interface" : v.mc || v.mh ? " mutable" : "");
}
[[noreturn]] void bad(const char* key, const View& a, const View& b, const char* what) {
  vf::failf(key, "%s: %s against %s", what, tag(a).c_str(), tag(b).c_str());
}
void expectEq(const View& x, const View& y, bool eq, bool ne, bool same, const char* what) {
  if (eq != same) {
    bad("equality", x, y, what);
  }
  if (ne == same) {
    bad("inequality", x, y, what);
  }
}
// order of pairs of objects, per view kind: 0 cluster, 1 mutable cluster, 2 hit, 3 interface
using Order = std::map<std::tuple<int, int, int>, bool>;

void pairwise(const std::vector<View>& v, Order& order) {
  auto lessOk = [&](const View& x, const View& y, bool xy, bool yx, int kind) {
    if (x.m == y.m ? (xy || yx) : (xy == yx)) {
      bad("order", x, y, "not a strict total order");
    }
    if (x.m != y.m) {
      auto it = order.emplace(std::make_tuple(kind, x.m, y.m), xy).first;
      if (it->second != xy) {
        bad("order-unstable", x, y, "order changed");
      }
    }
  };
  for (const auto& x : v) {
    for (const auto& y : v) {
      const bool same = x.m == y.m;
      if (x.c && y.c) {
        expectEq(x, y, *x.c == *y.c, *x.c != *y.c, same, "handles");
        lessOk(x, y, *x.c < *y.c, *y.c < *x.c, 0);
        if (same && hashOf(*x.c) != hashOf(*y.c)) {
          bad("hash", x, y, "handles");
        }
      }
      if (x.mc && y.mc) {
        expectEq(x, y, *x.mc == *y.mc, *x.mc != *y.mc, same, "mutable handles");
        lessOk(x, y, *x.mc < *y.mc, *y.mc < *x.mc, 1);
        if (same && hashOf(*x.mc) != hashOf(*y.mc)) {
          bad("hash", x, y, "mutable handles");
        }
      }
      if (x.mc && y.c) {
        expectEq(x, y, *x.mc == *y.c, *x.mc != *y.c, same, "mutable against immutable");
        expectEq(x, y, *y.c == *x.mc, *y.c != *x.mc, same, "immutable against mutable");
        if (same && hashOf(*x.mc) != hashOf(*y.c)) {
          bad("hash", x, y, "mutable against immutable");
        }
      }
      if (x.h && y.h) {
        expectEq(x, y, *x.h == *y.h, *x.h != *y.h, same, "hits");
        lessOk(x, y, *x.h < *y.h, *y.h < *x.h, 2);
        if (same && hashOf(*x.h) != hashOf(*y.h)) {
          bad("hash", x, y, "hits");
        }
      }
      if (x.mh && y.h) {
        expectEq(x, y, *x.mh == *y.h, *x.mh != *y.h, same, "mutable hit");
        expectEq(x, y, *y.h == *x.mh, *y.h != *x.mh, same, "mutable hit");
        if (same && hashOf(*x.mh) != hashOf(*y.h)) {
          bad("hash", x, y, "mutable hit");
        }
      }
      if (x.a && y.a) {
        expectEq(x, y, *x.a == *y.a, *x.a != *y.a, same, "interfaces");
        lessOk(x, y, *x.a < *y.a, *y.a < *x.a, 3);
        if (same && hashOf(*x.a) != hashOf(*y.a)) {
          bad("hash", x, y, "interfaces");
        }
      }
      if (x.a && y.c) {
        expectEq(x, y, *x.a == *y.c, *x.a != *y.c, same, "interface against handle");
      }
      if (x.a && y.h) {
        expectEq(x, y, *x.a == *y.h, *x.a != *y.h, same, "interface against hit");
      }
      vf::step();
    }
  }
  // transitivity over all triples
  for (const auto& x : v) {
    for (const auto& y : v) {
      for (const auto& z : v) {
        if (x.a && y.a && z.a && *x.a < *y.a && *y.a < *z.a && !(*x.a < *z.a)) {
          bad("order", x, z, "not transitive");
        }
        if (x.c && y.c && z.c && *x.c < *y.c && *y.c < *z.c && !(*x.c < *z.c)) {
          bad("order", x, z, "not transitive");
        }
      }
    }
  }
  // containers that rely on it
  std::set<int> objs;
  std::set<AnyObj> s;
  std::unordered_set<AnyObj> u;
  std::map<Cluster, int> mc;
  std::unordered_map<Cluster, int> um;
  size_t nc = 0;
  for (const auto& x : v) {
    const bool isNew = objs.insert(x.m).second;
    AnyObj a = x.a ? *x.a : x.c ? AnyObj(*x.c) : x.h ? AnyObj(*x.h) : x.mc ? AnyObj(*x.mc) : AnyObj(*x.mh);
    VF_EQ(s.insert(a).second, isNew, "ordered-set");
    VF_EQ(u.insert(a).second, isNew, "unordered-set");
    if (a.isA<Cluster>()) {
      const auto c = a.as<Cluster>();
      VF_EQ(mc.emplace(c, x.m).second, isNew, "ordered-map");
      VF_EQ(um.emplace(c, x.m).second, isNew, "unordered-map");
      VF_EQ(mc.at(c), x.m, "ordered-map");
      VF_EQ(um.at(c), x.m, "unordered-map");
      nc += isNew;
    }
  }
  VF_EQ(s.size(), objs.size(), "ordered-set");
  VF_EQ(mc.size(), nc, "ordered-map");
}
void ids(World& w, const std::vector<View>& v) {
  for (const auto& x : v) {
    const auto want = w.idOf(x.m);
    auto one = [&](const auto& h) {
      if (!(h.id() == want) || !(h.getObjectID() == want)) {
        vf::failf("object-id", "%s has ID %s, expected %s", tag(x).c_str(), str(h.id()).c_str(), str(want).c_str());
      }
      VF_ASSERT(h.isAvailable(), "availability");
    };
    x.c ? one(*x.c) : x.mc ? one(*x.mc) : x.h ? one(*x.h) : x.mh ? one(*x.mh) : one(*x.a);
  }
}
void idOps(World& w) {
  switch (vf::choose(16)) {
  case 0:
    return w.newCluster(0);
  case 1:
    return w.defaultCluster(1);
  case 2:
    return w.newHit();
  case 3:
    return w.create(0, 0, true);
  case 4:
    return w.create(0, 1, false);
  case 5:
    return w.push(1, true, 0);
  case 6:
    return w.setSubset(1, true);
  case 7:
    return w.push(0, true, vf::flip());
  case 8:
    return w.clone(1, true);
  case 9:
    return w.addSub(w.liveMC());
  case 10:
    return w.pushHit();
  case 11:
    return w.setID(0);
  case 12:
    return w.setParent(w.liveMC());
  case 13:
    return w.iface(vf::flip());
  case 14:
    return w.moveAssign(1, 0);
  case 15:
    if (!w.ok(w.mc[0].m)) {
      vf::prune();
    }
    return w.freeze(0, vf::flip());
  }
}
} // namespace
VF_SCENARIO(identity, 4, 5) {
  World w;
  Order order;
  vf::run(w, idOps, [&] {
    auto v = views(w);
    pairwise(v, order);
    ids(w, v);
    // again after some more objects have come and gone
    {
      std::vector<MutableCluster> tmp(5);
      ClusterCollection c;
      c.create();
      auto v2 = views(w);
      pairwise(v2, order);
    }
    for (auto& s : w.mc) {
      VF_EQ(s.m >= 0 && w.mo[s.m].dead ? true : s.h.isAvailable(), s.m >= 0, "availability");
    }
  });
}
VF_SCENARIO(empty_handles, 1, 1) {
  auto one = [](auto e, auto full) {
    VF_ASSERT(!e.isAvailable(), "empty-available");
    VF_ASSERT(full.isAvailable(), "full-unavailable");
    VF_ASSERT(e.id() == podio::ObjectID{} && e.getObjectID() == podio::ObjectID{}, "empty-id");
    VF_EQ(e.id().index, static_cast<int>(podio::ObjectID::untracked), "empty-id");
    VF_ASSERT(e == e && !(e != e) && !(e < e), "empty-equality");
    VF_ASSERT(!(e == full) && !(full == e) && e != full, "empty-equality");
    VF_EQ(hashOf(e), hashOf(e), "empty-hash");
    auto f2 = full;
    VF_ASSERT(f2 == full && f2.isAvailable(), "copy");
    f2.unlink();
    VF_ASSERT(!f2.isAvailable() && full.isAvailable(), "unlink");
    VF_ASSERT(f2 == e, "unlinked-not-empty");
    vf::step();
    vf::state(std::string(typeid(full).name()));
  };
  MutableHit h;
  MutableCluster c;
  MutableTrack t;
  MutablePad p;
  one(Hit::makeEmpty(), Hit(h));
  one(Cluster::makeEmpty(), Cluster(c));
  one(Track::makeEmpty(), Track(t));
  one(Pad::makeEmpty(), Pad(p));
  one(AnyObj::makeEmpty(), AnyObj(h));
  one(HitClusterLink::makeEmpty(), HitClusterLink(MutableHitClusterLink()));
  one(AnyHitLink::makeEmpty(), AnyHitLink(MutableAnyHitLink()));
  one(World::emptied<MutableCluster>(), MutableCluster());
  one(World::emptied<MutableHit>(), MutableHit());
  one(LinkWorld<CCLinkColl>::emptied(), MutableClusterClusterLink());
  AnyObj ac(Cluster::makeEmpty());
  VF_ASSERT(!ac.isAvailable(), "empty-available");
  VF_ASSERT(ac.id() == podio::ObjectID{}, "empty-id");
}
// IDs while writing and after reading back, in owning and subset collections
VF_SCENARIO(stored_ids, 1, 1) {
  podio::Frame f;
  const int n = vf::choose(4), mask = vf::choose(1 << n), idMode = vf::choose(3);
  HitCollection hc;
  ClusterCollection cc, sub;
  AHLinkColl lc;
  sub.setSubsetCollection();
  if (idMode == 1) {
    cc.setID(77);
  }
  for (int i = 0; i < n; ++i) {
    hc.create();
    cc.create();
    lc.create().setFrom(cc[i]);
  }
  for (int i = n - 1; i >= 0; --i) {
    if (mask & (1 << i)) {
      sub.push_back(cc[i]);
    }
  }
  if (idMode == 2) {
    cc.setID(78);
  }
  if (n > 1) {
    cc[0].addsubs(cc[1]);
    cc[0].addhits(hc[1]);
  }
  f.put(std::move(hc), "hits");
  f.put(std::move(cc), "clusters");
  f.put(std::move(sub), "sub");
  f.put(std::move(lc), "links");
  auto check = [&](podio::Frame& g) {
    const uint32_t id = g.getCollectionIDTableForWrite().collectionID("clusters").value();
    const auto& s = g.get<ClusterCollection>("sub");
    const auto& c = g.get<ClusterCollection>("clusters");
    const auto& l = g.get<AHLinkColl>("links");
    VF_EQ(c.getID(), id, "collection-id");
    for (int i = 0; i < n; ++i) {
      VF_ASSERT((c[i].id() == podio::ObjectID{i, id}), "object-id");
      VF_ASSERT((l[i].id() == podio::ObjectID{i, l.getID()}), "object-id");
      VF_ASSERT(l[i].getFrom().id() == c[i].id() && l[i].getFrom() == AnyObj(c[i]), "object-id");
    }
    size_t k = 0;
    for (int i = n - 1; i >= 0; --i) {
      if (mask & (1 << i)) {
        VF_ASSERT(s[k].id() == c[i].id() && s[k] == c[i], "subset-object-id");
        k++;
      }
    }
    if (n > 1) {
      VF_ASSERT(c[0].subs(0).id() == c[1].id(), "object-id");
      VF_ASSERT(c[0].hits(0).id() == g.get<HitCollection>("hits")[1].id(), "object-id");
    }
    std::string r;
    for (auto name : {"hits", "clusters", "sub", "links"}) {
      r += describe(g.get(name));
    }
    vf::step(n + 1);
    return r;
  };
  const auto a = check(f);
  auto st = storeFrame(f, {"hits", "clusters", "sub", "links"});
  auto g = makeFrame(st);
  VF_EQ(check(g), a, "read-back-ids");
  vf::state(a);
}
VF_SCENARIO(links, 3, 4) {
  LinkWorld<CCLinkColl> w;
  vf::run(w, [](auto& x) { x.op(vf::choose(LinkWorld<CCLinkColl>::nOps)); }, [&] {
    // order of the links
    std::vector<std::pair<ClusterClusterLink, int>> v;
    for (auto& s : w.ml) {
      if (w.ok(s.m)) {
        v.emplace_back(s.h, s.m);
      }
    }
    for (auto& s : w.lc) {
      for (size_t i = 0; i < w.mcoll[s.st].objs.size(); ++i) {
        if (w.ok(w.mcoll[s.st].objs[i])) {
          v.emplace_back(std::as_const(*s.c)[i], w.mcoll[s.st].objs[i]);
        }
      }
    }
    for (auto& [x, m] : v) {
      for (auto& [y, n] : v) {
        VF_EQ(x == y, m == n, "link-equality");
        VF_EQ((x < y) != (y < x), m != n, "link-order");
        if (m == n) {
          VF_EQ(hashOf(x), hashOf(y), "link-hash");
        }
      }
    }
  });
}
