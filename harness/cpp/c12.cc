// C12: clones are equal, independent, and belong to no collection
#include "vf.h"
#include "linkworld.h"
#include "world.h"
using namespace vfm_;
namespace {
void cloneOps(World& w) {
  auto s = [&] { return w.liveMC(); };
  switch (vf::choose(14)) {
  case 0:
    return w.clone(1, vf::flip());
  case 1:
    return w.setMembers(s(), false);
  case 2:
    return w.addVec(s());
  case 3:
    return w.addHit(s());
  case 4:
    return w.addSub(s());
  case 5:
    return w.setParent(s());
  case 6:
    return w.unsetParent(s());
  case 7:
    return w.setSeed(s());
  case 8:
    return w.push(0, true, vf::flip());
  case 9:
    return w.clear(0);
  case 10:
    return w.dropMC(vf::flip());
  case 11:
    return w.clone(0, true);
  case 12:
    return w.clearHits();
  case 13:
    return w.swapMC();
  }
}
// an object with everything, in one of the ownership states
void prepare(World& w) {
  const int kind = vf::choose(4);
  w.newHit();
  if (kind == 3) {
    w.create(1, 1, true); // something in front, so that the index is not 0
    w.dropMC(1);
  }
  if (kind == 0 || kind == 2) {
    w.newCluster(0);
  } else {
    w.create(1, 0, true);
  }
  w.addVec(0);
  w.mc[0].h.addhits(w.mh[0].h);
  w.mo[w.mc[0].m].hits.push_back(w.mh[0].m);
  w.mc[0].h.seed(w.mh[0].h);
  w.mo[w.mc[0].m].seed = w.mh[0].m;
  w.newCluster(1);
  w.mc[0].h.addsubs(w.mc[1].h);
  w.mo[w.mc[0].m].subs.push_back(w.mc[1].m);
  w.mc[0].h.parent(w.mc[1].h);
  w.mo[w.mc[0].m].parent = w.mc[1].m;
  w.dropMC(1);
  if (kind == 2) {
    w.push(1, true, 0);
  }
  w.freeze(0, 0);
  if (vf::flip()) {
    w.dropMC(0); // only the immutable handle is left
  }
  w.verify();
}

// ---- read back
std::string body(const std::string& s) { // without the ID
  return s.substr(s.find(' ') + 1);
}
std::shared_ptr<const Stored> stored() {
  podio::Frame f;
  HitCollection hc;
  PadCollection pc;
  ClusterCollection cc, sub;
  TrackCollection tc;
  AHLinkColl lc;
  for (int i = 0; i < 3; ++i) {
    vf::Vec3 p{};
    p.x = i;
    hc.create(static_cast<uint64_t>(i), 0.5 + i, p, std::array<int, 3>{i, 2 * i, 3 * i}, i == 1);
    pc.create(5. + i, 6.f + static_cast<float>(i));
  }
  for (int i = 0; i < 3; ++i) {
    auto c = cc.create(10. + i, i);
    for (int k = 0; k <= i; ++k) {
      c.addcounts(100 * i + k);
    }
    for (int k = 0; k < 3 - i; ++k) {
      vf::Vec3 q{};
      q.y = static_cast<float>(10 * i + k);
      c.addpoints(q);
      c.addhits(hc[k]);
    }
    if (i != 1) {
      c.seed(hc[i]);
      c.parent(cc[0]);
    }
  }
  cc[0].addsubs(cc[1]);
  cc[0].addsubs(cc[2]);
  cc[2].addsubs(cc[2]);
  for (int i = 0; i < 3; ++i) {
    auto t = tc.create();
    t.chi2(static_cast<float>(i));
    t.tag().a = i;
    for (int k = 0; k < i; ++k) {
      t.addnext(tc[k]);
    }
    if (i > 0) {
      t.addthings(AnyObj(hc[i]));
      t.addthings(AnyObj(cc[0]));
    }
    if (i != 1) {
      t.best(AnyObj(pc[i]));
    }
    auto l = lc.create();
    l.setWeight(2.f + static_cast<float>(i));
    if (i != 1) {
      l.setFrom(cc[i]);
    }
    if (i != 2) {
      l.setTo(hc[i]);
    }
  }
  f.put(std::move(hc), "hits");
  f.put(std::move(pc), "pads");
  f.put(std::move(cc), "clusters");
  f.put(std::move(tc), "tracks");
  f.put(std::move(lc), "links");
  return storeFrame(f, {"hits", "pads", "clusters", "tracks", "links"});
}
// what a provider of references is to a reader
struct Provider : podio::ICollectionProvider {
  std::map<uint32_t, podio::CollectionBase*> m;
  bool get(uint32_t id, podio::CollectionBase*& c) const override {
    auto it = m.find(id);
    c = it == m.end() ? nullptr : it->second;
    return c;
  }
};

template <class T, class MT, class F>
void checkClone(const T& src, MT clone, bool rel, const std::string& before, F&& change) {
  VF_ASSERT(clone.isAvailable(), "clone-unavailable");
  VF_ASSERT(clone.getObjectID() == podio::ObjectID{}, "clone-owned");
  VF_ASSERT(!(T(clone) == src), "clone-identical");
  if (rel) {
    VF_EQ(body(full(T(clone))), body(before), "clone-differs");
  } else {
    VF_EQ(plain(T(clone)), plain(src), "clone-members");
  }
  // a second clone of the clone
  VF_EQ(full(T(clone.clone())), full(T(clone)), "clone-of-clone");
  change(clone, rel);
  VF_EQ(full(src), before, "original-changed");
  vf::step(4);
}
} // namespace

VF_SCENARIO(sequences, 3, 4) {
  World w;
  prepare(w);
  vf::run(w, cloneOps);
}
VF_SCENARIO(links, 3, 4) {
  LinkWorld<HCLinkColl> w;
  vf::run(w, [](auto& x) { x.op(vf::choose(LinkWorld<HCLinkColl>::nOps)); });
}
// objects of all types that were read back, through immutable and mutable handles
VF_SCENARIO(read_back, 1, 1) {
  auto st = stored();
  std::optional<podio::Frame> f;
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  std::map<std::string, podio::CollectionBase*> byName;
  Provider prov;
  const bool viaFrame = vf::flip();
  if (viaFrame) {
    f.emplace(makeFrame(st));
  } else {
    for (auto& s : st->colls) {
      auto b = makeBuffers(s);
      auto c = b->createCollection(std::move(*b), s.subset);
      c->setID(st->table.collectionID(s.name).value());
      c->prepareAfterRead();
      prov.m[c->getID()] = c.get();
      byName[s.name] = c.get();
      colls.push_back(std::move(c));
    }
    for (auto& c : colls) {
      c->setReferences(&prov);
    }
  }
  const bool rel = vf::flip();
  const int form = viaFrame ? 0 : vf::choose(2); // immutable or mutable handle
  const int what = vf::choose(5);
  const int i = vf::choose(3);
  vf::trace("%s %s, clone(%d), type %d, element %d", viaFrame ? "Frame" : "buffers", form ? "mutable" : "immutable", rel, what, i);
  auto coll = [&]<class C>(const char* name) -> C& {
    return viaFrame ? const_cast<C&>(f->get<C>(name)) : dynamic_cast<C&>(*byName[name]);
  };
  auto go = [&]<class C>(const char* name, auto&& change) {
    C& c = coll.template operator()<C>(name);
    const auto src = std::as_const(c)[i];
    const std::string before = full(src);
    vf::state(before + std::to_string(rel) + std::to_string(form));
    if (form == 0) {
      checkClone(src, rel ? src.clone() : src.clone(false), rel, before, change);
    } else {
      auto m = c[i];
      checkClone(src, rel ? m.clone() : m.clone(false), rel, before, change);
    }
    // the original can go, the clone stays
    std::string all;
    for (size_t k = 0; k < c.size(); ++k) {
      all += full(std::as_const(c)[k]);
    }
    {
      auto cl = src.clone(rel);
      change(cl, rel);
      C own;
      own.push_back(cl);
      own.setID(4711);
      VF_EQ(full(std::as_const(own)[0]), full(typename C::value_type(cl)), "clone-in-collection");
      // and it is written as it is
      auto sc = store(own, "own");
      auto b = makeBuffers(sc);
      auto r = b->createCollection(std::move(*b), false);
      r->setID(4711);
      r->prepareAfterRead();
      Provider p2 = prov;
      if (viaFrame) {
        for (auto& s : st->colls) {
          p2.m[st->table.collectionID(s.name).value()] = const_cast<podio::CollectionBase*>(f->get(s.name));
        }
      }
      p2.m[4711] = r.get();
      r->setReferences(&p2);
      VF_EQ(full(std::as_const(dynamic_cast<C&>(*r))[0]), full(std::as_const(own)[0]), "clone-written");
    }
    std::string now;
    for (size_t k = 0; k < c.size(); ++k) {
      now += full(std::as_const(c)[k]);
    }
    VF_EQ(now, all, "original-changed");
  };
  const auto& hits = coll.template operator()<HitCollection>("hits");
  const auto& clusters = coll.template operator()<ClusterCollection>("clusters");
  switch (what) {
  case 0:
    go.template operator()<HitCollection>("hits", [](MutableHit& h, bool) {
      h.energy(-1);
      h.pos().x = -2;
      h.idx(1, -3);
      VF_ASSERT(h.energy() == -1 && h.pos().x == -2 && h.idx(1) == -3, "clone-not-changeable");
    });
    break;
  case 1:
    go.template operator()<PadCollection>("pads", [](MutablePad& h, bool) {
      h.energy(-1);
      VF_ASSERT(h.energy() == -1, "clone-not-changeable");
    });
    break;
  case 2:
    go.template operator()<ClusterCollection>("clusters", [&](MutableCluster& c, bool r) {
      const size_t n = c.counts_size(), m = c.hits_size(), s = c.subs_size(), p = c.points_size();
      VF_ASSERT(r || (n == 0 && m == 0 && s == 0 && p == 0 && !c.seed().isAvailable() && !c.parent().isAvailable()), "clone-with-relations");
      std::vector<int> counts(c.counts().begin(), c.counts().end());
      c.addcounts(-5);
      counts.push_back(-5);
      c.addhits(hits[2]);
      c.addhits(hits[0]);
      c.addsubs(clusters[1]);
      c.addpoints({1, 2, 3});
      c.kind(-77);
      c.parent(clusters[2]);
      VF_EQ(c.counts_size(), n + 1, "clone-not-changeable");
      VF_ASSERT(std::equal(c.counts().begin(), c.counts().end(), counts.begin(), counts.end()), "clone-not-changeable");
      VF_EQ(c.hits_size(), m + 2, "clone-not-changeable");
      VF_ASSERT(c.hits(m) == hits[2] && c.hits(m + 1) == hits[0], "clone-not-changeable");
      VF_ASSERT(c.subs(s) == clusters[1], "clone-not-changeable");
      VF_ASSERT(c.points(p).y == 2 && c.kind() == -77 && c.parent() == clusters[2], "clone-not-changeable");
    });
    break;
  case 3:
    go.template operator()<TrackCollection>("tracks", [&](MutableTrack& t, bool r) {
      const size_t n = t.things_size(), m = t.next_size();
      VF_ASSERT(r || (n == 0 && m == 0 && !t.best().isAvailable()), "clone-with-relations");
      t.addthings(AnyObj(hits[0]));
      t.tag().a = -9;
      t.best(AnyObj(clusters[1]));
      VF_EQ(t.things_size(), n + 1, "clone-not-changeable");
      VF_ASSERT(t.things(n) == AnyObj(hits[0]) && t.tag().a == -9 && t.best() == AnyObj(clusters[1]), "clone-not-changeable");
      VF_EQ(t.next_size(), m, "clone-not-changeable");
    });
    break;
  case 4:
    go.template operator()<AHLinkColl>("links", [&](MutableAnyHitLink& l, bool r) {
      VF_ASSERT(r || (!l.getFrom().isAvailable() && !l.getTo().isAvailable()), "clone-with-relations");
      l.setWeight(-4);
      l.setTo(hits[1]);
      VF_ASSERT(l.getWeight() == -4 && l.getTo() == hits[1], "clone-not-changeable");
    });
    break;
  }
}
