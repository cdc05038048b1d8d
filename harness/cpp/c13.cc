// C13: members and relations read back as they were set
#include "vf.h"
#include "world.h"
using namespace vfm_;
namespace {
// every form of access to the multi relations and vector members of an object agrees
template <class Sz, class Beg, class End, class Rng, class At, class Key>
void agree(const char* what, Sz sz, Beg beg, End end, Rng rng, At at, Key key) {
  const size_t n = sz();
  VF_EQ(static_cast<size_t>(std::distance(beg(), end())), n, "size-against-iterators");
  const auto r = rng();
  VF_EQ(r.size(), n, "size-against-range");
  VF_EQ(r.empty(), n == 0, "size-against-range");
  VF_EQ(static_cast<bool>(r), n != 0, "size-against-range");
  size_t i = 0;
  for (auto it = beg(); it != end(); ++it, ++i) {
    const std::string k = key(at(i));
    if (key(*it) != k || key(r[i]) != k || key(r.at(i)) != k) {
      vf::failf("access-forms-differ", "%s element %zu", what, i);
    }
  }
  i = 0;
  for (const auto& e : r) {
    VF_EQ(key(e), key(at(i)), "access-forms-differ");
    i++;
  }
  VF_EQ(i, n, "size-against-range");
  if (n) {
    VF_EQ(key(r.front()), key(at(0)), "access-forms-differ");
    VF_EQ(key(r.back()), key(at(n - 1)), "access-forms-differ");
  }
  for (size_t k : {n, static_cast<size_t>(-1)}) {
    VF_THROWS(std::out_of_range, r.at(k), "range-at-unchecked");
  }
  for (size_t k : {n}) {
    VF_THROWS(std::out_of_range, at(k), "index-unchecked");
  }
  vf::step(3);
}
#define AGREE(O, NAME, KEY)                                                                                            \
  agree(#NAME, [&] { return O.NAME##_size(); }, [&] { return O.NAME##_begin(); }, [&] { return O.NAME##_end(); },      \
        [&] { return O.NAME(); }, [&](size_t i) { return O.NAME(i); }, KEY)
template <class C>
void agreeCluster(const C& c) {
  AGREE(c, hits, [](const Hit& h) { return relStr(h); });
  AGREE(c, subs, [](const Cluster& h) { return relStr(h); });
  AGREE(c, counts, [](int h) { return num(h); });
  AGREE(c, points, [](const vf::Vec3& h) { return str(h); });
}
template <class T>
void agreeTrack(const T& t) {
  AGREE(t, things, [](const AnyObj& h) { return relStr(h); });
  AGREE(t, next, [](const Track& h) { return relStr(h); });
}

// ------------------------------------------------------------ plain members
struct RefHit {
  uint64_t cellID{0};
  double energy{1.5};
  vf::Vec3 pos{};
  std::array<int, 3> idx{};
  bool flag{true};
};
template <class T>
void checkHit(const T& h, const RefHit& r, const char* where) {
  const std::string got = num(h.cellID()) + "," + num(h.energy()) + "," + str(h.pos()) + "," + str(h.idx()) + "," + num(h.flag());
  const std::string want = num(r.cellID) + "," + num(r.energy) + "," + str(r.pos) + "," + str(r.idx) + "," + num(r.flag);
  if (got != want) {
    vf::failf("member-differs", "%s: %s, expected %s", where, got.c_str(), want.c_str());
  }
  for (size_t i = 0; i < 3; ++i) {
    VF_EQ(h.idx(i), r.idx[i], "array-element");
    VF_EQ(h.idx()[i], r.idx[i], "array-element");
  }
  VF_THROWS(std::out_of_range, h.idx(3), "array-index-unchecked");
  VF_EQ(h.pos().x, r.pos.x, "component-member");
  VF_EQ(h.pos().y, r.pos.y, "component-member");
  VF_EQ(h.pos().n, r.pos.n, "component-member");
  vf::step();
}
struct RefTrack {
  float chi2{0};
  Tag tag{};
  double energy{0};
  std::vector<int> things, next;
  int best{-1};
};
} // namespace

VF_SCENARIO(hit_members, 3, 4) {
  HitCollection coll;
  coll.create();
  MutableHit h[2] = {MutableHit(), MutableHit()};
  RefHit r[2];
  checkHit(h[0], r[0], "default"); // the declared defaults
  const int where = vf::choose(4); // both free; created; pushed; one constructed with all values
  if (where == 1) {
    h[0] = coll.create();
    h[1] = coll.create();
  } else if (where == 2) {
    coll.push_back(h[0]);
    coll.push_back(h[1]);
  } else if (where == 3) {
    r[0] = {9, 8.5, {1, 2, 3}, {4, 5, 6}, false};
    r[1] = {1, 2.5, {3, 4, 5}, {6, 7, 8}, true};
    h[0] = MutableHit(r[0].cellID, r[0].energy, r[0].pos, r[0].idx, r[0].flag);
    h[1] = coll.create(r[1].cellID, r[1].energy, r[1].pos, r[1].idx, r[1].flag);
  }
  const Hit frozen[2] = {h[0], h[1]};
  checkHit(h[0], r[0], "new");
  checkHit(h[1], r[1], "new");
  int v = 3;
  for (int i = 0; i < vf::depth(); ++i) {
    const int k = vf::choose(2);
    v += 7;
    auto& x = h[k];
    auto& m = r[k];
    const int op = vf::choose(15);
    vf::trace("object %d, form %d", k, op);
    switch (op) {
    case 0:
      x.energy(m.energy = v);
      break;
    case 1:
      x.energy() = m.energy = v + 0.5;
      break;
    case 2:
      x.cellID(m.cellID = ~static_cast<uint64_t>(v));
      break;
    case 3:
      x.cellID() = m.cellID = static_cast<uint64_t>(v) << 40;
      break;
    case 4:
      m.pos = {v + 0.1, v + 0.2f, static_cast<int16_t>(-v)};
      x.pos(m.pos);
      break;
    case 5:
      x.pos().x = m.pos.x = v;
      break;
    case 6:
      x.pos().y = m.pos.y = static_cast<float>(v);
      break;
    case 7:
      x.pos().n = m.pos.n = static_cast<int16_t>(v);
      break;
    case 8:
      m.idx = {v, v + 1, v + 2};
      x.idx(m.idx);
      break;
    case 9:
    case 10:
    case 11:
      m.idx[op - 9] = v;
      x.idx(static_cast<size_t>(op - 9), v);
      break;
    case 12:
      x.idx()[1] = m.idx[1] = v;
      break;
    case 13:
      m.flag = !m.flag;
      x.flag(m.flag);
      break;
    case 14:
      m.flag = !m.flag;
      x.flag() = m.flag;
      break;
    }
    for (int j = 0; j < 2; ++j) {
      checkHit(h[j], r[j], "mutable handle");
      checkHit(frozen[j], r[j], "immutable handle");
    }
    if (where == 1) {
      checkHit(std::as_const(coll)[1], r[0], "element");
      checkHit(coll[2], r[1], "element");
    }
  }
  vf::state(plain(frozen[0]) + plain(frozen[1]));
}

VF_SCENARIO(cluster_relations, 3, 5) {
  World w;
  const int where = vf::choose(3);
  w.newHit();
  w.createHit();
  if (where == 0) {
    w.newCluster(0);
    w.defaultCluster(1);
  } else if (where == 1) {
    w.create(0, 0, true);
    w.create(0, 1, false);
  } else {
    w.newCluster(0);
    w.push(0, true, 0);
    w.newCluster(1);
  }
  auto op = [](World& w) {
    const int s = vf::choose(2);
    switch (vf::choose(8)) {
    case 0:
      return w.setMembers(s, vf::flip());
    case 1:
      return w.addVec(s);
    case 2:
      return w.addHit(s);
    case 3:
      return w.addSub(s);
    case 4:
      return w.setParent(s);
    case 5:
      return w.unsetParent(s);
    case 6:
      return w.setSeed(s);
    case 7:
      return w.push(0, true, s);
    }
  };
  vf::run(w, op, [&] {
    for (auto& m : w.mc) {
      agreeCluster(m.h);
      agreeCluster(Cluster(m.h));
    }
  });
}

// relations to interfaces and to the same type, nested components
VF_SCENARIO(track_members, 3, 4) {
  TrackCollection coll;
  HitCollection hc;
  std::vector<AnyObj> objs;
  auto h0 = hc.create();
  MutableHit h1;
  MutableCluster c;
  MutablePad p;
  h0.energy(1), h1.energy(2), c.energy(3), p.energy(4);
  objs = {AnyObj(h0), AnyObj(h1), AnyObj(c), AnyObj(p)};
  MutableTrack t[2] = {MutableTrack(), MutableTrack()};
  const int where = vf::choose(3);
  if (where == 1) {
    t[0] = coll.create();
    t[1] = coll.create();
  } else if (where == 2) {
    coll.push_back(t[0]);
  }
  RefTrack r[2];
  const Track f[2] = {t[0], t[1]};
  auto check = [&] {
    for (int k = 0; k < 2; ++k) {
      auto one = [&](const auto& x) {
        VF_EQ(x.chi2(), r[k].chi2, "member-differs");
        VF_EQ(x.energy(), r[k].energy, "member-differs");
        VF_EQ(str(x.tag()), str(r[k].tag), "member-differs");
        VF_EQ(x.things_size(), r[k].things.size(), "relation-size");
        VF_EQ(x.next_size(), r[k].next.size(), "relation-size");
        for (size_t i = 0; i < r[k].things.size(); ++i) {
          VF_ASSERT(x.things(i) == objs[r[k].things[i]], "relation-target");
          VF_EQ(x.things(i).energy(), 1. + r[k].things[i], "relation-target");
        }
        for (size_t i = 0; i < r[k].next.size(); ++i) {
          VF_ASSERT(x.next(i) == f[r[k].next[i]], "relation-target");
        }
        VF_EQ(x.best().isAvailable(), r[k].best >= 0, "relation-availability");
        if (r[k].best >= 0) {
          VF_ASSERT(x.best() == objs[r[k].best], "relation-target");
        }
        agreeTrack(x);
        vf::step();
      };
      one(t[k]);
      one(f[k]);
    }
  };
  check();
  int v = 1;
  for (int i = 0; i < vf::depth(); ++i) {
    const int k = vf::choose(2);
    auto& x = t[k];
    auto& m = r[k];
    v += 3;
    const int op = vf::choose(11);
    vf::trace("track %d, form %d", k, op);
    switch (op) {
    case 0:
      x.chi2(m.chi2 = static_cast<float>(v));
      break;
    case 1:
      m.tag.a = v;
      m.tag.arr = {static_cast<short>(v), 2, 3};
      m.tag.v.x = v;
      x.tag(m.tag);
      break;
    case 2:
      x.tag().v.y = m.tag.v.y = static_cast<float>(v);
      break;
    case 3:
      x.tag().arr[2] = m.tag.arr[2] = static_cast<short>(v);
      break;
    case 4: {
      const int o = vf::choose(4);
      x.addthings(objs[o]);
      m.things.push_back(o);
      break;
    }
    case 5: { // from the handles directly
      const int o = vf::choose(4);
      o == 0 ? x.addthings(h0) : o == 1 ? x.addthings(Hit(h1)) : o == 2 ? x.addthings(c) : x.addthings(Pad(p));
      m.things.push_back(o);
      break;
    }
    case 6: {
      const int o = vf::choose(4);
      x.best(objs[o]);
      m.best = o;
      break;
    }
    case 7:
      x.best(AnyObj::makeEmpty());
      m.best = -1;
      break;
    case 8:
      x.addnext(f[0]);
      m.next.push_back(0);
      break;
    case 9:
      x.addnext(t[1]);
      m.next.push_back(1);
      break;
    case 10:
      x.energy() = m.energy = v;
      break;
    }
    if (vf::last(i)) {
      break;
    }
  }
  check();
  std::string s;
  for (auto& m : r) {
    s += "|" + str(m.tag) + num(m.chi2) + std::to_string(m.best);
    for (int o : m.things) {
      s += "t" + std::to_string(o);
    }
    for (int o : m.next) {
      s += "n" + std::to_string(o);
    }
  }
  vf::state(s);
  bool cyclic = false; // among tracks outside collections
  for (int k = 0; k < 2; ++k) {
    for (int o : r[k].next) {
      cyclic = cyclic || (where == 0) || (where == 2);
      (void)o;
    }
  }
  if (cyclic) {
    vf::noLeakCheck();
  }
}

// all shapes of relations and vectors after reading back
VF_SCENARIO(read_back, 1, 1) {
  podio::Frame f;
  std::vector<std::vector<int>> nh(3), nc(3), np(3), ns(3);
  HitCollection hc;
  ClusterCollection cc;
  TrackCollection tc;
  for (int i = 0; i < 4; ++i) {
    hc.create().energy(i);
  }
  // number of entries of each kind per cluster
  int serial = 0;
  std::vector<std::string> want, wantT;
  for (int i = 0; i < 3; ++i) {
    cc.create(1. + i, i);
  }
  for (int i = 0; i < 3; ++i) {
    auto c = cc[i];
    for (int k = vf::choose(3); k > 0; --k) {
      c.addhits(hc[serial++ % 4]);
    }
    for (int k = vf::choose(3); k > 0; --k) {
      c.addcounts(++serial);
      if (k == 2) {
        c.addsubs(cc[serial % 3]);
      }
    }
    for (int k = vf::choose(2); k > 0; --k) {
      c.addpoints({1. * ++serial, 2, 3});
    }
    auto t = tc.create();
    for (size_t k = 0; k < c.hits_size(); ++k) {
      t.addthings(AnyObj(c.hits(k)));
    }
    if (i) {
      t.addnext(tc[0]);
      t.best(AnyObj(cc[0]));
    }
  }
  f.put(std::move(hc), "hits");
  f.put(std::move(cc), "clusters");
  f.put(std::move(tc), "tracks");
  for (auto c : f.get<ClusterCollection>("clusters")) {
    agreeCluster(c);
    want.push_back(full(c));
  }
  for (auto c : f.get<TrackCollection>("tracks")) {
    agreeTrack(c);
    wantT.push_back(full(c));
  }
  auto g = makeFrame(storeFrame(f, {"hits", "clusters", "tracks"}));
  size_t i = 0;
  for (auto c : g.get<ClusterCollection>("clusters")) {
    agreeCluster(c);
    VF_EQ(full(c), want[i], "read-back-differs");
    agreeCluster(c.clone());
    i++;
  }
  i = 0;
  for (auto c : g.get<TrackCollection>("tracks")) {
    agreeTrack(c);
    VF_EQ(full(c), wantT[i], "read-back-differs");
    i++;
  }
  vf::state(want[0] + want[1] + want[2]);
}
