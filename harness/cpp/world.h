// A small world of handles and collections of the model "vfm", together with a
// plain reference model of it. Every operation is applied to both, and verify()
// compares everything that can be observed through the public interface.
#ifndef VF_WORLD_H
#define VF_WORLD_H
#include "store.h"
#include <algorithm>
#include <functional>
#include <iterator>
#include <limits>
#include <numeric>
#include <optional>
#include <ranges>
#include <set>
#include <unordered_set>
#include <vector>

namespace vfm_ {

struct MObj {
  bool isHit{false};
  // hit
  uint64_t cellID{0};
  double energy{0};
  vf::Vec3 pos{};
  std::array<int, 3> idx{};
  bool flag{true};
  // cluster
  int kind{-1};
  std::vector<int> hits, subs, counts;
  std::vector<vf::Vec3> points;
  int seed{-1}, parent{-1};
  // ownership
  int coll{-1}; // collection state
  int index{-1};
  bool dead{false};
};
struct MColl {
  bool subset{false};
  bool isHit{false};
  std::vector<int> objs;
  uint32_t id{static_cast<uint32_t>(podio::ObjectID::untracked)};
};

inline double rdval(int i) { return 100.0 * i + 0.25; }

struct World {
  static constexpr int NMC = 2, NC = 2, NA = 2, NCC = 2;
  std::vector<MObj> mo;
  std::vector<MColl> mcoll;
  int serial{0}; // makes values unique

  template <class T>
  struct Slot {
    T h;
    int m{-1};
  };
  Slot<MutableCluster> mc[NMC] = {{emptied<MutableCluster>()}, {emptied<MutableCluster>()}};
  Slot<Cluster> c[NC] = {{Cluster::makeEmpty()}, {Cluster::makeEmpty()}};
  Slot<MutableHit> mh[1] = {{emptied<MutableHit>()}};
  Slot<Hit> h[1] = {{Hit::makeEmpty()}};
  Slot<AnyObj> a[NA] = {{AnyObj::makeEmpty()}, {AnyObj::makeEmpty()}};
  struct CSlot {
    std::optional<ClusterCollection> c;
    int st{-1};
  } cc[NCC];
  struct HSlot {
    std::optional<HitCollection> c;
    int st{-1};
  } hc;
  bool mayLeak{false};

  template <class T>
  static T emptied() {
    T t;
    t.unlink();
    return t;
  }

  World() {
    for (auto& s : cc) {
      fresh(s, false);
    }
    fresh(hc, true);
  }
  template <class S>
  void fresh(S& s, bool isHit) {
    s.c.emplace();
    s.st = static_cast<int>(mcoll.size());
    mcoll.push_back({});
    mcoll.back().isHit = isHit;
  }

  bool ok(int m) const { return m >= 0 && !mo[m].dead; }
  int newObj(bool isHit) {
    mo.push_back({});
    mo.back().isHit = isHit;
    mo.back().energy = isHit ? 1.5 : 0; // the declared defaults
    return static_cast<int>(mo.size()) - 1;
  }
  podio::ObjectID idOf(int m) const {
    const auto& o = mo[m];
    if (o.coll < 0) {
      return podio::ObjectID{};
    }
    return {o.index, mcoll[o.coll].id};
  }

  // ---------------------------------------------------------- sources
  // anything a (non empty, live) cluster can be taken from
  struct Src {
    Cluster h;
    int m;
    const char* what;
    int i;
  };
  std::vector<Src> clusterSources(bool elements = true) {
    std::vector<Src> r;
    std::set<int> have; // one source per object is enough
    auto add = [&](const Cluster& cl, int m, const char* what, int i) {
      if (ok(m) && have.insert(m).second) {
        r.push_back({cl, m, what, i});
      }
    };
    for (int i = 0; i < NMC; ++i) {
      if (ok(mc[i].m)) {
        add(Cluster(mc[i].h), mc[i].m, "mc", i);
      }
    }
    for (int i = 0; i < NC; ++i) {
      if (ok(c[i].m)) {
        add(c[i].h, c[i].m, "c", i);
      }
    }
    if (elements) {
      for (int i = 0; i < NCC; ++i) {
        auto& st = mcoll[cc[i].st];
        if (!st.objs.empty() && ok(st.objs[0])) {
          add(std::as_const(*cc[i].c)[0], st.objs[0], "cc", i);
        }
      }
    }
    return r;
  }
  struct HSrc {
    Hit h;
    int m;
  };
  std::vector<HSrc> hitSources() {
    std::vector<HSrc> r;
    std::set<int> have;
    auto add = [&](const Hit& x, int m) {
      if (ok(m) && have.insert(m).second) {
        r.push_back({x, m});
      }
    };
    if (ok(mh[0].m)) {
      add(Hit(mh[0].h), mh[0].m);
    }
    if (ok(h[0].m)) {
      add(h[0].h, h[0].m);
    }
    auto& st = mcoll[hc.st];
    if (!st.objs.empty()) {
      add(std::as_const(*hc.c)[st.objs.size() - 1], st.objs.back());
    }
    return r;
  }
  // picks an element, or abandons the execution if there is none
  template <class V>
  const auto& some(const V& v) {
    if (v.empty()) {
      vf::prune();
    }
    return v[vf::choose(static_cast<int>(v.size()))];
  }
  int liveMC() {
    std::vector<int> v;
    for (int i = 0; i < NMC; ++i) {
      if (ok(mc[i].m)) {
        v.push_back(i);
      }
    }
    return some(v);
  }
  void kill(int st) { // the owning collection is gone
    if (mcoll[st].subset) {
      return;
    }
    for (int m : mcoll[st].objs) {
      auto& o = mo[m];
      o.dead = true;
      o.hits.clear(), o.subs.clear();
      o.seed = o.parent = -1;
    }
  }

  // ---------------------------------------------------------- operations
  void newCluster(int s) {
    vf::trace("mc%d = MutableCluster(energy, kind)", s);
    const double e = rdval(++serial);
    mc[s].h = MutableCluster(e, serial);
    mc[s].m = newObj(false);
    mo[mc[s].m].energy = e;
    mo[mc[s].m].kind = serial;
  }
  void defaultCluster(int s) {
    vf::trace("mc%d = MutableCluster()", s);
    mc[s].h = MutableCluster();
    mc[s].m = newObj(false);
  }
  void newHit() {
    vf::trace("mh = MutableHit(...)");
    const double e = rdval(++serial);
    vf::Vec3 p{};
    p.x = e + 1;
    mh[0].h = MutableHit(serial, e, p, {serial, 1, 2}, false);
    mh[0].m = newObj(true);
    auto& o = mo[mh[0].m];
    o.cellID = serial;
    o.energy = e;
    o.pos = p;
    o.idx = {serial, 1, 2};
    o.flag = false;
  }
  void copyMC(int from, int to) {
    vf::trace("mc%d = mc%d", to, from);
    mc[to].h = mc[from].h;
    mc[to].m = mc[from].m;
  }
  void moveMC(int from, int to) {
    vf::trace("mc%d = std::move(mc%d)", to, from);
    MutableCluster tmp(std::move(mc[from].h));
    mc[to].h = std::move(tmp);
    mc[to].m = mc[from].m;
    // whatever the moved-from handle holds, it can be replaced
    if (from != to) {
      mc[from].h = emptied<MutableCluster>();
      mc[from].m = -1;
    }
  }
  void swapMC() {
    vf::trace("swap(mc0, mc1)");
    using std::swap;
    swap(mc[0].h, mc[1].h);
    std::swap(mc[0].m, mc[1].m);
  }
  void freeze(int from, int to) {
    vf::trace("c%d = mc%d", to, from);
    c[to].h = mc[from].h;
    c[to].m = mc[from].m;
  }
  void copyC(int from, int to) {
    vf::trace("c%d = c%d", to, from);
    c[to].h = c[from].h;
    c[to].m = c[from].m;
  }
  void dropMC(int s) {
    vf::trace("mc%d.unlink()", s);
    mc[s].h.unlink();
    mc[s].m = -1;
  }
  void dropC(int s) {
    vf::trace("c%d = empty", s);
    c[s].h = Cluster::makeEmpty();
    c[s].m = -1;
  }
  void dropMH() {
    vf::trace("mh.unlink()");
    mh[0].h.unlink();
    mh[0].m = -1;
  }
  void dropH() {
    vf::trace("h.unlink()");
    h[0].h.unlink();
    h[0].m = -1;
  }
  void freezeHit() {
    vf::trace("h = mh");
    h[0].h = mh[0].h;
    h[0].m = mh[0].m;
  }
  void setMembers(int s, bool viaRef) {
    vf::trace("mc%d set members%s", s, viaRef ? " by reference" : "");
    auto& o = mo[mc[s].m];
    o.energy = rdval(++serial);
    o.kind = serial;
    if (viaRef) {
      mc[s].h.energy() = o.energy;
      mc[s].h.kind() = o.kind;
    } else {
      mc[s].h.energy(o.energy);
      mc[s].h.kind(o.kind);
    }
  }
  void addVec(int s) {
    vf::trace("mc%d add vector members", s);
    auto& o = mo[mc[s].m];
    const int v = ++serial;
    vf::Vec3 p{};
    p.y = static_cast<float>(v);
    o.counts.push_back(v);
    o.counts.push_back(-v);
    o.points.push_back(p);
    mc[s].h.addcounts(v);
    mc[s].h.addcounts(-v);
    mc[s].h.addpoints(p);
  }
  void addHit(int s) {
    const auto src = some(hitSources());
    vf::trace("mc%d.addhits(#%d)", s, src.m);
    mc[s].h.addhits(src.h);
    mo[mc[s].m].hits.push_back(src.m);
  }
  void addSub(int s) {
    const auto src = some(clusterSources());
    vf::trace("mc%d.addsubs(#%d)", s, src.m);
    mc[s].h.addsubs(src.h);
    mo[mc[s].m].subs.push_back(src.m);
  }
  void setParent(int s) {
    const auto src = some(clusterSources());
    vf::trace("mc%d.parent(#%d)", s, src.m);
    mc[s].h.parent(src.h);
    mo[mc[s].m].parent = src.m;
  }
  void unsetParent(int s) {
    vf::trace("mc%d.parent(empty)", s);
    mc[s].h.parent(Cluster::makeEmpty());
    mo[mc[s].m].parent = -1;
  }
  void setSeed(int s) {
    const auto src = some(hitSources());
    vf::trace("mc%d.seed(#%d)", s, src.m);
    mc[s].h.seed(src.h);
    mo[mc[s].m].seed = src.m;
  }
  void clone(int to, bool rel) {
    const auto srcs = clusterSources();
    const auto src = some(srcs);
    vf::trace("mc%d = #%d.clone(%d)", to, src.m, rel);
    const int m = newObj(false);
    mo[m].energy = mo[src.m].energy;
    mo[m].kind = mo[src.m].kind;
    if (rel) {
      mo[m].hits = mo[src.m].hits;
      mo[m].subs = mo[src.m].subs;
      mo[m].seed = mo[src.m].seed;
      mo[m].parent = mo[src.m].parent;
      mo[m].counts = mo[src.m].counts;
      mo[m].points = mo[src.m].points;
    }
    // through whatever handle it is
    MutableCluster res = emptied<MutableCluster>();
    if (!strcmp(src.what, "mc")) {
      res = rel ? mc[src.i].h.clone() : mc[src.i].h.clone(false);
    } else if (!strcmp(src.what, "cc") && vf::flip()) {
      res = (*cc[src.i].c)[0].clone(rel); // mutable element
    } else {
      res = rel ? src.h.clone() : src.h.clone(false);
    }
    mc[to].h = res;
    mc[to].m = m;
  }
  void iface(int s) {
    switch (vf::choose(4)) {
    case 0:
      if (!ok(mc[0].m)) {
        vf::prune();
      }
      vf::trace("a%d = mc0", s);
      a[s].h = mc[0].h;
      a[s].m = mc[0].m;
      break;
    case 1:
      if (!ok(c[0].m)) {
        vf::prune();
      }
      vf::trace("a%d = c0", s);
      a[s].h = AnyObj(c[0].h);
      a[s].m = c[0].m;
      break;
    case 2:
      if (!ok(mh[0].m)) {
        vf::prune();
      }
      vf::trace("a%d = mh", s);
      a[s].h = mh[0].h;
      a[s].m = mh[0].m;
      break;
    case 3:
      vf::trace("a%d = a%d", s, 1 - s);
      a[s].h = a[1 - s].h;
      a[s].m = a[1 - s].m;
      break;
    }
  }
  void dropA(int s) {
    vf::trace("a%d.unlink()", s);
    a[s].h.unlink();
    a[s].m = -1;
  }
  void ifaceBack() {
    if (!ok(a[0].m)) {
      vf::prune();
    }
    if (mo[a[0].m].isHit) {
      vf::trace("h = a0.as<Hit>()");
      h[0].h = a[0].h.as<Hit>();
      h[0].m = a[0].m;
    } else {
      vf::trace("c0 = a0.as<Cluster>()");
      c[0].h = a[0].h.as<Cluster>();
      c[0].m = a[0].m;
    }
  }
  void create(int k, int to, bool args) {
    vf::trace("mc%d = cc%d.create(%s)", to, k, args ? "energy, kind" : "");
    auto& st = mcoll[cc[k].st];
    MutableCluster res = emptied<MutableCluster>();
    const double e = rdval(++serial);
    const bool threw =
        vf::throws<std::logic_error>([&] { res = args ? cc[k].c->create(e, serial) : cc[k].c->create(); }, "create-wrong-exception");
    VF_EQ(threw, st.subset, "create-in-subset");
    if (threw) {
      return;
    }
    mc[to].h = res;
    const int m = mc[to].m = newObj(false);
    if (args) {
      mo[m].energy = e;
      mo[m].kind = serial;
    }
    mo[m].coll = cc[k].st;
    mo[m].index = static_cast<int>(mcoll[cc[k].st].objs.size());
    mcoll[cc[k].st].objs.push_back(m);
  }
  void createHit() {
    vf::trace("mh = hc.create()");
    if (mcoll[hc.st].subset) {
      vf::prune();
    }
    mh[0].h = hc.c->create();
    const int m = mh[0].m = newObj(true);
    mo[m].energy = rdval(++serial);
    mh[0].h.energy(mo[m].energy);
    mo[m].coll = hc.st;
    mo[m].index = static_cast<int>(mcoll[hc.st].objs.size());
    mcoll[hc.st].objs.push_back(m);
  }
  void pushHit() {
    if (!ok(mh[0].m)) {
      vf::prune();
    }
    vf::trace("hc.push_back(mh)");
    const int m = mh[0].m;
    const bool threw = vf::throws<std::invalid_argument>([&] { hc.c->push_back(mh[0].h); }, "push-wrong-exception");
    VF_EQ(threw, mo[m].coll >= 0, "push-refusal");
    if (!threw) {
      mo[m].coll = hc.st;
      mo[m].index = static_cast<int>(mcoll[hc.st].objs.size());
      mcoll[hc.st].objs.push_back(m);
    }
  }
  // push a mutable (s<NMC) or an immutable handle
  void push(int k, bool mut, int s) {
    const int m = mut ? mc[s].m : c[s].m;
    if (!ok(m)) {
      vf::prune();
    }
    vf::trace("cc%d.push_back(%s%d)", k, mut ? "mc" : "c", s);
    auto& st = mcoll[cc[k].st];
    const bool threw = vf::throws<std::invalid_argument>(
        [&] {
          if (mut) {
            cc[k].c->push_back(mc[s].h);
          } else {
            cc[k].c->push_back(c[s].h);
          }
        },
        "push-wrong-exception");
    const bool allowed = st.subset ? mo[m].coll >= 0 : mut && mo[m].coll < 0;
    VF_EQ(threw, !allowed, "push-refusal");
    if (!threw) {
      if (!st.subset) {
        mo[m].coll = cc[k].st;
        mo[m].index = static_cast<int>(st.objs.size());
      }
      st.objs.push_back(m);
    }
  }
  void setSubset(int k, bool v) {
    vf::trace("cc%d.setSubsetCollection(%d)", k, v);
    auto& st = mcoll[cc[k].st];
    const bool threw = vf::throws<std::logic_error>([&] { cc[k].c->setSubsetCollection(v); }, "subset-wrong-exception");
    VF_EQ(threw, st.subset != v && !st.objs.empty(), "subset-refusal");
    if (!threw) {
      st.subset = v;
    }
  }
  void clear(int k) {
    vf::trace("cc%d.clear()", k);
    cc[k].c->clear();
    kill(cc[k].st);
    mcoll[cc[k].st].objs.clear();
  }
  void clearHits() {
    vf::trace("hc.clear()");
    hc.c->clear();
    kill(hc.st);
    mcoll[hc.st].objs.clear();
  }
  void moveConstruct(int k) {
    vf::trace("cc%d = move constructed from itself", k);
    auto tmp = std::make_unique<ClusterCollection>(std::move(*cc[k].c));
    cc[k].c.reset(); // the moved-from one goes first
    cc[k].c.emplace(std::move(*tmp));
  }
  void moveAssign(int from, int to) {
    vf::trace("cc%d = std::move(cc%d)", to, from);
    *cc[to].c = std::move(*cc[from].c);
    kill(cc[to].st);
    cc[to].st = cc[from].st;
    fresh(cc[from], false);
  }
  void destroy(int k) {
    vf::trace("cc%d destroyed", k);
    cc[k].c.reset();
    kill(cc[k].st);
    fresh(cc[k], false);
  }
  void destroyHits() {
    vf::trace("hc destroyed");
    hc.c.reset();
    kill(hc.st);
    fresh(hc, true);
  }
  void setID(int k) {
    vf::trace("cc%d.setID", k);
    const uint32_t id = 7000 + 10 * ++serial + k;
    cc[k].c->setID(id);
    mcoll[cc[k].st].id = id;
  }
  void element(int k, bool mut) { // take an element into a handle
    auto& st = mcoll[cc[k].st];
    if (st.objs.empty()) {
      vf::prune();
    }
    const int i = static_cast<int>(st.objs.size()) - 1;
    if (!ok(st.objs[i])) {
      vf::prune();
    }
    vf::trace("%s0 = cc%d[%d]", mut ? "mc" : "c", k, i);
    if (mut) {
      mc[0].h = (*cc[k].c)[i];
      mc[0].m = st.objs[i];
    } else {
      c[0].h = std::as_const(*cc[k].c)[i];
      c[0].m = st.objs[i];
    }
  }

  // ---------------------------------------------------------- verification
  template <class T>
  void checkHit(const T& x, int m, const char* where) {
    if (m < 0) {
      if (x.isAvailable()) {
        vf::failf("empty-handle-available", "%s", where);
      }
      return;
    }
    const auto& o = mo[m];
    if (o.dead) {
      return;
    }
    vf::step();
    VF_ASSERT(x.isAvailable(), "handle-unavailable");
    VF_EQ(x.cellID(), o.cellID, "member-differs");
    VF_EQ(x.energy(), o.energy, "member-differs");
    VF_EQ(str(x.pos()), str(o.pos), "member-differs");
    VF_EQ(str(x.idx()), str(o.idx), "member-differs");
    VF_EQ(x.idx(2), o.idx[2], "member-differs");
    VF_EQ(x.flag(), o.flag, "member-differs");
    checkID(x, m, where);
  }
  template <class T>
  void checkID(const T& x, int m, const char* where) {
    const auto want = idOf(m);
    const auto got = x.getObjectID();
    if (!(got == want) || !(x.id() == want)) {
      vf::failf("object-id", "%s: #%d has ID %s, expected %s", where, m, str(got).c_str(), str(want).c_str());
    }
  }
  // identity against all handles that are around
  void checkSame(const Cluster& x, int m, const char* where) {
    for (auto& s : mc) {
      if (ok(s.m) && (Cluster(s.h) == x) != (s.m == m)) {
        vf::failf("identity", "%s: #%d against #%d", where, m, s.m);
      }
    }
    for (auto& s : c) {
      if (ok(s.m) && (s.h == x) != (s.m == m)) {
        vf::failf("identity", "%s: #%d against #%d", where, m, s.m);
      }
    }
  }
  template <class T>
  void checkCluster(const T& x, int m, const char* where) {
    if (m < 0) {
      if (x.isAvailable()) {
        vf::failf("empty-handle-available", "%s", where);
      }
      return;
    }
    const auto& o = mo[m];
    if (o.dead) {
      return;
    }
    vf::step();
    VF_ASSERT(x.isAvailable(), "handle-unavailable");
    VF_EQ(x.energy(), o.energy, "member-differs");
    VF_EQ(x.kind(), o.kind, "member-differs");
    checkID(x, m, where);
    if constexpr (std::is_same_v<T, Cluster>) {
      checkSame(x, m, where);
    }
    // vector members through all forms
    VF_EQ(x.counts_size(), o.counts.size(), "vector-size");
    VF_EQ(x.points_size(), o.points.size(), "vector-size");
    for (size_t i = 0; i < o.counts.size(); ++i) {
      VF_EQ(x.counts(i), o.counts[i], "vector-element");
    }
    VF_ASSERT(std::equal(x.counts_begin(), x.counts_end(), o.counts.begin(), o.counts.end()), "vector-range");
    {
      const auto r = x.counts();
      VF_EQ(r.size(), o.counts.size(), "vector-range");
      VF_EQ(r.empty(), o.counts.empty(), "vector-range");
      VF_ASSERT(std::equal(r.begin(), r.end(), o.counts.begin(), o.counts.end()), "vector-range");
      for (size_t i = 0; i < r.size(); ++i) {
        VF_EQ(r[i], o.counts[i], "vector-range");
        VF_EQ(r.at(i), o.counts[i], "vector-range");
      }
      VF_THROWS(std::out_of_range, r.at(o.counts.size()), "range-at-unchecked");
    }
    for (size_t i = 0; i < o.points.size(); ++i) {
      VF_EQ(str(x.points(i)), str(o.points[i]), "vector-element");
    }
    VF_EQ(static_cast<size_t>(std::distance(x.points_begin(), x.points_end())), o.points.size(), "vector-range");
    VF_THROWS(std::out_of_range, x.counts(o.counts.size()), "index-unchecked");
    VF_THROWS(std::out_of_range, x.points(o.points.size() + 1), "index-unchecked");
    // relations
    VF_EQ(x.hits_size(), o.hits.size(), "relation-size");
    VF_EQ(x.subs_size(), o.subs.size(), "relation-size");
    VF_EQ(static_cast<size_t>(std::distance(x.hits_begin(), x.hits_end())), o.hits.size(), "relation-range");
    VF_EQ(static_cast<size_t>(std::distance(x.subs_begin(), x.subs_end())), o.subs.size(), "relation-range");
    VF_EQ(x.hits().size(), o.hits.size(), "relation-range");
    VF_EQ(x.subs().size(), o.subs.size(), "relation-range");
    VF_THROWS(std::out_of_range, x.hits(o.hits.size()), "index-unchecked");
    VF_THROWS(std::out_of_range, x.subs(o.subs.size()), "index-unchecked");
    for (size_t i = 0; i < o.hits.size(); ++i) {
      if (ok(o.hits[i])) {
        checkHit(x.hits(i), o.hits[i], "related hit");
        checkHit(x.hits()[i], o.hits[i], "related hit");
        VF_ASSERT(x.hits(i) == *(x.hits_begin() + i), "relation-range");
      }
    }
    for (size_t i = 0; i < o.subs.size(); ++i) {
      if (ok(o.subs[i])) {
        shallow(x.subs(i), o.subs[i], "sub cluster");
        shallow(*(x.subs_begin() + i), o.subs[i], "sub cluster");
      }
    }
    if (o.seed < 0 || ok(o.seed)) {
      checkHit(x.seed(), o.seed, "seed");
    }
    if (o.parent < 0 || ok(o.parent)) {
      shallow(x.parent(), o.parent, "parent");
    }
  }
  void shallow(const Cluster& x, int m, const char* where) {
    if (m < 0) {
      if (x.isAvailable()) {
        vf::failf("relation-available", "%s", where);
      }
      return;
    }
    VF_ASSERT(x.isAvailable(), "relation-unavailable");
    VF_EQ(x.energy(), mo[m].energy, "relation-target");
    VF_EQ(x.kind(), mo[m].kind, "relation-target");
    VF_EQ(x.counts_size(), mo[m].counts.size(), "relation-target");
    checkID(x, m, where);
    checkSame(x, m, where);
  }
  void checkAny(const AnyObj& x, int m) {
    VF_EQ(m >= 0 && mo[m].dead ? false : x.isAvailable(), ok(m), "interface-availability");
    if (!ok(m)) {
      return;
    }
    const auto& o = mo[m];
    VF_EQ(x.isA<Hit>(), o.isHit, "interface-kind");
    VF_EQ(x.isA<Cluster>(), !o.isHit, "interface-kind");
    VF_ASSERT(!x.isA<Pad>(), "interface-kind");
    VF_EQ(x.energy(), o.energy, "interface-member");
    checkID(x, m, "interface");
    if (o.isHit) {
      checkHit(x.as<Hit>(), m, "interface");
      VF_THROWS(std::runtime_error, x.as<Cluster>(), "interface-wrong-type");
    } else {
      checkCluster(x.as<Cluster>(), m, "interface");
      VF_THROWS(std::runtime_error, x.as<Hit>(), "interface-wrong-type");
    }
    VF_THROWS(std::runtime_error, x.as<Pad>(), "interface-wrong-type");
  }
  void checkColl(CSlot& s, const char* where) {
    auto& st = mcoll[s.st];
    auto& cl = *s.c;
    const auto& ccl = std::as_const(cl);
    VF_EQ(cl.size(), st.objs.size(), "collection-size");
    VF_EQ(cl.empty(), st.objs.empty(), "collection-empty");
    VF_EQ(cl.isSubsetCollection(), st.subset, "collection-subset");
    VF_EQ(cl.getID(), st.id, "collection-id");
    for (size_t i = 0; i < st.objs.size(); ++i) {
      if (ok(st.objs[i])) {
        checkCluster(ccl[i], st.objs[i], where);
        VF_ASSERT(ccl.at(i) == ccl[i] && cl[i] == ccl[i] && cl.at(i) == ccl[i], "collection-access");
      }
    }
    VF_THROWS(std::out_of_range, ccl.at(st.objs.size()), "collection-at");
    VF_THROWS(std::out_of_range, cl.at(st.objs.size()), "collection-at");
    size_t n = 0;
    for (auto e : ccl) {
      if (ok(st.objs[n])) {
        VF_ASSERT(e == ccl[n], "collection-iteration");
      }
      n++;
    }
    VF_EQ(n, st.objs.size(), "collection-iteration");
    n = 0;
    for (auto e : cl) {
      if (ok(st.objs[n])) {
        VF_ASSERT(e == ccl[n], "collection-iteration");
      }
      n++;
    }
    VF_EQ(n, st.objs.size(), "collection-iteration");
  }
  void verify() {
    for (auto& s : mc) {
      checkCluster(s.h, s.m, "mutable handle");
    }
    for (auto& s : c) {
      checkCluster(s.h, s.m, "handle");
    }
    checkHit(mh[0].h, mh[0].m, "mutable hit");
    checkHit(h[0].h, h[0].m, "hit");
    for (auto& s : a) {
      checkAny(s.h, s.m);
    }
    checkColl(cc[0], "cc0");
    checkColl(cc[1], "cc1");
    auto& st = mcoll[hc.st];
    VF_EQ(hc.c->size(), st.objs.size(), "collection-size");
    for (size_t i = 0; i < st.objs.size(); ++i) {
      checkHit(std::as_const(*hc.c)[i], st.objs[i], "hc");
    }
    vf::state(canon());
  }
  // cycles of relations among objects outside collections leak by design
  bool untrackedCycle() const {
    std::vector<int> color(mo.size(), 0);
    std::function<bool(int)> dfs = [&](int i) {
      color[i] = 1;
      auto go = [&](int j) {
        if (j < 0 || mo[j].coll >= 0 || mo[j].dead) {
          return false;
        }
        return color[j] == 1 || (color[j] == 0 && dfs(j));
      };
      bool cyc = go(mo[i].seed) || go(mo[i].parent);
      for (int j : mo[i].hits) {
        cyc = cyc || go(j);
      }
      for (int j : mo[i].subs) {
        cyc = cyc || go(j);
      }
      color[i] = 2;
      return cyc;
    };
    for (size_t i = 0; i < mo.size(); ++i) {
      if (mo[i].coll < 0 && color[i] == 0 && dfs(static_cast<int>(i))) {
        return true;
      }
    }
    return false;
  }
  std::string canon() const {
    std::string r;
    std::map<int, int> num;
    auto id = [&](int m) {
      if (m < 0) {
        return std::string("-");
      }
      if (mo[m].dead) {
        return std::string("x");
      }
      auto it = num.emplace(m, static_cast<int>(num.size())).first;
      return std::to_string(it->second);
    };
    for (auto& s : mc) {
      r += id(s.m) + " ";
    }
    for (auto& s : c) {
      r += id(s.m) + " ";
    }
    r += id(mh[0].m) + " " + id(h[0].m) + " ";
    for (auto& s : a) {
      r += id(s.m) + " ";
    }
    for (auto* st : {&mcoll[cc[0].st], &mcoll[cc[1].st], &mcoll[hc.st]}) {
      r += st->subset ? "S" : "O";
      r += st->id == static_cast<uint32_t>(podio::ObjectID::untracked) ? "" : "i";
      for (int m : st->objs) {
        r += id(m) + ",";
      }
      r += "|";
    }
    // reachable objects
    size_t done = 0;
    while (done < num.size()) {
      int m = -1;
      for (auto& [k, v] : num) {
        if (v == static_cast<int>(done)) {
          m = k;
        }
      }
      done++;
      const auto& o = mo[m];
      r += o.isHit ? "H" : "C";
      r += o.coll >= 0 ? "t" : "u";
      r += std::to_string(o.counts.size());
      r += "s" + id(o.seed) + "p" + id(o.parent);
      for (int j : o.hits) {
        r += "h" + id(j);
      }
      for (int j : o.subs) {
        r += "b" + id(j);
      }
    }
    return r;
  }
  // drop everything in one of several orders
  void finish() {
    vf::step();
    if (untrackedCycle()) {
      vf::noLeakCheck();
    }
    const int order = vf::choose(3);
    vf::trace("final destruction order %d", order);
    auto dropHandles = [&](bool backward) {
      auto one = [&](int i) {
        switch (i) {
        case 0:
          return dropMC(0);
        case 1:
          return dropC(1);
        case 2:
          return dropMH();
        case 3:
          return dropA(0);
        case 4:
          return dropC(0);
        case 5:
          return dropMC(1);
        case 6:
          return dropH();
        case 7:
          return dropA(1);
        }
      };
      for (int i = 0; i < 8; ++i) {
        one(backward ? 7 - i : i);
      }
    };
    if (order == 0) {
      dropHandles(false);
      cc[0].c.reset();
      cc[1].c.reset();
      hc.c.reset();
    } else if (order == 1) {
      hc.c.reset();
      cc[1].c.reset();
      cc[0].c.reset();
      dropHandles(true);
    } else {
      dropMC(0);
      cc[0].c.reset();
      dropHandles(true);
      hc.c.reset();
      cc[1].c.reset();
    }
  }
};

} // namespace vfm_
#endif
