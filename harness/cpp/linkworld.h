// A small world of links, link handles and link collections, with a reference
// model of it.
#ifndef VF_LINKWORLD_H
#define VF_LINKWORLD_H
#include "store.h"
#include <optional>
#include <set>
#include <vector>

namespace vfm_ {

template <class LC>
struct LinkWorld {
  using From = typename LC::from_type;
  using To = typename LC::to_type;
  using Lk = typename LC::value_type;
  using MLk = typename LC::mutable_type;
  static constexpr bool sameTypes = std::is_same_v<From, To>;
  static constexpr bool ifaceFrom = std::is_same_v<From, AnyObj>;

  // targets: number 0.. of each side; the first is in a collection, others not
  HitCollection hc;
  ClusterCollection cc;
  PadCollection pc;
  std::vector<MutableHit> hits;
  std::vector<MutableCluster> clusters;

  struct MLink {
    int from{-1}, to{-1};
    float weight{1.0f};
    int coll{-1}, index{-1};
    bool dead{false};
  };
  std::vector<MLink> mo;
  struct MColl {
    bool subset{false};
    std::vector<int> objs;
    uint32_t id{0};
    bool idset{false};
  };
  std::vector<MColl> mcoll;
  template <class T>
  struct Slot {
    T h;
    int m{-1};
  };
  static MLk emptied() {
    MLk t;
    t.unlink();
    return t;
  }
  Slot<MLk> ml[2] = {{emptied()}, {emptied()}};
  Slot<Lk> l[1] = {{Lk::makeEmpty()}};
  struct CSlot {
    std::optional<LC> c;
    int st{-1};
  } lc[2];
  int serial{0};

  LinkWorld() {
    hits = {hc.create(), MutableHit(), hc.create()};
    clusters = {cc.create(), MutableCluster(), cc.create()};
    for (int i = 0; i < 3; ++i) {
      hits[i].energy(1000 + i);
      clusters[i].energy(2000 + i);
    }
    hc.setID(11);
    cc.setID(12);
    for (auto& s : lc) {
      fresh(s);
    }
  }
  void fresh(CSlot& s) {
    s.c.emplace();
    s.st = static_cast<int>(mcoll.size());
    mcoll.push_back({});
  }
  // handles for targets: from 0.. and to 0..
  From from(int i) {
    if constexpr (ifaceFrom) {
      return i == 0 ? AnyObj(hits[0]) : i == 1 ? AnyObj(clusters[1]) : AnyObj(clusters[2]);
    } else if constexpr (std::is_same_v<From, Hit>) {
      return hits[i];
    } else {
      return clusters[i];
    }
  }
  To to(int i) {
    if constexpr (std::is_same_v<To, Hit>) {
      return hits[i];
    } else {
      return clusters[i];
    }
  }
  bool ok(int m) const { return m >= 0 && !mo[m].dead; }
  int newLink() {
    mo.push_back({});
    return static_cast<int>(mo.size()) - 1;
  }
  float weight() { return 0.5f + static_cast<float>(++serial); }
  void need(bool c) {
    if (!c) {
      vf::prune();
    }
  }

  void newWeighted() {
    const float w = weight();
    vf::trace("ml0 = MutableLink(%g)", w);
    ml[0].h = MLk(w);
    ml[0].m = newLink();
    mo[ml[0].m].weight = w;
  }
  void newDefault() {
    vf::trace("ml1 = MutableLink()");
    ml[1].h = MLk();
    ml[1].m = newLink();
  }
  void setFrom(int s, int t, int form) {
    need(ok(ml[s].m));
    vf::trace("ml%d.setFrom(%d) form %d", s, t, form);
    auto& x = ml[s].h;
    switch (form) {
    case 0:
      x.setFrom(from(t));
      break;
    case 1: // mutable handle
      if constexpr (ifaceFrom) {
        if (t == 0) {
          x.setFrom(hits[0]);
        } else {
          x.setFrom(clusters[t]);
        }
      } else if constexpr (std::is_same_v<From, Hit>) {
        x.setFrom(hits[t]);
      } else {
        x.setFrom(clusters[t]);
      }
      break;
    case 2: // by type
      if constexpr (!sameTypes) {
        if constexpr (ifaceFrom) {
          if (t == 0) {
            x.set(from(t));
          } else {
            x.set(Cluster(clusters[t]));
          }
        } else {
          x.set(from(t));
        }
      } else {
        vf::prune();
      }
      break;
    }
    mo[ml[s].m].from = t;
  }
  void setTo(int s, int t, int form) {
    need(ok(ml[s].m));
    vf::trace("ml%d.setTo(%d) form %d", s, t, form);
    auto& x = ml[s].h;
    switch (form) {
    case 0:
      x.setTo(to(t));
      break;
    case 1:
      if constexpr (std::is_same_v<To, Hit>) {
        x.setTo(hits[t]);
      } else {
        x.setTo(clusters[t]);
      }
      break;
    case 2:
      if constexpr (!sameTypes) {
        x.set(to(t));
      } else {
        vf::prune();
      }
      break;
    }
    mo[ml[s].m].to = t;
  }
  void unset(int s) {
    need(ok(ml[s].m));
    const bool to = vf::flip();
    vf::trace("ml%d.set%s(empty)", s, to ? "To" : "From");
    if (to) {
      ml[s].h.setTo(To::makeEmpty());
      mo[ml[s].m].to = -1;
    } else {
      ml[s].h.setFrom(From::makeEmpty());
      mo[ml[s].m].from = -1;
    }
  }
  void setWeight(int s) {
    need(ok(ml[s].m));
    const float w = weight();
    vf::trace("ml%d.setWeight(%g)", s, w);
    ml[s].h.setWeight(w);
    mo[ml[s].m].weight = w;
  }
  void clone(bool imm, bool rel) {
    const int src = imm ? l[0].m : ml[0].m;
    need(ok(src));
    vf::trace("ml1 = %s.clone(%d)", imm ? "l" : "ml0", rel);
    const int m = newLink();
    mo[m].weight = mo[src].weight;
    if (rel) {
      mo[m].from = mo[src].from;
      mo[m].to = mo[src].to;
    }
    if (imm) {
      ml[1].h = rel ? l[0].h.clone() : l[0].h.clone(false);
    } else {
      ml[1].h = rel ? ml[0].h.clone() : ml[0].h.clone(false);
    }
    ml[1].m = m;
  }
  void copy() {
    vf::trace("ml1 = ml0");
    ml[1].h = ml[0].h;
    ml[1].m = ml[0].m;
  }
  void swapHandles() {
    vf::trace("swap(ml0, ml1)");
    using std::swap;
    swap(ml[0].h, ml[1].h);
    std::swap(ml[0].m, ml[1].m);
  }
  void freeze() {
    vf::trace("l = ml0");
    l[0].h = ml[0].h;
    l[0].m = ml[0].m;
  }
  void drop() {
    vf::trace("ml0.unlink()");
    ml[0].h.unlink();
    ml[0].m = -1;
  }
  void create(int k) {
    vf::trace("ml0 = lc%d.create()", k);
    auto& st = mcoll[lc[k].st];
    MLk res = emptied();
    const bool threw = vf::throws<std::logic_error>([&] { res = lc[k].c->create(); }, "create-wrong-exception");
    VF_EQ(threw, st.subset, "create-in-subset");
    if (!threw) {
      ml[0].h = res;
      ml[0].m = newLink();
      track(ml[0].m, k);
    }
  }
  void track(int m, int k) {
    auto& st = mcoll[lc[k].st];
    mo[m].coll = lc[k].st;
    mo[m].index = static_cast<int>(st.objs.size());
    st.objs.push_back(m);
  }
  void push(int k, bool mut) {
    const int m = mut ? ml[0].m : l[0].m;
    need(ok(m));
    vf::trace("lc%d.push_back(%s)", k, mut ? "ml0" : "l");
    auto& st = mcoll[lc[k].st];
    const bool threw = vf::throws<std::invalid_argument>(
        [&] {
          if (mut) {
            lc[k].c->push_back(ml[0].h);
          } else {
            lc[k].c->push_back(l[0].h);
          }
        },
        "push-wrong-exception");
    const bool allowed = st.subset ? mo[m].coll >= 0 : mut && mo[m].coll < 0;
    VF_EQ(threw, !allowed, "push-refusal");
    if (!threw) {
      if (st.subset) {
        st.objs.push_back(m);
      } else {
        track(m, k);
      }
    }
  }
  void setSubset(int k, bool v) {
    vf::trace("lc%d.setSubsetCollection(%d)", k, v);
    auto& st = mcoll[lc[k].st];
    const bool threw = vf::throws<std::logic_error>([&] { lc[k].c->setSubsetCollection(v); }, "subset-wrong-exception");
    VF_EQ(threw, st.subset != v && !st.objs.empty(), "subset-refusal");
    if (!threw) {
      st.subset = v;
    }
  }
  void kill(int st) {
    if (!mcoll[st].subset) {
      for (int m : mcoll[st].objs) {
        mo[m].dead = true;
      }
    }
  }
  void clear(int k) {
    vf::trace("lc%d.clear()", k);
    lc[k].c->clear();
    kill(lc[k].st);
    mcoll[lc[k].st].objs.clear();
  }
  void moveConstruct(int k) {
    vf::trace("lc%d = move constructed from itself", k);
    auto tmp = std::make_unique<LC>(std::move(*lc[k].c));
    lc[k].c.reset();
    lc[k].c.emplace(std::move(*tmp));
  }
  void moveAssign(int from, int to) {
    vf::trace("lc%d = std::move(lc%d)", to, from);
    *lc[to].c = std::move(*lc[from].c);
    kill(lc[to].st);
    lc[to].st = lc[from].st;
    fresh(lc[from]);
  }
  void setID(int k) {
    const uint32_t id = 900 + 10 * ++serial + k;
    vf::trace("lc%d.setID(%u)", k, id);
    lc[k].c->setID(id);
    mcoll[lc[k].st].id = id;
    mcoll[lc[k].st].idset = true;
  }
  void op(int i) {
    switch (i) {
    case 0:
      return newWeighted();
    case 1:
      return newDefault();
    case 2:
      return setFrom(0, vf::choose(2), vf::choose(3));
    case 3:
      return setTo(0, vf::choose(2), vf::choose(3));
    case 4:
      return setWeight(0);
    case 5:
      return clone(false, vf::flip());
    case 6:
      return clone(true, vf::flip());
    case 7:
      return swapHandles();
    case 8:
      return freeze();
    case 9:
      return create(0);
    case 10:
      return push(0, true);
    case 11:
      return push(1, vf::flip());
    case 12:
      return setSubset(1, vf::flip());
    case 13:
      return clear(0);
    case 14:
      return vf::flip() ? moveConstruct(0) : moveAssign(0, 1);
    case 15:
      return unset(0);
    case 16:
      return setFrom(1, 2, 0);
    case 17:
      return setID(0);
    case 18:
      return copy();
    case 19:
      return create(1);
    case 20:
      return drop();
    case 21:
      return clear(1);
    case 22:
      return moveAssign(1, 0);
    }
  }
  static constexpr int nOps = 23;

  // ---------------------------------------------------------- verification
  template <class T>
  void check(const T& x, int m, const char* where) {
    if (m < 0) {
      VF_ASSERT(!x.isAvailable(), "empty-handle-available");
      VF_ASSERT(x.getObjectID() == podio::ObjectID{}, "empty-handle-id");
      return;
    }
    if (mo[m].dead) {
      return;
    }
    vf::step();
    const auto& o = mo[m];
    VF_ASSERT(x.isAvailable(), "handle-unavailable");
    auto checkFrom = [&](const From& f, const char* how) {
      if (f.isAvailable() != (o.from >= 0) || (o.from >= 0 && !(f == from(o.from)))) {
        vf::failf("from-object", "%s: wrong from-object by %s", where, how);
      }
      if (o.from >= 0) {
        VF_EQ(plain(f), plain(from(o.from)), "from-object");
      }
    };
    auto checkTo = [&](const To& t, const char* how) {
      if (t.isAvailable() != (o.to >= 0) || (o.to >= 0 && !(t == to(o.to)))) {
        vf::failf("to-object", "%s: wrong to-object by %s", where, how);
      }
      if (o.to >= 0) {
        VF_EQ(plain(t), plain(to(o.to)), "to-object");
      }
    };
    checkFrom(x.getFrom(), "getFrom");
    checkTo(x.getTo(), "getTo");
    VF_EQ(x.getWeight(), o.weight, "weight");
    checkFrom(x.template get<0>(), "get<0>");
    checkTo(x.template get<1>(), "get<1>");
    VF_EQ(x.template get<2>(), o.weight, "weight");
    const auto& [f, t, w] = x;
    checkFrom(f, "structured binding");
    checkTo(t, "structured binding");
    VF_EQ(w, o.weight, "weight");
    if constexpr (!sameTypes) {
      checkFrom(x.template get<From>(), "get<From>");
      checkTo(x.template get<To>(), "get<To>");
    }
    const podio::ObjectID id = x.getObjectID();
    VF_ASSERT(id == x.id(), "link-id");
    if (o.coll < 0) {
      VF_ASSERT(id == podio::ObjectID{}, "link-id");
    } else {
      VF_EQ(id.index, o.index, "link-id");
      if (mcoll[o.coll].idset) {
        VF_EQ(id.collectionID, mcoll[o.coll].id, "link-id");
      }
    }
    for (auto& s : ml) {
      if (ok(s.m)) {
        VF_EQ(x == s.h, s.m == m, "link-identity");
        VF_EQ(x != s.h, s.m != m, "link-identity");
        if (s.m == m) {
          VF_EQ(std::hash<T>{}(x), std::hash<MLk>{}(s.h), "link-hash");
        }
      }
    }
    if (ok(l[0].m)) {
      VF_EQ(x == l[0].h, l[0].m == m, "link-identity");
    }
  }
  void verify() {
    for (auto& s : ml) {
      check(s.h, s.m, "mutable link");
    }
    check(l[0].h, l[0].m, "link");
    for (auto& s : lc) {
      auto& st = mcoll[s.st];
      auto& cl = *s.c;
      const auto& ccl = std::as_const(cl);
      VF_EQ(cl.size(), st.objs.size(), "collection-size");
      VF_EQ(cl.empty(), st.objs.empty(), "collection-size");
      VF_EQ(cl.isSubsetCollection(), st.subset, "collection-subset");
      if (st.idset) {
        VF_EQ(cl.getID(), st.id, "collection-id");
      }
      for (size_t i = 0; i < st.objs.size(); ++i) {
        if (ok(st.objs[i])) {
          check(ccl[i], st.objs[i], "element");
          VF_ASSERT(ccl.at(i) == ccl[i] && cl[i] == ccl[i] && cl.at(i) == ccl[i], "collection-access");
          VF_ASSERT(*(ccl.begin() + static_cast<long>(i)) == ccl[i] && cl.begin()[static_cast<long>(i)] == ccl[i], "collection-iteration");
        }
      }
      VF_THROWS(std::out_of_range, ccl.at(st.objs.size()), "collection-at");
      VF_THROWS(std::out_of_range, cl.at(st.objs.size()), "collection-at");
      size_t n = 0;
      for (const auto e : ccl) {
        VF_ASSERT(!ok(st.objs[n]) || e == ccl[n], "collection-iteration");
        n++;
      }
      VF_EQ(n, st.objs.size(), "collection-iteration");
      for (auto it = cl.rbegin(); it != cl.rend(); ++it) {
        n--;
        VF_ASSERT(!ok(st.objs[n]) || *it == ccl[n], "collection-iteration");
      }
      VF_EQ(n, 0u, "collection-iteration");
      // an iterator's arrow gives the same object
      for (auto it = ccl.begin(); it != ccl.end(); it++) {
        if (ok(st.objs[n])) {
          VF_EQ(it->getWeight(), ccl[n].getWeight(), "collection-iteration");
        }
        n++;
      }
    }
    vf::state(canon());
  }
  std::string canon() {
    std::map<int, int> num;
    std::string r;
    auto id = [&](int m) {
      return m < 0 ? std::string("-") : mo[m].dead ? std::string("x") : std::to_string(num.emplace(m, static_cast<int>(num.size())).first->second);
    };
    r += id(ml[0].m) + " " + id(ml[1].m) + " " + id(l[0].m) + " ";
    for (auto& s : lc) {
      r += mcoll[s.st].subset ? "S" : "O";
      for (int m : mcoll[s.st].objs) {
        r += id(m) + ",";
      }
    }
    for (auto& [m, k] : num) {
      r += "|" + std::to_string(k) + ":" + std::to_string(mo[m].from) + "," + std::to_string(mo[m].to) + (mo[m].weight == 1.0f ? "d" : "w");
    }
    return r;
  }
  bool anyDangling() const { // subset elements whose owner is gone
    for (auto& s : lc) {
      for (int m : mcoll[s.st].objs) {
        if (mo[m].dead) {
          return true;
        }
      }
    }
    return false;
  }
  // Write both link collections with the target collections and compare what
  // comes back. The collections go into the Frame, so this is the last thing.
  void roundTrip() {
    if (anyDangling()) {
      return;
    }
    // expected contents
    std::vector<std::vector<MLink>> want;
    std::vector<std::vector<int>> owner;
    for (auto& s : lc) {
      want.emplace_back();
      owner.emplace_back();
      for (int m : mcoll[s.st].objs) {
        want.back().push_back(mo[m]);
        owner.back().push_back(mo[m].coll == lc[0].st ? 0 : mo[m].coll == lc[1].st ? 1 : 2);
      }
    }
    vf::trace("write and read back");
    podio::Frame f;
    f.put(std::move(hc), "hits");
    f.put(std::move(cc), "clusters");
    // the mutable handles have to go before the objects
    const auto& a = f.put(std::move(*lc[0].c), "links0");
    const auto& b = f.put(std::move(*lc[1].c), "links1");
    const uint32_t ids[2] = {a.getID(), b.getID()};
    const std::string before[2] = {fullColl(a), fullColl(b)};
    auto st = storeFrame(f, {"links1", "hits", "links0", "clusters"});
    VF_EQ(fullColl(a), before[0], "writing-changed-links");
    VF_EQ(fullColl(b), before[1], "writing-changed-links");
    auto g = makeFrame(st);
    const char* names[2] = {"links0", "links1"};
    const bool first = vf::flip();
    for (int k0 = 0; k0 < 2; ++k0) {
      const int k = first ? 1 - k0 : k0;
      const auto& r = g.template get<LC>(names[k]);
      VF_EQ(r.size(), want[k].size(), "readback-size");
      VF_EQ(r.getID(), ids[k], "readback-id");
      VF_EQ(r.isSubsetCollection(), mcoll[lc[k].st].subset, "readback-subset");
      const auto& h = g.template get<HitCollection>("hits");
      const auto& c = g.template get<ClusterCollection>("clusters");
      for (size_t i = 0; i < r.size(); ++i) {
        const auto& o = want[k][i];
        const auto x = r[i];
        VF_ASSERT(x.isAvailable(), "readback-link");
        VF_EQ(x.getWeight(), o.weight, "readback-weight");
        VF_EQ(x.getObjectID().index, o.index, "readback-link-id");
        VF_EQ(x.getObjectID().collectionID, ids[owner[k][i]], "readback-link-id");
        // number 1 is in no collection; 0 and 2 are elements 0 and 1
        auto at = [&](int t) { return t == 0 ? 0 : 1; };
        const bool fromHere = o.from == 0 || o.from == 2;
        const bool toHere = o.to == 0 || o.to == 2;
        VF_EQ(x.getFrom().isAvailable(), fromHere, "readback-from");
        VF_EQ(x.getTo().isAvailable(), toHere, "readback-to");
        if (fromHere) {
          if constexpr (ifaceFrom) {
            VF_ASSERT(x.getFrom() == (o.from == 0 ? AnyObj(h[0]) : AnyObj(c[1])), "readback-from");
          } else if constexpr (std::is_same_v<From, Hit>) {
            VF_ASSERT(x.getFrom() == h[at(o.from)], "readback-from");
          } else {
            VF_ASSERT(x.getFrom() == c[at(o.from)], "readback-from");
          }
        }
        if (toHere) {
          if constexpr (std::is_same_v<To, Hit>) {
            VF_ASSERT(x.getTo() == h[at(o.to)], "readback-to");
          } else {
            VF_ASSERT(x.getTo() == c[at(o.to)], "readback-to");
          }
        }
      }
      // and a second writing of what was read gives the same
    }
    auto st2 = storeFrame(g, {"links1", "hits", "links0", "clusters"});
    VF_EQ(show(*st2), show(*st), "rewrite-differs");
  }
  void finish() {
    vf::step();
    switch (vf::choose(3)) {
    case 0:
      lc[0].c.reset();
      lc[1].c.reset();
      break;
    case 1:
      lc[1].c.reset();
      ml[0].h.unlink();
      l[0].h.unlink();
      ml[1].h.unlink();
      lc[0].c.reset();
      break;
    case 2:
      roundTrip();
      break;
    }
  }
};

} // namespace vfm_
#endif
