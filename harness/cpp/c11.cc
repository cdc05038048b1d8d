// C11: ownership and mutability rules
#include "vf.h"
#include "linkworld.h"
#include "world.h"
using namespace vfm_;
namespace {
template <class T>
constexpr bool settable() {
  return requires(T c) { c.energy(1.); } || requires(T c) { c.addhits(Hit::makeEmpty()); } ||
      requires(T c) { c.parent(Cluster::makeEmpty()); } || requires(T c) { c.addcounts(1); };
}
template <class T>
constexpr bool weightSettable() {
  return requires(T l) { l.setWeight(1.f); } || requires(T l) { l.setFrom(Cluster::makeEmpty()); };
}
void ownOps(World& w) {
  switch (vf::choose(18)) {
  case 0:
    return w.newCluster(0);
  case 1:
    return w.create(0, 0, true);
  case 2:
    return w.create(1, 1, false);
  case 3:
    return w.push(0, true, 0);
  case 4:
    return w.push(1, true, 0);
  case 5:
    return w.push(1, true, 1);
  case 6:
    return w.push(0, false, 0);
  case 7:
    return w.push(1, false, 0);
  case 8:
    return w.setSubset(1, vf::flip());
  case 9:
    return w.setSubset(0, vf::flip());
  case 10:
    return w.clear(vf::flip());
  case 11:
    return w.element(0, vf::flip());
  case 12:
    if (!w.ok(w.mc[0].m)) {
      vf::prune();
    }
    return w.freeze(0, 0);
  case 13:
    return w.clone(0, vf::flip());
  case 14:
    return w.setMembers(w.liveMC(), vf::flip());
  case 15:
    return w.addVec(w.liveMC());
  case 16:
    return w.moveAssign(1, 0);
  case 17:
    return w.copyMC(0, 1);
  }
}
// what each collection stores is what it contains
void stored(World& w) {
  for (int k = 0; k < 2; ++k) {
    auto& s = w.cc[k];
    auto& st = w.mcoll[s.st];
    bool can = true;
    for (int m : st.objs) {
      can = can && w.ok(m);
    }
    if (!can) {
      continue;
    }
    vf::trace("write cc%d", k);
    auto sc = store(*s.c, "x");
    VF_EQ(sc.subset, st.subset, "stored-subset");
    if (st.subset) {
      VF_EQ(sc.refs.size(), 1u, "stored-subset");
      VF_EQ(sc.refs[0].size(), st.objs.size(), "stored-size");
      for (size_t i = 0; i < st.objs.size(); ++i) {
        VF_ASSERT(sc.refs[0][i] == w.idOf(st.objs[i]), "stored-subset");
      }
    } else {
      auto* rows = static_cast<std::vector<ClusterData>*>(sc.data.vec.get());
      VF_EQ(rows->size(), st.objs.size(), "stored-size");
      for (size_t i = 0; i < st.objs.size(); ++i) {
        VF_EQ((*rows)[i].energy, w.mo[st.objs[i]].energy, "stored-member");
        VF_EQ((*rows)[i].kind, w.mo[st.objs[i]].kind, "stored-member");
      }
    }
  }
}
} // namespace
VF_SCENARIO(ownership, 5, 6) {
  World w;
  vf::run(w, ownOps, [&] {
    stored(w);
    w.verify();
  });
}
template <class LC>
void linkOps(LinkWorld<LC>& w) {
  switch (vf::choose(14)) {
  case 0:
    return w.newWeighted();
  case 1:
    return w.create(0);
  case 2:
    return w.create(1);
  case 3:
    return w.push(0, true);
  case 4:
    return w.push(1, true);
  case 5:
    return w.push(0, false);
  case 6:
    return w.push(1, false);
  case 7:
    return w.setSubset(0, vf::flip());
  case 8:
    return w.setSubset(1, vf::flip());
  case 9:
    return w.clear(vf::flip());
  case 10:
    return w.freeze();
  case 11:
    return w.clone(vf::flip(), vf::flip());
  case 12:
    return w.moveAssign(1, 0);
  case 13:
    return w.copy();
  }
}
VF_SCENARIO(link_ownership, 4, 6) {
  LinkWorld<HCLinkColl> w;
  vf::run(w, linkOps<HCLinkColl>);
}
// collections out of a Frame, new or read back, are readable in full, and their
// objects cannot be taken by another collection
VF_SCENARIO(from_frame, 1, 1) {
  const bool readBack = vf::flip();
  const bool subsetFirst = vf::flip();
  podio::Frame f;
  {
    HitCollection hc;
    ClusterCollection cc, sub;
    CCLinkColl lc;
    podio::UserDataCollection<float> ud;
    sub.setSubsetCollection();
    hc.create().energy(3);
    for (int i = 0; i < 3; ++i) {
      auto c = cc.create(1.0 + i, i);
      c.addhits(hc[0]);
      c.addcounts(7 * i);
      ud.push_back(static_cast<float>(i));
      if (i != 1) {
        sub.push_back(c);
      }
    }
    cc[0].addsubs(cc[2]);
    auto l = lc.create();
    l.setFrom(cc[0]);
    l.setTo(cc[2]);
    f.put(std::move(hc), "hits");
    f.put(std::move(cc), "clusters");
    f.put(std::move(sub), "sub");
    f.put(std::move(lc), "links");
    f.put(std::move(ud), "ud");
  }
  std::vector<std::string> names = {"hits", "clusters", "sub", "links", "ud"};
  if (readBack) {
    f = makeFrame(storeFrame(f, names));
  }
  if (subsetFirst) {
    f.get("sub");
  }
  std::string before;
  for (auto& n : names) {
    before += describe(f.get(n));
  }
  const auto& cc = f.get<ClusterCollection>("clusters");
  const auto& sub = f.get<ClusterCollection>("sub");
  const auto& lc = f.get<CCLinkColl>("links");
  // what a Frame hands out has immutable elements, and those have no setters
  VF_ASSERT((std::is_same_v<decltype(cc[0]), Cluster> && std::is_same_v<decltype(cc.at(0)), Cluster> &&
             std::is_same_v<decltype(*cc.begin()), Cluster> && std::is_same_v<decltype(lc[0]), ClusterClusterLink>),
            "mutable-access-to-frame");
  VF_ASSERT(!settable<Cluster>() && settable<MutableCluster>(), "mutable-access-to-frame");
  VF_ASSERT(!weightSettable<ClusterClusterLink>() && weightSettable<MutableClusterClusterLink>(), "mutable-access-to-frame");
  VF_ASSERT((!std::is_convertible_v<Cluster, MutableCluster> && !std::is_constructible_v<MutableCluster, Cluster>), "mutable-access-to-frame");
  VF_EQ(cc.size(), 3u, "frame-collection-size");
  VF_EQ(sub.size(), 2u, "frame-collection-size");
  for (size_t i = 0; i < 3; ++i) {
    VF_EQ(cc[i].energy(), 1.0 + static_cast<double>(i), "frame-member");
    VF_EQ(cc[i].counts(0), 7 * static_cast<int>(i), "frame-vector");
    VF_EQ(cc[i].hits(0).energy(), 3., "frame-relation");
    VF_ASSERT(cc[i] == cc.at(i), "frame-access");
    // an object of the Frame cannot go into an owning collection
    ClusterCollection other;
    VF_THROWS(std::invalid_argument, other.push_back(cc[i]), "push-refusal");
    VF_EQ(other.size(), 0u, "push-refusal");
    // but into a subset collection
    ClusterCollection s2;
    s2.setSubsetCollection();
    VF_NOTHROW(s2.push_back(cc[i]), "subset-push");
    VF_ASSERT(s2[0] == cc[i], "subset-push");
    VF_THROWS(std::logic_error, s2.create(), "create-in-subset");
    VF_THROWS(std::logic_error, s2.setSubsetCollection(false), "subset-refusal");
    // and its clone belongs to nobody
    auto cl = cc[i].clone();
    VF_ASSERT(cl.getObjectID() == podio::ObjectID{}, "clone-owned");
    VF_THROWS(std::invalid_argument, s2.push_back(cl), "subset-push-untracked");
    VF_EQ(s2.size(), 1u, "subset-push-untracked");
    VF_NOTHROW(other.push_back(cl), "clone-owned");
    VF_ASSERT(cl.getObjectID().index == 0, "clone-owned");
  }
  VF_ASSERT(sub[1] == cc[2] && sub[0] == cc[0], "frame-subset");
  VF_ASSERT(lc[0].getFrom() == cc[0] && lc[0].getTo() == cc[2], "frame-link");
  std::string after;
  for (auto& n : names) {
    after += describe(f.get(n));
  }
  VF_EQ(after, before, "frame-contents-changed");
  vf::step(40);
  vf::state(before);
}
// the same rules for links
VF_SCENARIO(links, 3, 4) {
  LinkWorld<HCLinkColl> w;
  vf::run(w, [](auto& x) { x.op(vf::choose(LinkWorld<HCLinkColl>::nOps)); });
}
namespace {
// building a collection from a range of which one cannot be taken: kinds of
// elements are 0 new, 1 in another collection, 2 the same as the one before
template <class C>
void fromRefused() {
  using Mut = typename C::mutable_type;
  C other;
  const int n = 1 + vf::choose(4);
  std::vector<int> kinds;
  bool refused = false, newBefore = false;
  const bool imm = vf::flip();
  std::vector<Mut> v;
  v.reserve(4);
  int firstBad = -1;
  for (int i = 0; i < n; ++i) {
    kinds.push_back(vf::choose(i ? 3 : 2));
    if (kinds[i] == 0) {
      v.emplace_back();
    } else if (kinds[i] == 1) {
      v.push_back(other.create());
    } else {
      v.push_back(v.back());
    }
    const bool bad = imm ? v[i].getObjectID().index < 0 : kinds[i] != 0;
    if (bad && firstBad < 0) {
      firstBad = i;
      refused = true;
    }
  }
  vf::trace("%s from %d elements, first bad %d", imm ? "immutable" : "mutable", n, firstBad);
  newBefore = !imm && firstBad > 0;
  std::vector<typename C::value_type> iv(v.begin(), v.end());
  std::vector<podio::ObjectID> ids;
  for (auto& h : v) {
    ids.push_back(h.getObjectID());
  }
  const long before = vf::live();
  bool thrown = false;
  try {
    C c = imm ? C::from(iv) : C::from(v);
    VF_EQ(c.size(), v.size(), "from-size");
    VF_EQ(c.isSubsetCollection(), imm, "from-kind");
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  VF_EQ(thrown, refused, "from-refusal");
  vf::step();
  vf::state((imm ? "i" : "m") + vf::show(firstBad) + "/" + vf::show(n) + typeid(C).name());
  if (!refused) {
    return;
  }
  if (vf::live() != before) {
    vf::noLeakCheck();
    if (newBefore) {
      vf::failf("new-object-freed", "an object that came before the refused one is freed, its handles dangle");
    }
    vf::failf("from-allocations", "a refused range changed the number of live allocations by %ld", vf::live() - before);
  }
  for (size_t i = 0; i < v.size(); ++i) {
    VF_ASSERT(v[i].isAvailable() && v[i].getObjectID() == ids[i], "from-changed-object");
  }
  VF_EQ(other.size(), static_cast<size_t>(std::count(kinds.begin(), kinds.end(), 1)), "from-changed-collection");
}
} // namespace
VF_SCENARIO(from_refused, 1, 1) {
  switch (vf::choose(3)) {
  case 0:
    return fromRefused<HitCollection>();
  case 1:
    return fromRefused<ClusterCollection>();
  case 2:
    return fromRefused<CCLinkColl>();
  }
}
