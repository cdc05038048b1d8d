// C18: the link navigator answers exactly what the links say
#include "store.h"
#include "podio/LinkNavigator.h"
#include <algorithm>
#include <optional>
using namespace vfm_;
namespace {
// Objects are known by their energy. Both ends of links are numbers of objects
// in these lists, 0 for none.
template <class Coll>
struct Ends;
struct Objects {
  HitCollection hits;
  ClusterCollection clusters;
  PadCollection pads;
  std::optional<MutableHit> loneHit;
  std::optional<MutableCluster> loneCluster;
  Objects() {
    for (int i = 0; i < 3; ++i) {
      hits.create().energy(10 + i);
      clusters.create().energy(20 + i);
      pads.create().energy(30 + i);
    }
    loneHit.emplace();
    loneHit->energy(15);
    loneCluster.emplace();
    loneCluster->energy(25);
  }
  // the last in each list is never linked
  std::vector<Hit> hitList() const { return {hits[0], hits[1], *loneHit, hits[2]}; }
  std::vector<Cluster> clusterList() const { return {clusters[0], *loneCluster, clusters[1], clusters[2]}; }
  std::vector<AnyObj> anyList() const { return {hits[0], clusters[0], pads[1], hits[2]}; }
};
template <>
struct Ends<HCLinkColl> {
  static auto from(const Objects& o) { return o.hitList(); }
  static auto to(const Objects& o) { return o.clusterList(); }
};
template <>
struct Ends<CCLinkColl> {
  static auto from(const Objects& o) { return o.clusterList(); }
  static auto to(const Objects& o) { return o.clusterList(); }
};
template <>
struct Ends<AHLinkColl> {
  static auto from(const Objects& o) { return o.anyList(); }
  static auto to(const Objects& o) { return o.hitList(); }
};

struct L {
  int from, to;
  float w;
};
using Answer = std::vector<std::pair<double, float>>;
template <class V>
Answer answer(const V& v) {
  Answer r;
  for (const auto& [o, w] : v) {
    if (!o.isAvailable()) {
      r.emplace_back(-1, w);
    } else {
      r.emplace_back(o.energy(), w);
    }
  }
  std::sort(r.begin(), r.end());
  return r;
}
std::string show(const Answer& a) {
  std::string r;
  for (auto& [e, w] : a) {
    r += "(" + num(e) + "," + num(w) + ")";
  }
  return r;
}
void same(const Answer& got, const Answer& want, const char* key, double e) {
  if (got != want) {
    vf::failf(key, "object %g: got %s, expected %s", e, show(got).c_str(), show(want).c_str());
  }
  vf::step();
}

template <class C>
void ask(const C& coll, const std::vector<L>& links, const Objects& objs) {
  podio::LinkNavigator<C> nav(coll);
  auto check = [&](const podio::LinkNavigator<C>& n) {
    const auto from = Ends<C>::from(objs);
    const auto to = Ends<C>::to(objs);
    for (size_t i = 0; i < from.size(); ++i) {
      Answer want;
      for (auto& l : links) {
        if (l.from == static_cast<int>(i) + 1) {
          want.emplace_back(l.to ? to[l.to - 1].energy() : -1, l.w);
        }
      }
      std::sort(want.begin(), want.end());
      const double e = from[i].energy();
      same(answer(n.getLinkedTo(from[i])), want, "linked-to", e);
      same(answer(n.getLinked(from[i], podio::ReturnTo)), want, "linked-to-tag", e);
      // identity, not only the values
      for (const auto& [o, w] : n.getLinkedTo(from[i])) {
        if (o.isAvailable()) {
          VF_ASSERT(std::find(to.begin(), to.end(), o) != to.end(), "linked-identity");
        }
      }
      if constexpr (!std::is_same_v<typename C::from_type, typename C::to_type> && !std::is_same_v<C, AHLinkColl>) {
        same(answer(n.getLinked(from[i])), want, "linked", e);
        auto m = from[i].clone(); // another object
        same(answer(n.getLinked(m)), {}, "linked-mutable", e);
      }
      if constexpr (std::is_same_v<C, AHLinkColl>) {
        same(answer(n.getLinked(from[i])), want, "linked", e);
        if (from[i].template isA<Hit>()) {
          same(answer(n.getLinkedTo(from[i].template as<Hit>())), want, "linked-to", e);
        }
      }
    }
    for (size_t i = 0; i < to.size(); ++i) {
      Answer want;
      for (auto& l : links) {
        if (l.to == static_cast<int>(i) + 1) {
          want.emplace_back(l.from ? from[l.from - 1].energy() : -1, l.w);
        }
      }
      std::sort(want.begin(), want.end());
      const double e = to[i].energy();
      same(answer(n.getLinkedFrom(to[i])), want, "linked-from", e);
      same(answer(n.getLinked(to[i], podio::ReturnFrom)), want, "linked-from-tag", e);
      for (const auto& [o, w] : n.getLinkedFrom(to[i])) {
        if (o.isAvailable()) {
          VF_ASSERT(std::find(from.begin(), from.end(), o) != from.end(), "linked-identity");
        }
      }
      if constexpr (!std::is_same_v<typename C::from_type, typename C::to_type>) {
        same(answer(n.getLinked(to[i])), want, "linked", e);
      }
    }
    // an object that only looks the same
    auto other = objs.hits[0].clone();
    auto otherC = objs.clusters[0].clone();
    if constexpr (std::is_same_v<C, HCLinkColl>) {
      same(answer(n.getLinked(other)), {}, "equal-values", 0);
      same(answer(n.getLinked(otherC)), {}, "equal-values", 0);
    } else if constexpr (std::is_same_v<C, CCLinkColl>) {
      same(answer(n.getLinkedTo(otherC)), {}, "equal-values", 0);
      same(answer(n.getLinkedFrom(otherC)), {}, "equal-values", 0);
      same(answer(n.getLinked(otherC, podio::ReturnTo)), {}, "equal-values", 0);
      same(answer(n.getLinked(otherC, podio::ReturnFrom)), {}, "equal-values", 0);
    } else {
      same(answer(n.getLinkedTo(AnyObj(other))), {}, "equal-values", 0);
      same(answer(n.getLinkedFrom(other)), {}, "equal-values", 0);
    }
  };
  check(nav);
  podio::LinkNavigator<C> copy(nav);
  check(copy);
  podio::LinkNavigator<C> moved(std::move(copy));
  check(moved);
  C none;
  podio::LinkNavigator<C> assigned(none);
  assigned = nav;
  check(assigned);
  assigned = podio::LinkNavigator<C>(none);
  for (auto& o : Ends<C>::from(objs)) {
    same(answer(assigned.getLinkedTo(o)), {}, "no-links", 0);
  }
}
template <class C>
void graphs(int maxFrom, int maxTo) {
  Objects objs;
  const auto from = Ends<C>::from(objs);
  const auto to = Ends<C>::to(objs);
  C coll;
  std::vector<L> links;
  int code = 0;
  for (int i = 0; i < vf::depth(); ++i) {
    // 0 stops
    if (i && vf::flip()) {
      break;
    }
    // links are a multiset, the order in the collection is varied as well
    L l{vf::choose(maxFrom + 1), vf::choose(maxTo + 1), vf::flip() ? 1.f : 0.5f + static_cast<float>(i)};
    auto h = coll.create();
    if (l.from) {
      if constexpr (!std::is_same_v<typename C::from_type, typename C::to_type>) {
        h.set(from[l.from - 1]);
      } else {
        h.setFrom(from[l.from - 1]);
      }
    }
    if (l.to) {
      h.setTo(to[l.to - 1]);
    }
    h.setWeight(l.w);
    links.push_back(l);
    code = code * 32 + l.from * 8 + l.to * 2 + (l.w == 1.f);
    vf::trace("link %d -> %d weight %g", l.from, l.to, l.w);
  }
  vf::state(code * 8 + static_cast<int>(sizeof(typename C::from_type)) + 1000003ull * sizeof(C));
  ask(coll, links, objs);
  // subsets of it
  C sub;
  sub.setSubsetCollection();
  std::vector<L> chosen;
  for (size_t i = 0; i < links.size(); ++i) {
    if (i % 2 == 0) {
      sub.push_back(std::as_const(coll)[i]);
      chosen.push_back(links[i]);
    }
  }
  ask(sub, chosen, objs);
}
} // namespace
VF_SCENARIO(hit_to_cluster, 4, 5) { graphs<HCLinkColl>(2, 2); }
VF_SCENARIO(same_types, 4, 5) { graphs<CCLinkColl>(2, 2); }
VF_SCENARIO(interface_end, 4, 5) { graphs<AHLinkColl>(3, 1); }

// from a Frame and after reading back
namespace {
template <class C>
void stored() {
  podio::Frame f;
  Objects objs;
  C coll;
  std::vector<L> links;
  const int n = vf::choose(3);
  // only objects that are stored
  auto pick = [](auto v) {
    std::erase_if(v, [](const auto& x) { return x.id().index < 0; });
    return v;
  };
  const auto from = pick(Ends<C>::from(objs));
  const auto to = pick(Ends<C>::to(objs));
  for (int i = 0; i < n; ++i) {
    L l{vf::choose(3), vf::choose(3), 0.5f + static_cast<float>(i)};
    auto h = coll.create();
    if (l.from) {
      h.setFrom(from[l.from - 1]);
    }
    if (l.to) {
      h.setTo(to[l.to - 1]);
    }
    h.setWeight(l.w);
    links.push_back(l);
  }
  C sub;
  sub.setSubsetCollection();
  const int mask = vf::choose(1 << n);
  for (int i = 0; i < n; ++i) {
    if (mask & (1 << i)) {
      sub.push_back(std::as_const(coll)[i]);
    }
  }
  f.put(std::move(objs.hits), "h");
  f.put(std::move(objs.clusters), "c");
  f.put(std::move(objs.pads), "p");
  f.put(std::move(coll), "l");
  f.put(std::move(sub), "s");
  auto check = [&](podio::Frame& g, bool subset, const char* key) {
    const auto& lc = g.get<C>(subset ? "s" : "l");
    podio::LinkNavigator<C> nav(lc);
    podio::LinkNavigator<C> nav2 = nav;
    const auto& h = g.get<HitCollection>("h");
    const auto& c = g.get<ClusterCollection>("c");
    const auto& p = g.get<PadCollection>("p");
    auto each = [&](const auto& o) {
      Answer wantTo, wantFrom;
      for (int i = 0; i < n; ++i) {
        if (subset && !(mask & (1 << i))) {
          continue;
        }
        auto& l = links[i];
        if (l.from && from[l.from - 1].energy() == o.energy()) {
          wantTo.emplace_back(l.to ? to[l.to - 1].energy() : -1, l.w);
        }
        if (l.to && to[l.to - 1].energy() == o.energy()) {
          wantFrom.emplace_back(l.from ? from[l.from - 1].energy() : -1, l.w);
        }
      }
      std::sort(wantTo.begin(), wantTo.end());
      std::sort(wantFrom.begin(), wantFrom.end());
      if constexpr (std::is_constructible_v<typename C::from_type, decltype(o)>) {
        same(answer(nav.getLinkedTo(typename C::from_type(o))), wantTo, key, o.energy());
        same(answer(nav2.getLinkedTo(typename C::from_type(o))), wantTo, key, o.energy());
      }
      if constexpr (std::is_constructible_v<typename C::to_type, decltype(o)>) {
        same(answer(nav.getLinkedFrom(typename C::to_type(o))), wantFrom, key, o.energy());
      }
    };
    for (auto o : h) {
      each(o);
    }
    for (auto o : c) {
      each(o);
    }
    for (auto o : p) {
      each(o);
    }
  };
  check(f, false, "in-frame");
  check(f, true, "in-frame-subset");
  auto st = storeFrame(f, {"h", "c", "p", "l", "s"});
  const int order = vf::choose(2);
  auto g = makeFrame(st);
  check(g, order, "read-back");
  check(g, !order, "read-back");
  std::string code = std::to_string(mask) + typeid(C).name();
  for (auto& l : links) {
    code += std::to_string(l.from) + std::to_string(l.to);
  }
  vf::state(code);
}
} // namespace
VF_SCENARIO(stored_links, 1, 1) {
  switch (vf::choose(3)) {
  case 0:
    return stored<HCLinkColl>();
  case 1:
    return stored<CCLinkColl>();
  default:
    return stored<AHLinkColl>();
  }
}
