// C07: any object graph survives preparing for writing and reading back
#include "store.h"
#include <algorithm>
#include <limits>
#include <optional>
using namespace vfm_;
namespace {
// ------------------------------------------------ identity of relation targets
template <class C>
const C* collOf(const podio::Frame& f, const std::string& n) {
  return dynamic_cast<const C*>(f.get(n));
}
// every handle with an ID is the element of the collection with that ID
template <class T>
void isElement(const podio::Frame& f, const T& h, const char* what) {
  if (!h.isAvailable()) {
    return;
  }
  const auto id = h.id();
  auto name = f.getName(id.collectionID);
  if (!name) {
    vf::failf("target-unknown", "%s has ID %s", what, str(id).c_str());
  }
  const auto* b = f.get(*name);
  auto cmp = [&](const auto* c) {
    VF_ASSERT(id.index >= 0 && static_cast<size_t>(id.index) < c->size(), "target-index");
    if (!(h == (*c)[id.index])) {
      vf::failf("target-identity", "%s with ID %s is another object", what, str(id).c_str());
    }
  };
  if constexpr (std::is_same_v<T, AnyObj>) {
    if (h.template isA<Hit>()) {
      cmp(dynamic_cast<const HitCollection*>(b));
    } else if (h.template isA<Cluster>()) {
      cmp(dynamic_cast<const ClusterCollection*>(b));
    } else {
      cmp(dynamic_cast<const PadCollection*>(b));
    }
  } else {
    const auto* c = dynamic_cast<const typename T::collection_type*>(b);
    VF_ASSERT(c != nullptr, "target-type");
    cmp(c);
  }
}
void identities(const podio::Frame& f, const std::vector<std::string>& names) {
  for (auto& n : names) {
    const auto* b = f.get(n);
    if (auto* c = dynamic_cast<const ClusterCollection*>(b)) {
      for (auto x : *c) {
        for (auto y : x.hits()) {
          isElement(f, y, "hits");
        }
        for (auto y : x.subs()) {
          isElement(f, y, "subs");
        }
        isElement(f, x.seed(), "seed");
        isElement(f, x.parent(), "parent");
        isElement(f, x, "element");
      }
    } else if (auto* t = dynamic_cast<const TrackCollection*>(b)) {
      for (auto x : *t) {
        for (auto y : x.things()) {
          isElement(f, y, "things");
        }
        for (auto y : x.next()) {
          isElement(f, y, "next");
        }
        isElement(f, x.best(), "best");
        isElement(f, x, "element");
      }
    } else if (auto* h = dynamic_cast<const HitCollection*>(b)) {
      for (auto x : *h) {
        isElement(f, x, "element");
      }
    } else if (auto* l = dynamic_cast<const AHLinkColl*>(b)) {
      for (auto x : *l) {
        isElement(f, x.getFrom(), "from");
        isElement(f, x.getTo(), "to");
      }
    }
  }
}
std::string all(const podio::Frame& f, const std::vector<std::string>& names) {
  std::string r;
  for (auto& n : names) {
    r += n + ": " + describe(f.get(n));
  }
  return r;
}
void diff(const char* key, const std::string& got, const std::string& want) {
  if (got != want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) {
      ++i;
    }
    i = got.rfind('\n', i) == std::string::npos ? 0 : got.rfind('\n', i);
    vf::failf(key, "got ...%.500s\nexpected ...%.500s", got.c_str() + std::min(i, got.size()), want.c_str() + std::min(i, want.size()));
  }
}
// writes and reads twice, all must be the same
void roundTrip(podio::Frame& f, const std::vector<std::string>& names) {
  const auto want = all(f, names);
  auto st = storeFrame(f, names);
  diff("preparing-changed", all(f, names), want);
  auto again = storeFrame(f, names);
  diff("prepared-again", show(*again), show(*st));
  auto g = makeFrame(st);
  // reading backwards resolves the relations in another order
  for (size_t i = names.size(); i-- > 0;) {
    (void)g.get(names[i]);
  }
  diff("read-back", all(g, names), want);
  identities(g, names);
  auto st2 = storeFrame(g, names);
  diff("written-again", show(*st2), show(*st));
  auto h = makeFrame(st2);
  diff("second-read-back", all(h, names), want);
  vf::step(5);
  vf::state(want);
}
void fillHits(HitCollection& c, int n, int base) {
  for (int i = 0; i < n; ++i) {
    auto h = c.create();
    h.energy(base + i);
    h.cellID(1000 + base + i);
    h.pos(vf::Vec3{0.5 + i, -1.f * base, static_cast<int16_t>(i)});
    h.idx({i, base, -i});
    h.flag(i % 2);
  }
}
} // namespace
// all relations among two clusters and two hit collections
VF_SCENARIO(cluster_relations, 1, 2) {
  HitCollection h, h2;
  ClusterCollection c;
  fillHits(h, 2, 10);
  fillHits(h2, 1, 20);
  const Hit hs[] = {h[0], h[1], h2[0]};
  for (int i = 0; i < 2; ++i) {
    c.create(1. + i, 5 * i);
  }
  static const std::vector<std::vector<int>> hitLists = {{}, {0}, {2}, {0, 1}, {1, 0}, {0, 0}, {2, 1, 0}};
  static const std::vector<std::vector<int>> subLists = {{}, {0}, {1}, {1, 0}, {0, 1, 1}};
  for (int i = 0; i < 2; ++i) {
    // the quick tier pairs the hit list with the seed
    const int hl = vf::choose(static_cast<int>(hitLists.size()));
    for (int k : hitLists[hl]) {
      c[i].addhits(hs[k]);
    }
    for (int k : vf::pickv(subLists)) {
      c[i].addsubs(c[k]);
    }
    const int seed = vf::choose(4);
    if (seed) {
      c[i].seed(hs[seed - 1]);
    }
    const int parent = vf::choose(3);
    if (parent) {
      c[i].parent(c[parent - 1]);
    }
    for (int k = 0; k < hl % 3; ++k) {
      c[i].addcounts(100 * i + k);
    }
    if (hl % 2) {
      c[i].addpoints(vf::Vec3{1. * i, 2.f, 3});
    }
  }
  podio::Frame f;
  f.put(std::move(c), "c");
  f.put(std::move(h), "h");
  f.put(std::move(h2), "h2");
  roundTrip(f, {"c", "h", "h2"});
}
// vector members of any length in several objects
VF_SCENARIO(vector_members, 2, 3) {
  ClusterCollection c;
  const int n = vf::choose(3) + 1;
  for (int i = 0; i < n; ++i) {
    auto o = c.create();
    o.energy(i);
    const int a = vf::choose(vf::depth() + 1), b = vf::choose(vf::depth() + 1);
    for (int k = 0; k < a; ++k) {
      o.addcounts(k == 0 ? std::numeric_limits<int>::min() : 10 * i + k);
    }
    for (int k = 0; k < b; ++k) {
      o.addpoints(vf::Vec3{i + 0.25, k * 1.5f, static_cast<int16_t>(-k)});
    }
  }
  podio::Frame f;
  f.put(std::move(c), "c");
  roundTrip(f, {"c"});
}
// relations through interfaces, to objects in subset collections, and links
VF_SCENARIO(interfaces_and_links, 1, 2) {
  HitCollection h;
  ClusterCollection c;
  PadCollection p;
  TrackCollection t;
  AHLinkColl l;
  fillHits(h, 2, 10);
  c.create(3., 4);
  p.create(5., 6.f);
  p.create(7., 8.f);
  const AnyObj objs[] = {AnyObj(h[1]), AnyObj(c[0]), AnyObj(p[1]), AnyObj(h[0])};
  static const std::vector<std::vector<int>> lists = {{}, {0}, {1}, {2}, {0, 1}, {1, 2}, {2, 0, 1}, {3, 0}};
  for (int i = 0; i < 2; ++i) {
    auto x = t.create();
    x.chi2(i + 0.5f);
    x.energy(50 + i);
    x.tag(Tag{i, {1, 2, static_cast<short>(i)}, vf::Vec3{1. * i, 0, 0}});
  }
  for (int i = 0; i < 2; ++i) {
    for (int k : vf::pickv(lists)) {
      t[i].addthings(objs[k]);
    }
    const int b = vf::choose(5);
    if (b) {
      t[i].best(objs[b - 1]);
    }
    const int nx = vf::choose(4);
    for (int k = 0; k < nx; ++k) {
      t[i].addnext(t[(i + k + 1) % 2]);
    }
    auto k = l.create();
    k.setWeight(i + 0.25f);
    if (b) {
      k.setFrom(objs[b % 4]);
    }
    if (nx) {
      k.setTo(h[i]);
    }
  }
  podio::Frame f;
  f.put(std::move(h), "h");
  f.put(std::move(l), "l");
  f.put(std::move(t), "t");
  f.put(std::move(c), "c");
  f.put(std::move(p), "p");
  roundTrip(f, {"t", "h", "c", "p", "l"});
}
// subset collections of every content, in every order, and user data
VF_SCENARIO(subsets, 2, 3) {
  HitCollection h;
  ClusterCollection c;
  AHLinkColl l;
  fillHits(h, 2, 10);
  HitCollection h2;
  fillHits(h2, 1, 30);
  for (int i = 0; i < 2; ++i) {
    c.create(i + 1., i);
    c[i].addhits(h[1 - i]);
    auto k = l.create();
    k.setTo(h2[0]);
    k.setFrom(c[i]);
  }
  HitCollection sh;
  ClusterCollection sc;
  AHLinkColl sl;
  TrackCollection st;
  sh.setSubsetCollection();
  sc.setSubsetCollection();
  sl.setSubsetCollection();
  st.setSubsetCollection();
  const int n = vf::choose(vf::depth() + 1);
  for (int i = 0; i < n; ++i) {
    const int k = vf::choose(3);
    k == 2 ? sh.push_back(h2[0]) : sh.push_back(h[k]);
  }
  const int m = vf::choose(vf::depth() + 1);
  for (int i = 0; i < m; ++i) {
    sc.push_back(c[vf::choose(2)]);
  }
  const int q = vf::choose(3);
  for (int i = 0; i < q; ++i) {
    sl.push_back(l[vf::choose(2)]);
  }
  podio::UserDataCollection<double> u(std::vector<double>(n, 1.25 * m));
  podio::UserDataCollection<uint8_t> u2;
  podio::Frame f;
  const bool first = vf::flip();
  if (first) {
    f.put(std::move(sh), "sh");
    f.put(std::move(sc), "sc");
  }
  f.put(std::move(h), "h");
  f.put(std::move(h2), "h2");
  f.put(std::move(c), "c");
  f.put(std::move(l), "l");
  if (!first) {
    f.put(std::move(sh), "sh");
    f.put(std::move(sc), "sc");
  }
  f.put(std::move(sl), "sl");
  f.put(std::move(st), "st");
  f.put(std::move(u), "u");
  f.put(std::move(u2), "u2");
  const std::vector<std::string> names{"sl", "sh", "h", "h2", "u", "c", "l", "sc", "st", "u2"};
  roundTrip(f, names);
  auto g = makeFrame(storeFrame(f, names));
  for (auto& nm : names) {
    VF_EQ(g.get(nm)->isSubsetCollection(), nm[0] == 's', "subset-flag");
  }
  const auto& gs = g.get<HitCollection>("sh");
  for (size_t i = 0; i < gs.size(); ++i) {
    isElement(g, gs[i], "subset element");
  }
  for (auto x : g.get<ClusterCollection>("sc")) {
    isElement(g, x, "subset element");
  }
}
// members of every kind with extreme values
VF_SCENARIO(values, 1, 1) {
  using D = std::numeric_limits<double>;
  using F = std::numeric_limits<float>;
  static const double ds[] = {0., -0., 1.5, D::max(), D::lowest(), D::denorm_min(), D::infinity(), -D::infinity(), D::quiet_NaN()};
  static const uint64_t us[] = {0, 1, ~0ull, 1ull << 63, 1ull << 32};
  static const int16_t ss[] = {0, -1, 32767, -32768};
  HitCollection h;
  TrackCollection t;
  const double d = vf::pick(ds);
  const uint64_t u = vf::pick(us);
  const int16_t s = vf::pick(ss);
  const int pos = vf::choose(3);
  for (int i = 0; i < 3; ++i) {
    auto x = h.create();
    auto y = t.create();
    if (i != pos) {
      continue; // defaults
    }
    x.energy(d);
    x.cellID(u);
    x.pos(vf::Vec3{d, static_cast<float>(s), s});
    x.idx({s, -s, static_cast<int>(u)});
    x.flag(u & 1);
    y.chi2(F::denorm_min());
    y.tag(Tag{s, {s, static_cast<short>(-s), 1}, vf::Vec3{-d, 1, s}});
    y.energy(-d);
  }
  podio::Frame f;
  f.put(std::move(h), "h");
  f.put(std::move(t), "t");
  roundTrip(f, {"h", "t"});
}
// writing is refused because of an object in no collection, and works later on
namespace {
struct Untracked {
  HitCollection h, late;
  ClusterCollection c, lateC;
  TrackCollection t, lateT;
  std::optional<MutableHit> u;
  std::optional<MutableCluster> uc;
  std::optional<MutableTrack> ut;
  bool bad[2]{}; // clusters, tracks
  void build(const std::vector<int>& plan) {
    fillHits(h, 1, 10);
    u.emplace();
    u->energy(77);
    uc.emplace();
    uc->energy(78);
    ut.emplace();
    ut->energy(79);
    h.setID(1);
    late.setID(2);
    c.setID(3);
    lateC.setID(4);
    t.setID(5);
    lateT.setID(6);
    size_t k = 0;
    for (int i = 0; i < 2; ++i) {
      auto x = c.create(1. + i, i);
      x.addcounts(4 + i);
      x.addcounts(5 + i);
      x.addpoints(vf::Vec3{1, 2, 3});
      x.seed(h[0]);
      switch (plan[k++]) {
      case 0:
        x.addhits(h[0]);
        break;
      case 1:
        x.addhits(*u);
        bad[0] = true;
        break;
      case 2:
        x.addhits(h[0]);
        x.addhits(*u);
        bad[0] = true;
        break;
      case 3:
        x.addsubs(*uc);
        bad[0] = true;
        break;
      case 4:
        x.addsubs(c[0]);
        x.addsubs(*uc);
        x.addhits(h[0]);
        bad[0] = true;
        break;
      case 5:
        break;
      }
      auto y = t.create();
      y.energy(60 + i);
      switch (plan[k++]) {
      case 0:
        y.addthings(h[0]);
        break;
      case 1:
        y.addthings(*u);
        bad[1] = true;
        break;
      case 2:
        y.addthings(c[0]);
        y.addthings(*uc);
        bad[1] = true;
        break;
      case 3:
        y.addnext(t[0]);
        y.addnext(*ut);
        bad[1] = true;
        break;
      case 4:
        break;
      }
    }
  }
  void adopt() {
    late.push_back(*u);
    lateC.push_back(*uc);
    lateT.push_back(*ut);
  }
};
bool refused(const podio::CollectionBase& c) {
  try {
    c.prepareForWrite();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
} // namespace
VF_SCENARIO(untracked_refused, 1, 1) {
  std::vector<int> plan{vf::choose(6), vf::choose(5), vf::choose(6), vf::choose(5)};
  const int attempts = vf::choose(3);
  Untracked w, ref;
  w.build(plan);
  ref.build(plan);
  vf::trace("plan %d %d %d %d, %d attempts", plan[0], plan[1], plan[2], plan[3], attempts);
  const auto before = fullColl(w.c) + fullColl(w.t);
  for (int i = 0; i < attempts; ++i) {
    VF_EQ(refused(w.c), w.bad[0], "refusal");
    VF_EQ(refused(w.t), w.bad[1], "refusal");
    vf::step(2);
  }
  diff("refusal-changed", fullColl(w.c) + fullColl(w.t), before);
  w.adopt();
  ref.adopt();
  // collections that were written successfully before hold the old state
  for (auto* pair : {&w}) {
    VF_ASSERT(!refused(pair->c) && !refused(pair->t), "later-writing");
  }
  auto text = [](Untracked& x) {
    return show(store(x.h, "h")) + "\n" + show(store(x.late, "l")) + "\n" + show(store(x.c, "c")) + "\n" + show(store(x.lateC, "lc")) +
        "\n" + show(store(x.t, "t")) + "\n" + show(store(x.lateT, "lt"));
  };
  diff("later-writing", text(w), text(ref));
  vf::step();
  vf::state(text(w) + std::to_string(attempts));
}
// the same in a Frame
VF_SCENARIO(untracked_in_frame, 1, 1) {
  std::vector<int> plan{vf::choose(6), vf::choose(5), vf::choose(6), vf::choose(5)};
  Untracked w;
  w.build(plan);
  podio::Frame f;
  f.put(std::move(w.h), "h");
  f.put(std::move(w.c), "c");
  f.put(std::move(w.t), "t");
  auto tryGet = [&](const char* n) {
    try {
      return f.getCollectionForWrite(n) != nullptr;
    } catch (const std::exception&) {
      return false;
    }
  };
  VF_EQ(tryGet("c"), !w.bad[0], "refusal");
  VF_EQ(tryGet("t"), !w.bad[1], "refusal");
  VF_EQ(tryGet("c"), !w.bad[0], "refusal");
  VF_ASSERT(tryGet("h"), "refusal");
  w.adopt();
  f.put(std::move(w.late), "late");
  f.put(std::move(w.lateC), "lateC");
  f.put(std::move(w.lateT), "lateT");
  roundTrip(f, {"h", "c", "t", "late", "lateC", "lateT"});
}
// links whose ends are in no collection, and any other empty slots
VF_SCENARIO(empty_slots, 1, 1) {
  const int n = vf::choose(4);
  HitCollection h;
  ClusterCollection c;
  TrackCollection t;
  AHLinkColl l;
  PadCollection p;
  for (int i = 0; i < n; ++i) {
    h.create();
    c.create();
    t.create();
    l.create();
  }
  // some of them are used
  for (int i = 0; i < n; ++i) {
    if (vf::flip()) {
      c[i].seed(h[n - 1 - i]);
      t[n - 1 - i].best(c[i]);
      l[i].setFrom(h[i]);
    }
    if (vf::flip()) {
      c[i].parent(c[n - 1]);
      l[n - 1 - i].setTo(h[i]);
    }
  }
  // cleared collections hold nothing of what was before
  if (vf::flip()) {
    c.prepareForWrite();
    c.clear();
    t.clear();
    l.clear();
    c.create().energy(9);
    c[0].addcounts(3);
    t.create().best(c[0]);
    l.create().setFrom(c[0]);
  }
  podio::Frame f;
  f.put(std::move(h), "h");
  f.put(std::move(c), "c");
  f.put(std::move(t), "t");
  f.put(std::move(l), "l");
  f.put(std::move(p), "p");
  roundTrip(f, {"p", "l", "t", "c", "h"});
}
