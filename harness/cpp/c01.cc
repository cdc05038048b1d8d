// C01: a Frame as a container of named collections
#include "store.h"
using namespace vfm_;

namespace {
const char* const NAMES[] = {"a", "b", "some_other_name"};
struct Entry {
  std::string type;
  const podio::CollectionBase* ptr{nullptr}; // once known
  std::string content;                       // description as put / stored
};

HitCollection makeHits(int tag) {
  HitCollection c;
  for (int i = 0; i <= tag % 3; ++i) {
    auto h = c.create();
    h.cellID(1000 * tag + i);
    h.energy(tag + 0.25);
  }
  return c;
}
ClusterCollection makeClusters(int tag) {
  ClusterCollection c;
  for (int i = 0; i <= tag % 2; ++i) {
    auto k = c.create();
    k.kind(tag * 10 + i);
    k.energy(-tag);
    k.addcounts(tag);
  }
  return c;
}
std::string brief(const podio::CollectionBase* c) {
  // content without the collection ID (set by the Frame)
  std::string r{c->getTypeName()};
  if (auto* h = dynamic_cast<const HitCollection*>(c)) {
    for (auto e : *h) {
      r += " " + plain(e);
    }
  } else if (auto* k = dynamic_cast<const ClusterCollection*>(c)) {
    for (auto e : *k) {
      r += " " + plain(e) + rangeStr(e.counts_size(), [&](size_t i) { return num(e.counts(i)); }) +
          rangeStr(e.hits_size(), [&](size_t i) { return plain(e.hits(i)); });
    }
  }
  return r;
}

struct World {
  podio::Frame f;
  std::map<std::string, Entry> model;

  void known(const std::string& n, const podio::CollectionBase* p) {
    auto& e = model[n];
    if (e.ptr) {
      VF_ASSERT(p == e.ptr, "address-changed");
    }
    e.ptr = p;
    VF_EQ(brief(p), e.content, "contents-differ");
    VF_EQ(std::string(p->getTypeName()), e.type, "type-differs");
    auto nm = f.getName(*p);
    VF_ASSERT(nm.has_value(), "name-unknown");
    VF_EQ(*nm, n, "name-differs");
    auto nm2 = f.getName(p->getID());
    VF_ASSERT(nm2 && *nm2 == n, "name-differs");
    if (auto* h = dynamic_cast<const HitCollection*>(p)) {
      for (size_t i = 0; i < h->size(); ++i) {
        VF_EQ(str((*h)[i].id()), str(podio::ObjectID{static_cast<int>(i), p->getID()}), "element-id");
      }
    }
  }
  void list() {
    auto l = f.getAvailableCollections();
    std::sort(l.begin(), l.end());
    std::vector<std::string> want;
    for (auto& [n, _] : model) {
      want.push_back(n);
    }
    std::string a, b;
    for (auto& x : l) {
      a += x + " ";
    }
    for (auto& x : want) {
      b += x + " ";
    }
    VF_EQ(a, b, "list-differs");
  }
  void get(const std::string& n) {
    const auto* p = f.get(n);
    if (!model.count(n)) {
      VF_ASSERT(p == nullptr, "absent-name-found");
    } else {
      VF_ASSERT(p != nullptr, "available-name-not-found");
      known(n, p);
    }
  }
  template <class C>
  void getTyped(const std::string& n) {
    const bool ok = model.count(n) && model[n].type == C::typeName;
    const C* p = nullptr;
    const bool threw = vf::throws<std::runtime_error>([&] { p = &f.get<C>(n); }, "typed-get-wrong-exception");
    if (ok) {
      VF_ASSERT(!threw, "available-name-not-found");
      known(n, p);
    } else {
      VF_ASSERT(threw, "typed-get-did-not-throw");
    }
  }
  void put(const std::string& n, int kind, int tag) {
    Entry e;
    const podio::CollectionBase* p = nullptr;
    bool threw = false;
    if (kind == 0) {
      auto c = makeHits(tag);
      e.type = HitCollection::typeName;
      e.content = brief(&c);
      threw = vf::throws<std::invalid_argument>([&] { p = &f.put(std::move(c), n); }, "put-wrong-exception");
    } else {
      auto c = std::make_unique<ClusterCollection>(makeClusters(tag));
      e.type = ClusterCollection::typeName;
      e.content = brief(c.get());
      const podio::CollectionBase* raw = c.get();
      threw = vf::throws<std::invalid_argument>([&] { f.put(std::move(c), n); }, "put-wrong-exception");
      p = raw;
    }
    if (model.count(n)) {
      VF_ASSERT(threw, "put-over-existing-name-accepted");
      return; // later operations see whether anything changed
    }
    VF_ASSERT(!threw, "put-refused");
    model[n] = e;
    known(n, p);
  }
  void checkAll() {
    list();
    for (auto* n : NAMES) {
      get(n);
      getTyped<HitCollection>(n);
      getTyped<ClusterCollection>(n);
    }
    get("never_there");
    VF_ASSERT(!f.getName(0x12345678u), "unknown-id-has-name");
    list();
  }
};

void ops(World& w, int depth) {
  for (int d = 0; d < depth; ++d) {
    vf::step();
    const int op = vf::choose(10);
    switch (op) {
    case 0:
    case 1: {
      auto* n = vf::pick(NAMES);
      vf::trace("put %s kind %d tag %d", n, op, d + 1);
      w.put(n, op, d + 1);
      break;
    }
    case 2: {
      auto* n = vf::pick(NAMES);
      vf::trace("get %s", n);
      w.get(n);
      break;
    }
    case 3: {
      auto* n = vf::pick(NAMES);
      vf::trace("get<HitCollection> %s", n);
      w.getTyped<HitCollection>(n);
      break;
    }
    case 4: {
      auto* n = vf::pick(NAMES);
      vf::trace("get<ClusterCollection> %s", n);
      w.getTyped<ClusterCollection>(n);
      break;
    }
    case 5:
      vf::trace("list");
      w.list();
      break;
    case 6: {
      vf::trace("move construct");
      podio::Frame g(std::move(w.f));
      w.f = std::move(g);
      break;
    }
    case 7: {
      vf::trace("move assign over a filled frame");
      podio::Frame g;
      g.put(makeHits(7), "a");
      g.put(makeHits(8), "other");
      g = std::move(w.f);
      w.f = std::move(g);
      break;
    }
    case 8:
      vf::trace("get never_there");
      w.get("never_there");
      break;
    case 9: {
      auto* n = vf::pick(NAMES);
      vf::trace("getCollectionForWrite %s", n);
      const auto* p = w.f.getCollectionForWrite(n);
      if (w.model.count(n)) {
        VF_ASSERT(p != nullptr, "available-name-not-found");
        w.known(n, p);
      } else {
        VF_ASSERT(p == nullptr, "absent-name-found");
      }
      break;
    }
    }
    std::string st;
    for (auto& [n, e] : w.model) {
      st += n + "=" + e.content + (e.ptr ? "!" : "?") + ";";
    }
    vf::state(st);
  }
  w.checkAll();
}

std::shared_ptr<const Stored> stored(bool refs) {
  podio::Frame f;
  auto hits = makeHits(4);
  ClusterCollection cl = makeClusters(5);
  if (refs) {
    cl[0].addhits(hits[0]);
    cl[0].addhits(hits[1]);
  }
  f.put(std::move(hits), "a");
  f.put(std::move(cl), "b");
  f.put(makeHits(6), "not_stored");
  return storeFrame(f, {"a", "b"});
}
} // namespace

VF_SCENARIO(inMemory, 4, 5) {
  World w;
  ops(w, vf::depth());
}

VF_SCENARIO(fromData, 4, 5) {
  World w;
  {
    auto s = stored(true);
    w.f = makeFrame(s);
  }
  {
    auto h = makeHits(4);
    auto c = makeClusters(5);
    c[0].addhits(h[0]);
    c[0].addhits(h[1]);
    w.model["a"] = {std::string(HitCollection::typeName), nullptr, brief(&h)};
    w.model["b"] = {std::string(ClusterCollection::typeName), nullptr, brief(&c)};
  }
  ops(w, vf::depth());
}

// a collection that the ID table knows but that is not stored is not available
VF_SCENARIO(knownButMissing, 3, 4) {
  auto s = stored(false);
  World w;
  w.f = makeFrame(s, {"a"});
  {
    auto c = makeClusters(5);
    w.model["b"] = {std::string(ClusterCollection::typeName), nullptr, brief(&c)};
  }
  ops(w, vf::depth());
}

// many collections: addresses stay, names and listing stay right
VF_SCENARIO(many, 1, 1) {
  const int sizes[] = {1, 2, 13, 64, 300};
  const int n = vf::pick(sizes);
  const bool fromData = vf::flip();
  podio::Frame f;
  std::vector<const podio::CollectionBase*> ptrs;
  auto name = [](int i) { return std::string("collection_") + std::to_string(i * 7919) + (i % 2 ? "" : "_with_a_rather_long_name"); };
  for (int i = 0; i < n; ++i) {
    ptrs.push_back(&f.put(makeHits(i), name(i)));
    vf::step();
  }
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) {
    names.push_back(name(i));
  }
  if (fromData) {
    auto s = storeFrame(f, names);
    f = makeFrame(s);
    ptrs.clear();
    for (int i = 0; i < n; ++i) {
      ptrs.push_back(f.get(name(i)));
    }
  }
  std::set<uint32_t> ids;
  for (int i = 0; i < n; ++i) {
    auto want = makeHits(i);
    VF_ASSERT(ptrs[i] != nullptr, "available-name-not-found");
    VF_ASSERT(f.get(name(i)) == ptrs[i], "address-changed");
    VF_EQ(brief(ptrs[i]), brief(&want), "contents-differ");
    VF_ASSERT(f.getName(*ptrs[i]) == name(i), "name-differs");
    ids.insert(ptrs[i]->getID());
  }
  VF_EQ(ids.size(), static_cast<size_t>(n), "ids-not-distinct");
  auto l = f.getAvailableCollections();
  std::sort(l.begin(), l.end());
  std::sort(names.begin(), names.end());
  VF_ASSERT(l == names, "list-differs");
  vf::state(std::to_string(n) + (fromData ? "d" : "m"));
}

// odd names
VF_SCENARIO(oddNames, 1, 1) {
  const std::string odd[] = {"x", " ", "with space", "\xc3\xa9t\xc3\xa9", std::string(200, 'q'), "a.b::c/d", "A", "_", std::string("nul\0x", 5), "9"};
  const int i = vf::choose(10);
  const int j = vf::choose(10);
  const bool fromData = vf::flip();
  if (i == j) {
    return;
  }
  podio::Frame f;
  f.put(makeHits(1), odd[i]);
  f.put(makeClusters(2), odd[j]);
  if (fromData) {
    auto s = storeFrame(f, {odd[i], odd[j]});
    f = makeFrame(s);
  }
  vf::step(2);
  auto h = makeHits(1);
  auto c = makeClusters(2);
  auto check = [&](const std::string& n, const podio::CollectionBase* want) {
    const auto* p = f.get(n);
    VF_ASSERT(p != nullptr, "available-name-not-found");
    VF_EQ(brief(p), brief(want), "contents-differ");
    VF_ASSERT(f.getName(*p) == n, "name-differs");
  };
  check(odd[i], &h);
  check(odd[j], &c);
  VF_THROWS(std::invalid_argument, f.put(makeHits(3), odd[i]), "put-over-existing-name-accepted");
  for (int k = 0; k < 10; ++k) {
    if (k != i && k != j) {
      VF_ASSERT(f.get(odd[k]) == nullptr, "absent-name-found");
    }
  }
  VF_EQ(f.getAvailableCollections().size(), size_t(2), "list-differs");
  vf::state(std::to_string(i * 10 + j));
}

// every kind of collection
VF_SCENARIO(kinds, 1, 1) {
  const bool fromData = vf::flip();
  podio::Frame f;
  const auto& hits = f.put(makeHits(2), "hits");
  const auto& cl = f.put(makeClusters(3), "clusters");
  HitCollection sub;
  sub.setSubsetCollection();
  sub.push_back(hits[2]);
  sub.push_back(hits[0]);
  const std::string subName = "sub", linkName = "links", udName = "ud", trName = "tracks";
  const auto* ps = &f.put(std::move(sub), subName);
  HCLinkColl links;
  auto l = links.create();
  l.setFrom(hits[1]);
  l.setTo(cl[0]);
  l.setWeight(0.5f);
  const auto* pl = &f.put(std::move(links), linkName);
  podio::UserDataCollection<double> ud(std::vector<double>{1, 2.5, -3});
  const auto* pu = &f.put(std::move(ud), udName);
  TrackCollection tr;
  tr.create().addthings(hits[0]);
  const auto* pt = &f.put(std::move(tr), trName);
  std::map<std::string, std::string> want;
  const char* all[] = {"hits", "clusters", "sub", "links", "ud", "tracks"};
  for (auto* n : all) {
    want[n] = describe(f.get(n));
  }
  VF_ASSERT(f.get("sub") == ps && f.get("links") == pl && f.get("ud") == pu && f.get("tracks") == pt, "address-changed");
  if (fromData) {
    auto s = storeFrame(f, {"hits", "clusters", "sub", "links", "ud", "tracks"});
    f = makeFrame(s);
  }
  const char* first = vf::pick(all);
  vf::trace("first %s", first);
  VF_EQ(describe(f.get(first)), want[first], "contents-differ");
  for (auto* n : all) {
    VF_EQ(describe(f.get(n)), want[n], "contents-differ");
    VF_ASSERT(f.getName(*f.get(n)) == std::string(n), "name-differs");
    vf::step();
  }
  VF_ASSERT(f.get<HitCollection>("sub").isSubsetCollection(), "subset-lost");
  VF_EQ(f.get<podio::UserDataCollection<double>>("ud").size(), size_t(3), "contents-differ");
  VF_THROWS(std::runtime_error, f.get<podio::UserDataCollection<float>>("ud"), "typed-get-did-not-throw");
  VF_THROWS(std::runtime_error, f.get<CCLinkColl>("links"), "typed-get-did-not-throw");
  VF_EQ(f.getAvailableCollections().size(), size_t(6), "list-differs");
}

VF_SCENARIO(nullData, 1, 1) {
  VF_THROWS(std::invalid_argument, podio::Frame(std::unique_ptr<MemFrameData>{}), "null-data-accepted");
  VF_THROWS(std::invalid_argument, podio::Frame(std::unique_ptr<podio::detail::EmptyFrameData>{}), "null-data-accepted");
  vf::step(2);
}
