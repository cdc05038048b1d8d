// Frames with every kind of content, and the comparison of a frame that was read
// with what was written; shared by the checks of the I/O back ends.
#ifndef VF_IOFRAMES_H
#define VF_IOFRAMES_H
#include "store.h"

#include <algorithm>
#include <limits>

using namespace vfm_;
namespace {
using Names = std::vector<std::string>;

// ---------------------------------------------------------------- frames
template <class T>
podio::UserDataCollection<T> values(int n, int s) {
  const T v[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(s), T(0), std::numeric_limits<T>::min()};
  podio::UserDataCollection<T> u;
  for (int i = 0; i < n; ++i) {
    u.push_back(v[(i + s) % 5]);
  }
  return u;
}
podio::Frame graph(int s) {
  HitCollection h, h2, s2;
  ClusterCollection c, c2, sub;
  TrackCollection t;
  PadCollection p;
  AHLinkColl l, ls;
  sub.setSubsetCollection();
  s2.setSubsetCollection();
  ls.setSubsetCollection();
  const int n = 1 + s % 3;
  for (int i = 0; i < n; ++i) {
    auto x = h.create();
    x.energy(10 + i + s);
    x.cellID(100u + i);
    x.flag(i % 2);
    x.idx({i, s, -1});
    auto y = h2.create();
    y.energy(20 + i);
    y.pos(vf::Vec3{0.1 * s, 2.f * i, -3});
    c.create(30. + i, i + s).addcounts(300 + i);
    c2.create(40. + i, -i).addpoints(vf::Vec3{1. * i, 2, 3});
    p.create(50. + i, 5.f * s);
    auto k = t.create();
    k.energy(60 + i);
    k.chi2(0.5f * i);
    k.tag(Tag{i, {1, 2, static_cast<short>(s)}, vf::Vec3{4, 5, 6}});
  }
  for (int i = 0; i < n; ++i) {
    const int o = (i + 1) % n;
    c[i].addhits(h[o]);
    c[i].addhits(h2[i]);
    c[i].addsubs(c2[i]);
    c[i].addsubs(c[o]);
    c[i].seed(h2[o]);
    c[i].parent(c2[0]);
    for (int k = 0; k < i + s; ++k) {
      c2[i].addcounts(s * 100 + k);
    }
    c2[i].addhits(h2[0]);
    if (i % 2) {
      c2[i].parent(c[i]);
      c2[i].seed(h[0]);
    }
    t[i].addthings(h[i]);
    t[i].addthings(c2[o]);
    t[i].addthings(p[0]);
    t[i].addnext(t[o]);
    i % 2 ? t[i].best(c[0]) : t[i].best(p[o]);
    auto k = l.create();
    k.setWeight(0.25f + i + s);
    i % 2 ? k.setFrom(c2[0]) : k.setFrom(h[o]);
    k.setTo(h2[i]);
  }
  sub.push_back(c2[n - 1]);
  sub.push_back(c[0]);
  s2.push_back(h2[n - 1]);
  s2.push_back(h[0]);
  s2.push_back(h2[0]);
  ls.push_back(l[n - 1]);
  podio::Frame f;
  f.put(std::move(t), "t");
  f.put(std::move(h), "h");
  f.put(std::move(sub), "sub");
  f.put(std::move(h2), "h2");
  f.put(std::move(c), "c");
  f.put(std::move(c2), "c2");
  f.put(std::move(p), "p");
  f.put(std::move(s2), "s2");
  f.put(std::move(l), "l");
  f.put(std::move(ls), "ls");
  f.put(values<double>(s % 4, s), "u");
  f.putParameter("n", s);
  f.putParameter("list", std::vector<double>{1.5 * s, -0.0});
  f.putParameter("empty", std::vector<float>{});
  f.putParameter("words", std::vector<std::string>{"", "two words", std::string("\0x", 2)});
  return f;
}
const Names graphNames{"t", "h", "sub", "h2", "c", "c2", "p", "s2", "l", "ls", "u"};

podio::Frame frameOf(int kind, int serial) {
  switch (kind) {
  case 0: { // parameters only
    podio::Frame f;
    f.putParameter("n", serial);
    return f;
  }
  case 1: { // one collection of varying size, user data
    podio::Frame f;
    HitCollection h;
    for (int i = 0; i < serial % 3; ++i) {
      h.create().energy(serial + i);
    }
    f.put(std::move(h), "h");
    f.put(values<int32_t>(serial % 2, serial), "u");
    f.putParameter("n", serial);
    f.putParameter("label", std::string("frame"));
    return f;
  }
  case 2:
    return graph(serial);
  default: // read from somewhere else and not unpacked yet
    return makeFrame(storeFrame(graph(serial), graphNames));
  }
}

struct Wrote {
  std::string cat;
  Names names; // as written
  podio::Frame frame;
};
std::string params(const podio::GenericParameters& p) {
  std::string r;
  auto one = [&](const auto& m, const char* what) {
    for (const auto& [k, v] : m) {
      r += std::string(what) + k + "=";
      for (const auto& x : v) {
        if constexpr (std::is_arithmetic_v<std::remove_cvref_t<decltype(x)>>) {
          r += num(x) + ",";
        } else {
          r += std::to_string(x.size()) + ":" + x + ",";
        }
      }
      r += "\n";
    }
  };
  one(p.getMap<int>(), "int ");
  one(p.getMap<float>(), "float ");
  one(p.getMap<double>(), "double ");
  one(p.getMap<std::string>(), "string ");
  return r;
}
Names sorted(Names n) {
  std::sort(n.begin(), n.end());
  return n;
}

// A frame that was read has exactly what was written (or asked for).
void same(podio::Frame& got, const Wrote& w, const Names& limit, bool backwards = false) {
  Names want = limit.empty() ? w.names : limit;
  const auto all = w.frame.getAvailableCollections();
  if (sorted(got.getAvailableCollections()) != sorted(want)) {
    vf::failf("available-collections", "%zu collections are available, not %zu", got.getAvailableCollections().size(), want.size());
  }
  std::map<std::string, std::string> text;
  for (const auto& n : all) {
    if (std::find(want.begin(), want.end(), n) == want.end()) {
      hidden().insert(w.frame.get(n)->getID());
    }
  }
  for (const auto& n : want) {
    text[n] = describe(w.frame.get(n));
  }
  hidden().clear();
  auto order = want;
  if (backwards) {
    std::reverse(order.begin(), order.end());
  }
  for (const auto& n : order) {
    const auto* c = got.get(n);
    if (!c) {
      vf::failf("collection-missing", "%s is not available", n.c_str());
    }
    VF_EQ(c->getID(), w.frame.get(n)->getID(), "collection-id");
    VF_EQ(c->getValueTypeName(), w.frame.get(n)->getValueTypeName(), "type");
  }
  for (const auto& n : order) {
    const auto is = describe(got.get(n));
    if (is != text.at(n)) {
      vf::failf("contents", "%s reads\n%.500s\nexpected\n%.500s", n.c_str(), is.c_str(), text.at(n).c_str());
    }
    vf::step();
  }
  for (const auto& n : all) {
    if (std::find(want.begin(), want.end(), n) == want.end()) {
      VF_ASSERT(got.get(n) == nullptr, "collection-not-written");
    }
  }
  VF_ASSERT(got.get("never") == nullptr, "collection-not-written");
  const auto& table = got.getCollectionIDTableForWrite();
  for (const auto& n : w.names) {
    VF_EQ(table.collectionID(n).value_or(0), w.frame.get(n)->getID(), "id-table");
    VF_EQ(got.getName(w.frame.get(n)->getID()).value_or("?"), n, "id-table");
  }
  const auto a = params(got.getParameters()), b = params(w.frame.getParameters());
  if (a != b) {
    vf::failf("parameters", "%.300s expected %.300s", a.c_str(), b.c_str());
  }
}
} // namespace
#endif
