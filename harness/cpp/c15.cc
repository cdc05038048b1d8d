// C15: collections behave as sequences of their objects
#include "linkworld.h"
#include "store.h"
#include <algorithm>
#include <deque>
#include <iterator>
#include <list>
#include <memory>
#include <optional>
#include <ranges>
#include <set>
using namespace vfm_;
namespace {
// what the types have in common
template <class H>
void setVal(H h, int v) {
  if constexpr (requires { h.setWeight(1.f); }) {
    h.setWeight(v);
  } else {
    h.energy(v);
  }
}
template <class H>
int val(const H& h) {
  if constexpr (requires { h.getWeight(); }) {
    return static_cast<int>(h.getWeight());
  } else {
    return static_cast<int>(h.energy());
  }
}
template <class C>
auto withArgs(C& c, int v) {
  if constexpr (std::is_same_v<C, HitCollection>) {
    return c.create(7ul, double(v), vf::Vec3{1, 2, 3}, std::array<int, 3>{1, 2, 3}, false);
  } else if constexpr (std::is_same_v<C, ClusterCollection>) {
    return c.create(double(v), v + 100);
  } else if constexpr (std::is_same_v<C, PadCollection>) {
    return c.create(double(v), 3.f);
  } else if constexpr (std::is_same_v<C, TrackCollection>) {
    return c.create(4.f, Tag{}, double(v));
  } else {
    auto o = c.create();
    setVal(o, v);
    return o;
  }
}

template <class C>
struct Seq {
  using Mut = typename C::mutable_type;
  using Imm = typename C::value_type;
  struct Coll {
    C c;
    std::vector<int> m;
    bool subset{false};
  };
  std::unique_ptr<Coll> k[2];
  std::map<int, Imm> handle; // by value
  std::map<int, int> owner;  // value -> collection (address in order of creation)
  int serial{0};

  Seq() {
    k[0] = std::make_unique<Coll>();
    k[1] = std::make_unique<Coll>();
  }

  void remember(const Imm& h, int v) { handle.emplace(v, h); }
  // is an element of this collection also in another one?
  bool shared(int i) {
    return k[1 - i]->subset && !k[1 - i]->m.empty() && !k[i]->subset;
  }
  void drop(int i) { // contents of collection i go away
    if (!k[i]->subset) {
      for (int v : k[i]->m) {
        handle.erase(v);
      }
    }
    k[i]->m.clear();
  }
  static constexpr int nOps = 14;
  void op(int o) {
    const int i = o >= 9 ? 0 : vf::choose(2);
    auto& x = *k[i];
    auto& y = *k[1 - i];
    switch (o) {
    case 0:
    case 1: { // create
      const int v = ++serial;
      vf::trace("c%d.create%s -> %d", i, o ? "(args)" : "", v);
      if (x.subset) {
        VF_THROWS(std::logic_error, x.c.create(), "create-in-subset");
        return;
      }
      if (o == 0) {
        auto h = x.c.create();
        setVal(h, v);
        remember(h, v);
      } else {
        remember(withArgs(x.c, v), v);
      }
      x.m.push_back(v);
      return;
    }
    case 2: { // add a new one
      const int v = ++serial;
      vf::trace("c%d.push_back(new %d)", i, v);
      Mut h;
      setVal(h, v);
      if (x.subset) {
        VF_THROWS(std::invalid_argument, x.c.push_back(h), "untracked-in-subset");
        return;
      }
      x.c.push_back(h);
      remember(h, v);
      x.m.push_back(v);
      return;
    }
    case 3: { // add an element of the other
      if (y.m.empty()) {
        vf::prune();
      }
      const size_t j = y.m.size() > 1 && vf::flip() ? 0 : y.m.size() - 1;
      const bool mut = vf::flip();
      vf::trace("c%d.push_back(%s c%d[%zu])", i, mut ? "mutable" : "const", 1 - i, j);
      if (!x.subset) {
        VF_THROWS(std::invalid_argument, (mut ? x.c.push_back(y.c[j]) : x.c.push_back(std::as_const(y.c)[j])), "second-owner");
        return;
      }
      if (y.subset && !handle.contains(y.m[j])) {
        vf::prune();
      }
      mut ? x.c.push_back(y.c[j]) : x.c.push_back(std::as_const(y.c)[j]);
      x.m.push_back(y.m[j]);
      return;
    }
    case 4:
      vf::trace("c%d.clear()", i);
      if (shared(i)) {
        y.c.clear();
        y.m.clear();
      }
      x.c.clear();
      drop(i);
      return;
    case 5: {
      vf::trace("c%d.setSubsetCollection(%d)", i, !x.subset);
      if (!x.m.empty()) {
        VF_THROWS(std::logic_error, x.c.setSubsetCollection(!x.subset), "subset-switch");
      } else {
        x.c.setSubsetCollection(!x.subset);
        x.subset = !x.subset;
      }
      return;
    }
    case 6: {
      vf::trace("c%d = move constructed from itself", i);
      auto n = std::make_unique<Coll>(Coll{C(std::move(x.c)), x.m, x.subset});
      k[i] = std::move(n);
      return;
    }
    case 7: {
      vf::trace("c%d = move assigned to a new one", i);
      auto n = std::make_unique<Coll>();
      n->m = x.m;
      n->subset = x.subset;
      if (vf::flip()) {
        n->c.create();
      }
      n->c = std::move(x.c);
      k[i] = std::move(n);
      return;
    }
    case 8: {
      if (x.m.empty()) {
        vf::prune();
      }
      const int v = ++serial, j = static_cast<int>(x.m.size()) - 1, old = x.m[j];
      vf::trace("change element %d of c%d to %d", j, i, v);
      switch (vf::choose(4)) {
      case 0:
        setVal(x.c[j], v);
        break;
      case 1:
        setVal(x.c.at(j), v);
        break;
      case 2:
        for (auto h : x.c) {
          if (val(h) == old) {
            setVal(h, v);
          }
        }
        break;
      case 3:
        setVal(*(x.c.end() - 1), v);
        break;
      }
      for (auto& s : k) {
        std::replace(s->m.begin(), s->m.end(), old, v);
      }
      Imm h = handle.at(old);
      handle.erase(old);
      handle.emplace(v, h);
      return;
    }
    case 9: { // subset from a range of elements
      fromRange(vf::choose(6));
      return;
    }
    case 10: { // owning from new mutable objects
      vf::trace("c1 = from(new objects)");
      const int n = vf::choose(3);
      std::vector<Mut> objs(n);
      std::vector<int> m;
      for (auto& o2 : objs) {
        setVal(o2, ++serial);
        m.push_back(serial);
      }
      auto n2 = std::make_unique<Coll>(Coll{make(objs, vf::choose(3)), m, false});
      for (int e = 0; e < n; ++e) {
        VF_ASSERT(n2->c[e] == objs[e], "from-identity");
        remember(objs[e], m[e]);
      }
      replace1(std::move(n2));
      return;
    }
    case 11: { // a range of objects that cannot be taken
      const int what = vf::choose(3);
      vf::trace("from(refused %d)", what);
      if (what == 0) { // mutable handles of objects that are in a collection
        if (x.m.empty()) {
          vf::prune();
        }
        std::vector<Mut> v{x.c[0]};
        VF_THROWS(std::invalid_argument, C::from(v), "from-second-owner");
        VF_THROWS(std::invalid_argument, C::from(v | std::views::transform([](Mut h) { return h; })), "from-second-owner");
      } else if (what == 1) { // immutable handles of objects in no collection
        Mut h;
        std::vector<Imm> v{h};
        VF_THROWS(std::invalid_argument, C::from(v), "from-untracked");
      } else { // collected ones followed by one in no collection
        if (x.m.empty()) {
          vf::prune();
        }
        Mut h;
        std::vector<Imm> v{std::as_const(x.c)[0], h};
        VF_THROWS(std::invalid_argument, C::from(v), "from-untracked");
      }
      return;
    }
    case 12: { // c0 <-> c1
      vf::trace("swap");
      std::swap(k[0]->c, k[1]->c);
      std::swap(k[0]->m, k[1]->m);
      std::swap(k[0]->subset, k[1]->subset);
      return;
    }
    case 13:
      vf::trace("c0.setID, prepareForWrite");
      x.c.setID(vf::flip() ? 5 : 17);
      x.c.prepareForWrite();
      return;
    }
  }
  template <class V>
  C make(V& objs, int form) {
    switch (form) {
    case 0:
      return C::from(objs);
    case 1:
      return C::from(std::as_const(objs));
    default: {
      std::list<Mut> l(objs.begin(), objs.end());
      return C::from(std::move(l));
    }
    }
  }
  void replace1(std::unique_ptr<Coll> n) {
    if (shared(1)) {
      k[0]->c.clear();
      k[0]->m.clear();
    }
    drop(1);
    k[1] = std::move(n);
  }
  void fromRange(int form) {
    auto& x = *k[0];
    vf::trace("c1 = from(range over c0, form %d)", form);
    std::vector<int> m = x.m;
    auto build = [&]() -> C {
      switch (form) {
      case 0:
        return C::from(x.c);
      case 1:
        return C::from(std::as_const(x.c));
      case 2: {
        std::vector<Imm> v(std::as_const(x.c).begin(), std::as_const(x.c).end());
        return C::from(v);
      }
      case 3: {
        std::reverse(m.begin(), m.end());
        return C::from(std::as_const(x.c) | std::views::reverse);
      }
      case 4: {
        std::erase_if(m, [](int v) { return v % 2 == 0; });
        return C::from(x.c | std::views::filter([](const Imm& h) { return val(h) % 2 != 0; }));
      }
      default: {
        std::deque<Imm> d;
        m.clear();
        for (int v : x.m) {
          d.push_front(handle.at(v));
          m.insert(m.begin(), v);
        }
        return C::from(d);
      }
      }
    };
    // elements of the old c1 must not be lost while they are in use
    if (x.subset) {
      vf::prune();
    }
    auto n = std::make_unique<Coll>(Coll{build(), m, true});
    VF_ASSERT(n->c.isSubsetCollection(), "from-kind");
    replace1(std::move(n));
  }

  template <class CC>
  void checkSeq(CC& c, const std::vector<int>& m, const char* what) {
    const size_t n = m.size();
    auto eq = [&](const auto& h, size_t i, const char* how) {
      if (i >= n || val(h) != m[i] || !(Imm(h) == handle.at(m[i]))) {
        vf::failf("element", "%s %s: element %zu is %d, expected %d of %zu", what, how, i, val(h), i < n ? m[i] : -1, n);
      }
    };
    auto len = [&](size_t got, const char* how) {
      if (got != n) {
        vf::failf("length", "%s %s: %zu elements, expected %zu", what, how, got, n);
      }
    };
    len(c.size(), "size");
    VF_EQ(c.empty(), n == 0, "empty");
    VF_ASSERT(c.max_size() >= n && c.max_size() > 1000, "max_size");
    for (size_t i = 0; i < n; ++i) {
      eq(c[i], i, "operator[]");
      eq(c.at(i), i, "at");
    }
    for (size_t i : {n, n + 1, size_t(0) - 1, size_t(1) << 32, (size_t(1) << 32) + 1}) {
      VF_THROWS(std::out_of_range, c.at(i), "at-out-of-range");
    }
    size_t i = 0;
    for (auto h : c) {
      eq(h, i++, "range for");
    }
    len(i, "range for");
    i = 0;
    for (auto it = c.begin(); it != c.end(); it++, ++i) {
      eq(*it, i, "iterator");
      if (val(*(it.operator->())) != m[i]) {
        vf::failf("arrow", "%s", what);
      }
      if constexpr (requires { it->getWeight(); }) {
        VF_EQ(static_cast<int>(it->getWeight()), m[i], "arrow");
      } else {
        VF_EQ(static_cast<int>(it->energy()), m[i], "arrow");
      }
    }
    len(i, "iterator");
    i = 0;
    for (auto it = c.cbegin(); it != c.cend(); ++it, ++i) {
      eq(*it, i, "cbegin");
    }
    len(i, "cbegin");
    i = n;
    for (auto it = c.rbegin(); it != c.rend(); ++it) {
      eq(*it, --i, "rbegin");
    }
    VF_EQ(i, 0u, "reverse-length");
    i = n;
    for (auto it = c.crbegin(); it != c.crend(); it++) {
      eq(*it, --i, "crbegin");
    }
    VF_EQ(i, 0u, "reverse-length");
    // random access
    const auto b = c.begin(), e = c.end();
    using D = typename std::decay_t<decltype(c)>::difference_type;
    VF_EQ(e - b, static_cast<D>(n), "distance");
    VF_EQ(std::ranges::distance(c), static_cast<D>(n), "distance");
    for (D p = 0; p <= static_cast<D>(n); ++p) {
      auto ip = b + p;
      VF_ASSERT(p + b == ip && e - (static_cast<D>(n) - p) == ip, "iterator-arithmetic");
      for (D q = 0; q <= static_cast<D>(n); ++q) {
        auto iq = b;
        iq += q;
        VF_EQ(iq - ip, q - p, "iterator-difference");
        VF_ASSERT((ip < iq) == (p < q) && (ip <= iq) == (p <= q) && (ip > iq) == (p > q) && (ip >= iq) == (p >= q) &&
                      (ip == iq) == (p == q) && (ip != iq) == (p != q),
                  "iterator-comparison");
        if (q < static_cast<D>(n)) {
          eq(ip[q - p], q, "iterator subscript");
          eq(*(ip + (q - p)), q, "iterator +");
          eq(*((q - p) + ip), q, "iterator +");
          eq(*(ip - (p - q)), q, "iterator -");
          auto t = ip;
          eq(*(t += (q - p)), q, "iterator +=");
          t = ip;
          eq(*(t -= (p - q)), q, "iterator -=");
        }
        vf::step();
      }
      if (p > 0) {
        auto t = ip;
        eq(*--t, p - 1, "iterator --");
        t = ip;
        auto old = t--;
        VF_ASSERT(old == ip, "iterator-post");
        eq(*t, p - 1, "iterator --");
      }
      if (p < static_cast<D>(n)) {
        auto t = ip;
        auto old = t++;
        eq(*old, p, "iterator ++");
        VF_ASSERT(t == b + (p + 1), "iterator-post");
        t = ip;
        VF_ASSERT(++t == b + (p + 1), "iterator-pre");
      }
    }
    // standard ranges and algorithms
    i = 0;
    for (auto h : c | std::views::drop(1)) {
      eq(h, ++i, "drop");
    }
    i = n;
    for (auto h : c | std::views::reverse) {
      eq(h, --i, "views::reverse");
    }
    i = 0;
    for (int v : c | std::views::transform([](auto h) { return val(h); })) {
      VF_EQ(v, m[i++], "transform");
    }
    len(i, "transform");
    for (size_t j = 0; j < n; ++j) {
      auto first = std::ranges::find(m, m[j]) - m.begin();
      auto it = std::ranges::find_if(c, [&](const auto& h) { return val(h) == m[j]; });
      VF_EQ(it - c.begin(), first, "find_if");
      auto it2 = std::find_if(c.begin(), c.end(), [&](const auto& h) { return val(h) == m[j]; });
      VF_EQ(it2 - c.begin(), first, "find_if");
      auto it3 = std::ranges::find(c, handle.at(m[j]));
      VF_EQ(it3 - c.begin(), first, "find");
    }
    std::vector<Imm> copy;
    std::ranges::copy(c, std::back_inserter(copy));
    len(copy.size(), "copy");
    for (size_t j = 0; j < n; ++j) {
      eq(copy[j], j, "copy");
    }
  }
  void members(const C& c, const std::vector<int>& m) {
    if constexpr (requires { c.energy(0); }) {
      for (size_t n = 0; n <= m.size() + 2; ++n) {
        const size_t want = n == 0 ? m.size() : std::min(n, m.size());
        const auto e = c.energy(n);
        VF_EQ(e.size(), want, "member-vector-size");
        for (size_t i = 0; i < want; ++i) {
          VF_EQ(static_cast<int>(e[i]), m[i], "member-vector");
        }
        auto other = [&](const auto& vec, auto get) {
          VF_EQ(vec.size(), want, "member-vector-size");
          for (size_t i = 0; i < want; ++i) {
            VF_EQ(str(vec[i]), str(get(c[i])), "member-vector");
          }
        };
        if constexpr (std::is_same_v<C, HitCollection>) {
          other(c.cellID(n), [](auto h) { return h.cellID(); });
          other(c.pos(n), [](auto h) { return h.pos(); });
          other(c.idx(n), [](auto h) { return h.idx(); });
          other(c.flag(n), [](auto h) { return h.flag(); });
        } else if constexpr (std::is_same_v<C, ClusterCollection>) {
          other(c.kind(n), [](auto h) { return h.kind(); });
        } else if constexpr (std::is_same_v<C, PadCollection>) {
          other(c.z(n), [](auto h) { return h.z(); });
        } else if constexpr (std::is_same_v<C, TrackCollection>) {
          other(c.chi2(n), [](auto h) { return h.chi2(); });
          other(c.tag(n), [](auto h) { return h.tag(); });
        }
      }
    }
  }
  std::string canon() const {
    std::string r;
    for (auto& s : k) {
      r += s->subset ? "s" : "o";
      r += std::to_string(s->m.size());
      for (int v : s->m) {
        r += "," + std::to_string(v % 2);
      }
    }
    // which elements are shared
    for (int v : k[0]->m) {
      r += std::ranges::count(k[1]->m, v) ? "x" : ".";
    }
    return r + "|" + std::to_string(serial % 2);
  }
  void verify() {
    for (auto& s : k) {
      checkSeq(s->c, s->m, "mutable");
      checkSeq(std::as_const(s->c), s->m, "const");
      members(s->c, s->m);
      VF_EQ(s->c.isSubsetCollection(), s->subset, "subset-flag");
    }
    vf::state(canon());
  }
  void finish() {
    // the same sequence after reading back
    for (auto& s : k) {
      if (s->subset) {
        continue;
      }
      s->c.setID(9);
      auto st = store(s->c, "x");
      auto b = makeBuffers(st);
      VF_ASSERT(b.has_value(), "buffers");
      auto n = b->createCollection(std::move(*b), false);
      n->setID(9);
      n->prepareAfterRead();
      n->setReferences(&none);
      auto& c = dynamic_cast<C&>(*n);
      auto saved = handle;
      std::vector<int> m = s->m;
      VF_EQ(c.size(), m.size(), "read-length");
      for (size_t i = 0; i < m.size(); ++i) {
        handle.insert_or_assign(m[i], std::as_const(c)[i]);
      }
      checkSeq(c, m, "read");
      checkSeq(std::as_const(c), m, "read const");
      members(c, m);
      c.clear();
      checkSeq(c, {}, "read and cleared");
      setVal(c.create(), 7);
      handle.insert_or_assign(7, std::as_const(c)[0]);
      checkSeq(c, {7}, "read, cleared and used");
      handle = saved;
    }
    handle.clear();
  }
  struct None : podio::ICollectionProvider {
    bool get(uint32_t, podio::CollectionBase*&) const override { return false; }
  } none;
};
template <class C>
void sequences() {
  Seq<C> w;
  // start from something, so that short sequences reach far
  const int start = vf::choose(3);
  for (int i = 0; i < start; ++i) {
    const int v = ++w.serial;
    w.remember(withArgs(w.k[0]->c, v), v);
    w.k[0]->m.push_back(w.serial);
  }
  vf::run(w, [](auto& x) { x.op(vf::choose(Seq<C>::nOps)); });
}
} // namespace
VF_SCENARIO(seq_hit, 2, 4) { sequences<HitCollection>(); }
VF_SCENARIO(seq_cluster, 3, 4) { sequences<ClusterCollection>(); }
VF_SCENARIO(seq_pad, 2, 4) { sequences<PadCollection>(); }
VF_SCENARIO(seq_track, 2, 4) { sequences<TrackCollection>(); }
VF_SCENARIO(seq_links, 3, 4) { sequences<CCLinkColl>(); }
VF_SCENARIO(seq_interface_links, 2, 3) { sequences<AHLinkColl>(); }

namespace {
template <class C>
constexpr bool concepts() {
  using CI = typename C::const_iterator;
  using MI = typename C::iterator;
  return std::random_access_iterator<CI> && std::random_access_iterator<MI> && std::ranges::random_access_range<C> &&
      std::ranges::random_access_range<const C> && std::ranges::sized_range<C> && std::ranges::common_range<C> &&
      std::is_same_v<decltype(std::declval<const C&>()[0]), typename C::value_type> &&
      std::is_same_v<decltype(std::declval<C&>()[0]), typename C::mutable_type> &&
      std::is_same_v<decltype(*std::declval<const C&>().begin()), typename C::value_type> &&
      std::is_same_v<decltype(*std::declval<C&>().begin()), typename C::mutable_type> &&
      std::is_same_v<decltype(*std::declval<C&>().cbegin()), typename C::value_type> &&
      std::is_same_v<decltype(std::declval<const C&>().at(0)), typename C::value_type> &&
      std::is_same_v<decltype(std::declval<C&>().at(0)), typename C::mutable_type> && !std::is_copy_constructible_v<C> &&
      !std::is_copy_assignable_v<C> && std::is_nothrow_move_constructible_v<C> == std::is_nothrow_move_constructible_v<C>;
}
template <class C>
void names(const char* type, const char* value, const char* data, podio::SchemaVersionT version) {
  VF_ASSERT(concepts<C>(), "collection-concepts");
  C c;
  const podio::CollectionBase& b = c;
  VF_EQ(std::string(b.getTypeName()), type, "type-name");
  VF_EQ(std::string(b.getValueTypeName()), value, "value-type-name");
  VF_EQ(std::string(b.getDataTypeName()), data, "data-type-name");
  VF_EQ(std::string(C::typeName), type, "type-name");
  VF_EQ(std::string(C::valueTypeName), value, "value-type-name");
  VF_EQ(std::string(C::dataTypeName), data, "data-type-name");
  VF_EQ(std::string(C::value_type::typeName), value, "value-type-name");
  VF_EQ(b.getSchemaVersion(), version, "schema-version");
  // the same after any use
  c.create();
  c.setID(3);
  c.prepareForWrite();
  C d(std::move(c));
  VF_EQ(std::string(d.getTypeName()), type, "type-name");
  VF_EQ(d.getSchemaVersion(), version, "schema-version");
  auto st = store(d, "x");
  auto buf = makeBuffers(st);
  VF_ASSERT(buf.has_value(), "buffers");
  VF_EQ(std::string(buf->type), type, "buffer-type-name");
  VF_EQ(buf->schemaVersion, version, "buffer-version");
  auto n = buf->createCollection(std::move(*buf), false);
  VF_EQ(std::string(n->getTypeName()), type, "type-name");
  VF_EQ(n->getSchemaVersion(), version, "schema-version");
  C s;
  s.setSubsetCollection();
  VF_EQ(std::string(s.getTypeName()), type, "type-name");
  VF_EQ(std::string(s.getDataTypeName()), data, "data-type-name");
  vf::step(12);
  vf::state(std::string(type));
}
} // namespace
VF_SCENARIO(type_names, 1, 1) {
  names<HitCollection>("HitCollection", "Hit", "HitData", 3);
  names<ClusterCollection>("ClusterCollection", "Cluster", "ClusterData", 3);
  names<PadCollection>("vf::PadCollection", "vf::Pad", "vf::PadData", 3);
  names<TrackCollection>("vf::TrackCollection", "vf::Track", "vf::TrackData", 3);
  const auto lv = CCLinkColl().getSchemaVersion();
  names<HCLinkColl>("podio::LinkCollection<Hit,Cluster>", "podio::Link<Hit,Cluster>", "podio::LinkData", lv);
  names<CCLinkColl>("podio::LinkCollection<Cluster,Cluster>", "podio::Link<Cluster,Cluster>", "podio::LinkData", lv);
  names<AHLinkColl>("podio::LinkCollection<AnyObj,Hit>", "podio::Link<AnyObj,Hit>", "podio::LinkData", lv);
}
