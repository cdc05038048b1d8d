// C19: user data collections are faithful vectors with storage
#include "store.h"
#include <bit>
#include <limits>
#include <list>
#include <ranges>
using namespace vfm_;
namespace {
template <class T>
std::vector<T> values() {
  using N = std::numeric_limits<T>;
  if constexpr (std::is_floating_point_v<T>) {
    return {T(1.5), N::lowest(), N::denorm_min(), -T(0), N::infinity(), std::is_same_v<T, float> ? T(std::bit_cast<float>(0x7fc12345u)) : T(std::bit_cast<double>(0x7ff8000123456789ull))};
  } else {
    return {T(42), N::min(), N::max(), T(0), T(-1), T(N::max() / 3)};
  }
}
template <class T>
bool bits(const T& a, const T& b) {
  return memcmp(&a, &b, sizeof a) == 0;
}
template <class T>
void same(const std::vector<T>& a, const std::vector<T>& b, const char* key) {
  VF_EQ(a.size(), b.size(), key);
  for (size_t i = 0; i < a.size(); ++i) {
    if (!bits(a[i], b[i])) {
      vf::failf(key, "element %zu is %s, expected %s", i, num(a[i]).c_str(), num(b[i]).c_str());
    }
  }
}
template <class T>
struct UW {
  using C = podio::UserDataCollection<T>;
  std::unique_ptr<C> c = std::make_unique<C>();
  std::vector<T> m;
  uint32_t id{0};
  int serial{0};
  const std::vector<T> vals = values<T>();
  T next() { return vals[serial++ % vals.size()]; }

  static constexpr int nOps = 17;
  void op(int o) {
    switch (o) {
    case 0: {
      const T v = next();
      vf::trace("push_back(%s)", num(v).c_str());
      c->push_back(v);
      m.push_back(v);
      return;
    }
    case 1: {
      const T v = next();
      vf::trace("create() = %s", num(v).c_str());
      auto&& r = c->create();
      VF_ASSERT(bits(T(r), T{}), "create-value");
      r = v;
      m.push_back(v);
      return;
    }
    case 2: {
      const size_t n = vf::choose(4);
      vf::trace("resize(%zu)", n);
      c->resize(n);
      m.resize(n);
      return;
    }
    case 3:
      vf::trace("clear()");
      c->clear();
      m.clear();
      return;
    case 4: {
      if (m.empty()) {
        vf::prune();
      }
      const size_t i = vf::flip() ? 0 : m.size() - 1;
      const T v = next();
      vf::trace("[%zu] = %s", i, num(v).c_str());
      switch (vf::choose(3)) {
      case 0:
        (*c)[i] = v;
        break;
      case 1:
        c->at(i) = v;
        break;
      case 2:
        *(c->begin() + static_cast<std::ptrdiff_t>(i)) = v;
        break;
      }
      m[i] = v;
      return;
    }
    case 5: {
      vf::trace("move construction");
      auto n = std::make_unique<C>(std::move(*c));
      c = std::move(n);
      return;
    }
    case 6: {
      vf::trace("move assignment");
      auto n = std::make_unique<C>();
      if (vf::flip()) {
        n->push_back(next());
      }
      *n = std::move(*c);
      c = std::move(n);
      return;
    }
    case 7: {
      vf::trace("construction from a vector");
      std::vector<T> v(vals.begin(), vals.begin() + vf::choose(4));
      m = v;
      const T* p = v.data();
      c = std::make_unique<C>(std::move(v));
      VF_ASSERT(m.empty() || c->vec().data() == p, "vector-copied");
      id = 0;
      return;
    }
    case 8: {
      vf::trace("contents moved out and in");
      auto v = std::move(c->vec());
      same(v, m, "moved-out");
      c->vec() = std::move(v);
      return;
    }
    case 9: {
      const int form = vf::choose(4);
      vf::trace("from(range %d)", form);
      std::vector<T> v(vals.rbegin(), vals.rbegin() + 3);
      switch (form) {
      case 0:
        c = std::make_unique<C>(C::from(v));
        break;
      case 1:
        c = std::make_unique<C>(C::from(std::list<T>(v.begin(), v.end())));
        break;
      case 2:
        c = std::make_unique<C>(C::from(v | std::views::reverse));
        std::reverse(v.begin(), v.end());
        break;
      case 3: {
        C other(std::vector<T>{v});
        c = std::make_unique<C>(C::from(other));
        same(other.vec(), v, "range-changed");
        break;
      }
      }
      m = v;
      id = 0;
      return;
    }
    case 10:
      id = vf::flip() ? 7 : 0xfffffff0u;
      vf::trace("setID(%u)", id);
      c->setID(id);
      return;
    case 11:
      vf::trace("subset mode");
      c->setSubsetCollection(vf::flip());
      return;
    case 12:
      vf::trace("prepare, buffers");
      c->prepareForWrite();
      checkBuffers();
      if (vf::flip()) {
        c->prepareForWrite();
        checkBuffers();
      }
      return;
    case 13: {
      vf::trace("write and read back");
      c = readBack();
      return;
    }
    case 14: {
      vf::trace("through a Frame");
      podio::Frame f;
      f.put(std::move(*c), "other");
      C tmp;
      tmp.push_back(T(1));
      f.put(std::move(tmp), "user");
      const auto& x = f.get<C>("other");
      same(x.vec(), m, "in-frame");
      auto st = storeFrame(f, {"other", "user"});
      auto g = makeFrame(st);
      const auto& y = g.get<C>("other");
      same(y.vec(), m, "in-read-frame");
      VF_EQ(y.getID(), x.getID(), "frame-id");
      VF_EQ(g.getName(y.getID()).value_or("?"), "other", "frame-id");
      VF_EQ(g.get<C>("user").size(), 1u, "in-read-frame");
      // it is const there, go on with a copy
      id = 0;
      c = std::make_unique<C>(std::vector<T>(y.vec()));
      return;
    }
    case 15: {
      vf::trace("push to vec()");
      const T v = next();
      c->vec().push_back(v);
      m.push_back(v);
      return;
    }
    case 16: {
      vf::trace("assign a temporary");
      *c = C(std::vector<T>{next()});
      m = {vals[(serial - 1) % vals.size()]};
      id = 0;
      return;
    }
    }
  }
  void checkBuffers() {
    auto b = c->getBuffers();
    VF_ASSERT(b.vecPtr != nullptr && b.data != nullptr, "buffers");
    VF_ASSERT(*static_cast<void**>(b.data) == b.vecPtr, "buffers");
    same(*static_cast<std::vector<T>*>(b.vecPtr), m, "buffer-contents");
    VF_ASSERT(!b.references || b.references->empty(), "buffers-references");
    VF_ASSERT(!b.vectorMembers || b.vectorMembers->empty(), "buffers-vectors");
  }
  std::unique_ptr<C> readBack() {
    auto st = store(*c, "x");
    std::unique_ptr<podio::CollectionBase> n;
    const bool sub = vf::flip();
    auto b = podio::CollectionBufferFactory::instance().createBuffers(st.type, st.version, sub);
    VF_ASSERT(b.has_value(), "read-buffers");
    VF_EQ(std::string(b->type), std::string(C::typeName), "read-type");
    VF_ASSERT(b->data != nullptr, "read-buffers");
    opsFor(st.data.type).fill(b->data, st.data.vec.get());
    n = b->createCollection(std::move(*b), sub);
    n->setID(id);
    n->prepareAfterRead();
    struct None : podio::ICollectionProvider {
      bool get(uint32_t, podio::CollectionBase*&) const override { return false; }
    } none;
    n->setReferences(&none);
    auto* p = dynamic_cast<C*>(n.get());
    VF_ASSERT(p != nullptr, "read-type");
    n.release();
    return std::unique_ptr<C>(p);
  }
  template <class CC>
  void access(CC& x) {
    const size_t n = m.size();
    VF_EQ(x.size(), n, "size");
    VF_EQ(x.empty(), n == 0, "empty");
    VF_ASSERT(x.max_size() >= n, "max-size");
    for (size_t i = 0; i < n; ++i) {
      VF_ASSERT(bits(T(x[i]), m[i]), "index");
      VF_ASSERT(bits(T(x.at(i)), m[i]), "at");
    }
    for (size_t i : {n, n + 1, ~size_t(0), size_t(1) << 32}) {
      VF_THROWS(std::out_of_range, x.at(i), "at-out-of-range");
    }
    same(x.vec(), m, "vec");
    size_t i = 0;
    for (const T v : x) {
      VF_ASSERT(i < n && bits(v, m[i]), "iteration");
      i++;
    }
    VF_EQ(i, n, "iteration");
    same(std::vector<T>(x.cbegin(), x.cend()), m, "citeration");
    auto r = m;
    std::reverse(r.begin(), r.end());
    same(std::vector<T>(x.rbegin(), x.rend()), r, "reverse");
    same(std::vector<T>(x.crbegin(), x.crend()), r, "reverse");
    VF_EQ(x.end() - x.begin(), static_cast<std::ptrdiff_t>(n), "distance");
    VF_EQ(std::ranges::size(x), n, "ranges-size");
  }
  std::string canon() const {
    std::string r = std::to_string(id) + "|";
    for (auto& v : m) {
      r += num(v) + " ";
    }
    return r + std::to_string(serial % vals.size());
  }
  void verify() {
    access(*c);
    access(std::as_const(*c));
    VF_EQ(c->getID(), id, "id");
    VF_ASSERT(!c->isSubsetCollection(), "subset");
    checkBuffers();
    vf::state(std::string(typeid(T).name()) + canon());
  }
  void finish() {
    c = readBack();
    verify();
    c->push_back(vals[0]);
    m.push_back(vals[0]);
    verify();
  }
};
template <class T>
void sequences() {
  UW<T> w;
  vf::run(w, [](auto& x) { x.op(vf::choose(UW<T>::nOps)); });
}
template <class T>
void names(const char* n) {
  using C = podio::UserDataCollection<T>;
  C c;
  const podio::CollectionBase& b = c;
  const std::string full = std::string("podio::UserDataCollection<") + n + ">";
  VF_EQ(std::string(b.getTypeName()), full, "type-name");
  VF_EQ(std::string(b.getValueTypeName()), n, "value-type-name");
  VF_EQ(std::string(b.getDataTypeName()), n, "data-type-name");
  VF_EQ(std::string(C::typeName), full, "type-name");
  VF_EQ(std::string(C::valueTypeName), n, "value-type-name");
  VF_EQ(b.getSchemaVersion(), 1u, "schema-version");
  VF_ASSERT((std::is_same_v<typename C::value_type, T> && std::is_same_v<decltype(std::declval<C&>()[0]), T&> &&
             std::is_same_v<decltype(std::declval<const C&>()[0]), const T&>),
            "value-type");
  VF_ASSERT((!std::is_copy_constructible_v<C> && std::ranges::random_access_range<C>), "container");
  vf::step();
  vf::state(full);
}
template <class T>
constexpr bool supported = podio::SupportedUserDataType<T>;
} // namespace
#define SEQ(T, Q, TH)                                                                                                  \
  VF_SCENARIO(seq_##T, Q, TH) { sequences<T>(); }
SEQ(float, 3, 5)
SEQ(double, 4, 5)
SEQ(int8_t, 3, 5)
SEQ(int16_t, 3, 5)
SEQ(int32_t, 3, 5)
SEQ(int64_t, 3, 5)
SEQ(uint8_t, 3, 5)
SEQ(uint16_t, 3, 5)
SEQ(uint32_t, 3, 5)
SEQ(uint64_t, 3, 5)
VF_SCENARIO(names_and_types, 1, 1) {
  names<float>("float");
  names<double>("double");
  names<int8_t>("int8_t");
  names<int16_t>("int16_t");
  names<int32_t>("int32_t");
  names<int64_t>("int64_t");
  names<uint8_t>("uint8_t");
  names<uint16_t>("uint16_t");
  names<uint32_t>("uint32_t");
  names<uint64_t>("uint64_t");
  VF_ASSERT(!supported<bool> && !supported<std::string> && !supported<char>, "supported-types");
}
// several of them in one Frame, all kinds of values
VF_SCENARIO(frame_mix, 1, 1) {
  podio::Frame f;
  const int n = vf::choose(4);
  podio::UserDataCollection<float> a;
  podio::UserDataCollection<uint64_t> b;
  podio::UserDataCollection<int8_t> c;
  for (int i = 0; i < n; ++i) {
    a.push_back(values<float>()[(i + n) % 6]);
    b.push_back(values<uint64_t>()[(i + n) % 6]);
    c.push_back(values<int8_t>()[(i + n) % 6]);
  }
  const int order = vf::choose(6);
  for (int i = 0; i < 3; ++i) {
    switch ((order + i) % 3) {
    case 0:
      f.put(std::move(a), "a");
      break;
    case 1:
      f.put(std::move(b), "b");
      break;
    case 2:
      f.put(std::move(c), "c");
      break;
    }
  }
  auto st = order < 3 ? storeFrame(f, {"a", "b", "c"}) : storeFrame(f, {"c", "a", "b"});
  auto g = makeFrame(st);
  for (auto* x : {&f, &g}) {
    const auto& ra = x->get<podio::UserDataCollection<float>>("a");
    const auto& rb = x->get<podio::UserDataCollection<uint64_t>>("b");
    const auto& rc = x->get<podio::UserDataCollection<int8_t>>("c");
    VF_EQ(ra.size(), static_cast<size_t>(n), "frame-size");
    for (int i = 0; i < n; ++i) {
      VF_ASSERT(bits(ra[i], values<float>()[(i + n) % 6]), "frame-value");
      VF_ASSERT(bits(rb[i], values<uint64_t>()[(i + n) % 6]), "frame-value");
      VF_ASSERT(bits(rc[i], values<int8_t>()[(i + n) % 6]), "frame-value");
    }
    VF_ASSERT(ra.getID() != rb.getID() && rb.getID() != rc.getID(), "frame-ids");
    VF_EQ(x->getName(ra.getID()).value_or(""), "a", "frame-ids");
    VF_EQ(x->getName(rb.getID()).value_or(""), "b", "frame-ids");
    VF_THROWS(std::runtime_error, x->get<podio::UserDataCollection<int64_t>>("b"), "frame-wrong-type");
    vf::step();
  }
  vf::state(std::to_string(n) + std::to_string(order));
}
