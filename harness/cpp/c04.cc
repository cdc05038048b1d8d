// C04: parameters are one faithful map per value type
#include "vf.h"
#include "podio/Frame.h"
#include "podio/GenericParameters.h"
#include <algorithm>
#include <bit>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

using podio::GenericParameters;
namespace {
template <class T>
std::string bits(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) {
    return "'" + v + "'";
  } else if constexpr (std::is_same_v<T, float>) {
    return std::to_string(std::bit_cast<uint32_t>(v));
  } else if constexpr (std::is_same_v<T, double>) {
    return std::to_string(std::bit_cast<uint64_t>(v));
  } else {
    return std::to_string(v);
  }
}
template <class T>
std::string bitsv(const std::vector<T>& v) {
  std::string r = "[";
  for (auto& e : v) {
    r += bits(e) + ",";
  }
  return r + "]";
}

// value number i of a type; special ones first
template <class T>
T val(int i) {
  if constexpr (std::is_same_v<T, int>) {
    const int a[] = {42, std::numeric_limits<int>::min(), 0, -1, std::numeric_limits<int>::max()};
    return i < 5 ? a[i] : i;
  } else if constexpr (std::is_same_v<T, std::string>) {
    const std::string a[] = {"hello", "", std::string("nul\0in", 6), "a long string that certainly does not fit into any small buffer", " \n\t"};
    return i < 5 ? a[i] : std::string("s") + std::to_string(i);
  } else {
    const T a[] = {T(1.1), -T(0), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::denorm_min(),
                   std::numeric_limits<T>::infinity()};
    return i < 5 ? a[i] : T(i) + T(0.1);
  }
}

struct Model {
  std::map<std::string, std::vector<int>> i;
  std::map<std::string, std::vector<float>> f;
  std::map<std::string, std::vector<double>> d;
  std::map<std::string, std::vector<std::string>> s;
  template <class T>
  auto& m() {
    if constexpr (std::is_same_v<T, int>) {
      return i;
    } else if constexpr (std::is_same_v<T, float>) {
      return f;
    } else if constexpr (std::is_same_v<T, double>) {
      return d;
    } else {
      return s;
    }
  }
  std::string canon() {
    std::string r;
    auto put = [&](auto& mm) {
      r += "|";
      for (auto& [k, v] : mm) {
        r += k + "=" + bitsv(v);
      }
    };
    put(i), put(f), put(d), put(s);
    return r;
  }
  bool empty() const { return i.empty() && f.empty() && d.empty() && s.empty(); }
};

const std::string KEYS[] = {"k1", "k2"};
const std::string ALLKEYS[] = {"k1", "k2", "k", "", "absent"};

// access through the parameters themselves
struct ViaParams {
  GenericParameters p;
  template <class T, class V>
  void set(const std::string& k, V&& v) {
    p.set(k, std::forward<V>(v));
  }
  template <class T>
  void setScalar(const std::string& k, T v) {
    p.set<T>(k, v);
  }
  template <class T>
  void setVec(const std::string& k, std::vector<T> v) {
    p.set<std::vector<T>>(k, std::move(v));
  }
  template <class T>
  void setDeduced(const std::string& k, T v) {
    p.set(k, v);
  }
  void setIL(const std::string& k, int a, int b) { p.set(k, {a, b}); }
  void setIL(const std::string& k, float a, float b) { p.set(k, {a, b}); }
  void setIL(const std::string& k, double a, double b) { p.set(k, {a, b}); }
  void setIL(const std::string& k, const std::string& a, const std::string& b) { p.set(k, {a, b}); }
  void setLit(const std::string& k) { p.set(k, "literal"); }
  const GenericParameters& params() const { return p; }
  template <class T>
  auto get(const std::string& k) const {
    return p.get<T>(k);
  }
  template <class T>
  auto keys() const {
    return p.getKeys<T>();
  }
};
struct ViaFrame {
  podio::Frame p;
  template <class T>
  void setScalar(const std::string& k, T v) {
    p.putParameter<T>(k, v);
  }
  template <class T>
  void setVec(const std::string& k, std::vector<T> v) {
    p.putParameter<std::vector<T>>(k, std::move(v));
  }
  template <class T>
  void setDeduced(const std::string& k, T v) {
    p.putParameter(k, v);
  }
  void setIL(const std::string& k, int a, int b) { p.putParameter(k, {a, b}); }
  void setIL(const std::string& k, float a, float b) { p.putParameter(k, {a, b}); }
  void setIL(const std::string& k, double a, double b) { p.putParameter(k, {a, b}); }
  void setIL(const std::string& k, const std::string& a, const std::string& b) { p.putParameter(k, {a, b}); }
  void setLit(const std::string& k) { p.putParameter(k, "literal"); }
  const GenericParameters& params() const { return p.getParameters(); }
  template <class T>
  auto get(const std::string& k) const {
    return p.getParameter<T>(k);
  }
  template <class T>
  auto keys() const {
    return p.getParameterKeys<T>();
  }
};

template <class T, class P>
void checkType(const P& p, Model& model) {
  auto& m = model.m<T>();
  for (auto& k : ALLKEYS) {
    const std::optional<T> v = p.template get<T>(k);
    const std::optional<std::vector<T>> vv = p.template get<std::vector<T>>(k);
    const size_t n = p.params().template getN<T>(k);
    const size_t n2 = p.params().template getN<std::vector<T>>(k);
    auto it = m.find(k);
    if (it == m.end()) {
      VF_ASSERT(!v && !vv, "absent-key-has-value");
      VF_EQ(n, size_t(0), "absent-key-has-size");
      VF_EQ(n2, size_t(0), "absent-key-has-size");
    } else {
      VF_ASSERT(vv.has_value(), "value-lost");
      VF_EQ(bitsv(*vv), bitsv(it->second), "value-differs");
      VF_EQ(n, it->second.size(), "size-differs");
      VF_EQ(n2, it->second.size(), "size-differs");
      VF_EQ(v.has_value(), !it->second.empty(), "scalar-presence");
      if (v) {
        VF_EQ(bits(*v), bits(it->second[0]), "scalar-differs");
      }
    }
  }
  std::vector<std::string> want;
  for (auto& [k, _] : m) {
    want.push_back(k);
  }
  auto keys = p.template keys<T>();
  std::sort(keys.begin(), keys.end());
  VF_ASSERT(keys == want, "keys-differ");
  auto keysv = p.template keys<std::vector<T>>();
  std::sort(keysv.begin(), keysv.end());
  VF_ASSERT(keysv == want, "keys-differ");
  auto [ks, vs] = p.params().template getKeysAndValues<T>();
  VF_EQ(ks.size(), m.size(), "extract-differs");
  VF_EQ(vs.size(), m.size(), "extract-differs");
  std::set<std::string> once;
  for (size_t i = 0; i < ks.size(); ++i) {
    VF_ASSERT(m.count(ks[i]) && once.insert(ks[i]).second, "extract-differs");
    VF_EQ(bitsv(vs[i]), bitsv(m[ks[i]]), "extract-differs");
  }
  const auto& mp = p.params().template getMap<T>();
  VF_EQ(mp.size(), m.size(), "map-differs");
}
template <class P>
void check(const P& p, Model& m) {
  checkType<int>(p, m);
  checkType<float>(p, m);
  checkType<double>(p, m);
  checkType<std::string>(p, m);
  VF_EQ(p.params().empty(), m.empty(), "empty-differs");
}

constexpr int SHAPES = 6;
template <class T, class P>
void setOp(P& p, Model& m, int shape, const std::string& k, int d) {
  auto& mm = m.m<T>();
  switch (shape) {
  case 0:
    p.template setScalar<T>(k, val<T>(d));
    mm[k] = {val<T>(d)};
    break;
  case 1:
    p.template setVec<T>(k, {val<T>(d + 1), val<T>(d), val<T>(2 * d + 5)});
    mm[k] = {val<T>(d + 1), val<T>(d), val<T>(2 * d + 5)};
    break;
  case 2:
    p.template setVec<T>(k, {});
    mm[k] = {};
    break;
  case 3:
    p.setIL(k, val<T>(d + 2), val<T>(d));
    mm[k] = {val<T>(d + 2), val<T>(d)};
    break;
  case 4:
    if constexpr (std::is_same_v<T, std::string>) {
      p.setLit(k);
      mm[k] = {"literal"};
    } else {
      p.template setDeduced<T>(k, val<T>(d + 3));
      mm[k] = {val<T>(d + 3)};
    }
    break;
  case 5:
    p.template setDeduced<std::vector<T>>(k, {val<T>(d + 3)});
    mm[k] = {val<T>(d + 3)};
    break;
  }
}
template <class P>
void setAny(P& p, Model& m, int d) {
  const int type = vf::choose(4);
  const int shape = vf::choose(SHAPES);
  const std::string& k = vf::pick(KEYS);
  vf::trace("set type %d shape %d key %s value# %d", type, shape, k.c_str(), d);
  switch (type) {
  case 0:
    return setOp<int>(p, m, shape, k, d);
  case 1:
    return setOp<float>(p, m, shape, k, d);
  case 2:
    return setOp<double>(p, m, shape, k, d);
  default:
    return setOp<std::string>(p, m, shape, k, d);
  }
}
template <class T>
void reload(GenericParameters& to, const GenericParameters& from) {
  auto [k, v] = from.getKeysAndValues<T>();
  to.loadFrom<T>(std::move(k), std::move(v));
}

} // namespace

VF_SCENARIO(parameters, 3, 4) {
  ViaParams a, other;
  Model m, mo;
  other.p.set("k1", 99);
  mo.i["k1"] = {99};
  other.p.set("old", "value");
  mo.s["old"] = {"value"};
  for (int d = 0; d < vf::depth(); ++d) {
    vf::step();
    switch (vf::choose(7)) {
    case 0:
      setAny(a, m, d);
      break;
    case 1:
      vf::trace("clear");
      a.p.clear();
      m = {};
      break;
    case 2: {
      vf::trace("copy; keep the original aside");
      GenericParameters c(a.p);
      other.p = std::move(a.p);
      mo = m;
      a.p = std::move(c);
      break;
    }
    case 3: {
      vf::trace("move construct");
      GenericParameters c(std::move(a.p));
      a.p = std::move(c);
      break;
    }
    case 4: {
      vf::trace("extract and load into a new one");
      GenericParameters c;
      reload<int>(c, a.p);
      reload<float>(c, a.p);
      reload<double>(c, a.p);
      reload<std::string>(c, a.p);
      a.p = std::move(c);
      break;
    }
    case 5: {
      vf::trace("swap with the other");
      std::swap(a.p, other.p);
      std::swap(m, mo);
      break;
    }
    case 6: {
      vf::trace("load new keys");
      // only keys that are not there; what happens to the others is not specified
      std::vector<std::string> ks;
      std::vector<std::vector<float>> vs;
      for (auto& k : {std::string("k2"), std::string("k"), std::string("")}) {
        if (!m.f.count(k)) {
          ks.push_back(k);
          vs.push_back({val<float>(d + 2), val<float>(d)});
          m.f[k] = vs.back();
        }
      }
      a.p.loadFrom<float>(ks, vs);
      break;
    }
    }
    check(a, m);
    check(other, mo);
    vf::state(m.canon());
  }
}

namespace {
struct ParamData { // raw data with parameters
  std::unique_ptr<GenericParameters> p;
  podio::CollectionIDTable getIDTable() const { return {}; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string&) { return std::nullopt; }
  std::vector<std::string> getAvailableCollections() const { return {}; }
  std::unique_ptr<GenericParameters> getParameters() { return std::move(p); }
};
} // namespace
VF_SCENARIO(throughFrame, 3, 3) {
  ViaFrame a;
  Model m;
  for (int d = 0; d < vf::depth(); ++d) {
    vf::step();
    switch (vf::choose(3)) {
    case 0:
      setAny(a, m, d);
      break;
    case 1: {
      vf::trace("move the frame");
      podio::Frame g(std::move(a.p));
      g.putParameter("k2", 3.5);
      m.d["k2"] = {3.5};
      a.p = podio::Frame();
      a.p = std::move(g);
      break;
    }
    case 2: {
      vf::trace("make a frame from the stored parameters");
      auto data = std::make_unique<ParamData>();
      data->p = std::make_unique<GenericParameters>(a.p.getParameters());
      a.p = podio::Frame(std::move(data));
      break;
    }
    }
    check(a, m);
    vf::state(m.canon());
  }
}

// two keys out of odd ones, for each type
namespace {
template <class T>
void oddKeys(const std::string& x, const std::string& y) {
  GenericParameters p;
  p.set<T>(x, val<T>(0));
  p.set<std::vector<T>>(y, {val<T>(3), val<T>(1)});
  const bool same = x == y;
  VF_EQ(p.getN<T>(x), size_t(same ? 2 : 1), "size-differs");
  VF_EQ(bits(*p.get<T>(x)), bits(val<T>(same ? 3 : 0)), "value-differs");
  VF_EQ(bits(*p.get<T>(y)), bits(val<T>(3)), "value-differs");
  VF_EQ(p.getKeys<T>().size(), size_t(same ? 1 : 2), "keys-differ");
  GenericParameters q(p);
  q.set<T>(x, val<T>(4));
  VF_EQ(bits(*p.get<T>(x)), bits(val<T>(same ? 3 : 0)), "copy-not-independent");
  VF_EQ(bits(*q.get<T>(x)), bits(val<T>(4)), "value-differs");
}
} // namespace
VF_SCENARIO(oddKeys, 1, 1) {
  const std::string odd[] = {"", " ", "k", "K", "k ", std::string("k\0", 2), std::string("k\0z", 3), "\xc3\xa9", std::string(300, 'k'), std::string(301, 'k')};
  const auto& x = vf::pick(odd);
  const auto& y = vf::pick(odd);
  vf::step();
  switch (vf::choose(4)) {
  case 0:
    return oddKeys<int>(x, y);
  case 1:
    return oddKeys<float>(x, y);
  case 2:
    return oddKeys<double>(x, y);
  default:
    return oddKeys<std::string>(x, y);
  }
}

// many keys and many values
VF_SCENARIO(many, 1, 1) {
  const int n = vf::pick({0, 1, 7, 100, 1000});
  const bool backward = vf::flip();
  ViaParams a;
  Model m;
  for (int i = 0; i < n; ++i) {
    const int j = backward ? n - 1 - i : i;
    const std::string k = "key" + std::to_string(j);
    std::vector<double> v;
    for (int e = 0; e < j % 13; ++e) {
      v.push_back(val<double>(e));
    }
    a.p.set(k, v);
    m.d[k] = v;
    a.p.set(k, j);
    m.i[k] = {j};
    vf::step();
  }
  check(a, m);
  GenericParameters c(a.p);
  a.p.clear();
  ViaParams b{std::move(c)};
  check(b, m);
  for (int i = 0; i < n; ++i) {
    VF_EQ(b.p.get<int>("key" + std::to_string(i)).value_or(-5), i, "value-differs");
  }
}

