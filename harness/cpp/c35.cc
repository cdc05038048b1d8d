// C35: Arrow tables give back the frames that were converted. podio's conversion
// and the generated code for it run unchanged over a stand-in of the Arrow
// library (see harness/arrow).
#include "ioframes.h"

#include "podio/utilities/ArrowConverterRegistry.h"
#include "podio/utilities/ArrowFrameConverter.h"
#include "podio/utilities/ArrowFrameData.h"
#include "podio/utilities/ArrowTypeRegistry.h"
#include "vfa/vfa.h"
#include "vfax/vfax.h"

#include <arrow/api.h>

#include <optional>

using namespace vfm_;
namespace {
using TablePtr = std::shared_ptr<arrow::Table>;
template <class T>
T good(arrow::Result<T> r, const char* what) {
  if (!r.ok()) {
    vf::failf("layout", "%s: %s", what, r.status().ToString().c_str());
  }
  return r.MoveValueUnsafe();
}
TablePtr table(const podio::Frame& f, const Names& names) {
  auto t = podio::convertFrameToTable(f, names);
  VF_ASSERT(t != nullptr, "table");
  VF_EQ(t->num_rows(), 1, "rows");
  if (auto s = t->ValidateFull(); !s.ok()) {
    vf::failf("valid", "%s", s.ToString().c_str());
  }
  // one column for every collection and one for the parameters
  Names want = names;
  want.push_back("frame_parameters");
  if (sorted(t->ColumnNames()) != sorted(want)) {
    vf::failf("columns", "%zu columns for %zu collections", t->ColumnNames().size(), names.size());
  }
  for (const auto& n : names) {
    const auto* c = f.get(n);
    auto m = t->schema()->GetFieldByName(n)->metadata();
    VF_EQ(m->Get("value_type").ValueOr("none"), std::string(c->getValueTypeName()), "value-type");
    VF_EQ(m->Get("is_subset").ValueOr("none"), c->isSubsetCollection() ? "1" : "0", "is-subset");
    VF_EQ(std::static_pointer_cast<arrow::ListArray>(t->GetColumnByName(n)->chunk(0))->value_length(0), static_cast<int>(c->size()), "column-size");
  }
  return t;
}
template <class F>
void throws(F f, const char* key, const char* what) {
  try {
    f();
  } catch (const arrow::Misuse&) {
    throw;
  } catch (const std::exception&) {
    return;
  }
  vf::failf(key, "%s is accepted", what);
}

// ------------------------------------------------------- frames of vfm, vfa, vfax
struct Count {
  int n;
  int mode; // 0: small numbers, 1: large ones, 2: extremes
};
template <class T>
T large(int i) {
  return static_cast<T>(std::numeric_limits<T>::max() / 2 + i);
}
template <class T>
  requires std::is_arithmetic_v<T>
T next(Count& c) {
  const int i = ++c.n;
  if constexpr (std::is_same_v<T, bool>) {
    return (i / 2 + i) % 2;
  } else if (c.mode == 2) {
    using L = std::numeric_limits<T>;
    const T v[] = {L::max(), L::lowest(), L::min(), T(0), T(1)};
    return v[i % 5];
  } else if (c.mode == 1) {
    return large<T>(i);
  } else {
    return static_cast<T>(i % 120);
  }
}
template <class C, class F>
  requires std::is_same_v<std::remove_const_t<C>, Leaf>
void members(C& x, F f) {
  f(x.i), f(x.f), f(x.b), f(x.c);
}
template <class C, class F>
  requires std::is_same_v<std::remove_const_t<C>, vfan::Inner>
void members(C& x, F f) {
  f(x.leaf), f(x.two), f(x.u);
}
template <class C, class F>
  requires std::is_same_v<std::remove_const_t<C>, Deep>
void members(C& x, F f) {
  f(x.ins), f(x.one), f(x.d), f(x.leaves);
}
template <class C, class F>
  requires std::is_same_v<std::remove_const_t<C>, Wrap>
void members(C& x, F f) {
  f(x.inner), f(x.deeps), f(x.n);
}
template <class T>
struct IsArray : std::false_type {};
template <class T, size_t N>
struct IsArray<std::array<T, N>> : std::true_type {};
template <class T>
void fill(T& x, Count& c) {
  if constexpr (std::is_arithmetic_v<T>) {
    x = next<T>(c);
  } else if constexpr (IsArray<T>::value) {
    for (auto& e : x) {
      fill(e, c);
    }
  } else {
    members(x, [&](auto& m) { fill(m, c); });
  }
}
template <class T>
T filled(Count& c) {
  T x{};
  fill(x, c);
  return x;
}
template <class T>
std::string text(const T& x) {
  if constexpr (std::is_arithmetic_v<T>) {
    return num(x) + " ";
  } else {
    std::string r = "(";
    if constexpr (IsArray<T>::value) {
      for (auto& e : x) {
        r += text(e);
      }
    } else {
      members(x, [&](const auto& m) { r += text(m); });
    }
    return r + ") ";
  }
}

#define NUMS(X) X(Mb) X(Mc) X(Ms) X(Mi) X(Ml) X(Mll) X(Mu) X(Mun) X(Mul) X(Mull) X(Mf) X(Md) X(I16) X(I32) X(I64) X(U16) X(U32) X(U64) X(P16) X(Q64)
#define ARRS(X) X(Ab) X(Ac) X(As) X(Ai) X(Al) X(Au) X(Af) X(Ad) X(A16) X(A64) X(Leaf) X(Inner) X(Deep) X(Leaves) X(Inners) X(Deeps)
#define VECS(X) X(Vb, vb) X(Vc, vc) X(Vs, vs) X(Vi, vi) X(Vl, vl) X(Vu, vu) X(Vull, vull) X(Vf, vf) X(Vd, vd) X(V64, v64) X(Leaves, leaves) X(Inners, inners) X(Deeps, deeps)
#define SET(m) x.set##m(filled<std::remove_cvref_t<decltype(x.get##m())>>(c));
#define TEXT(m) r += #m "=" + text(x.get##m());
#define ADD(m, n)                                                                                                                                                                                      \
  for (int k = (which >> at++) % 4; k > 0; --k) {                                                                                                                                                      \
    x.addTo##m(filled<std::remove_cvref_t<decltype(x.get##m()[0])>>(c));                                                                                                                               \
  }
#define ALL(m, n)                                                                                                                                                                                      \
  r += #m "={";                                                                                                                                                                                        \
  for (auto e : x.get##m()) {                                                                                                                                                                          \
    r += text(static_cast<std::remove_cvref_t<decltype(x.get##m()[0])>>(e));                                                                                                                           \
  }                                                                                                                                                                                                    \
  r += "} ";

template <class T>
std::string ref(const T& o) {
  return o.isAvailable() ? str(o.getObjectID()) : "-";
}
std::string tell(const Nums& x) {
  std::string r = ref(x) + " ";
  NUMS(TEXT)
  return r;
}
std::string tell(const Arrs& x) {
  std::string r = ref(x) + " ";
  ARRS(TEXT)
  return r;
}
std::string tell(const vfan::Vecs& x) {
  std::string r = ref(x) + " m=" + num(x.getM()) + " ";
  VECS(ALL)
  for (auto o : x.getNums()) {
    r += "nums:" + ref(o) + " ";
  }
  for (auto o : x.getOthers()) {
    r += "others:" + ref(o) + " ";
  }
  return r + "arrs:" + ref(x.getArrs()) + " any:" + ref(x.getAny());
}
std::string tell(const Down& x) {
  std::string r = ref(x) + " " + text(x.getLeaf()) + text(x.getInners()) + text(x.getWrap());
  for (const auto& e : x.getVec()) {
    r += "vec:" + text(e);
  }
  for (const auto& e : x.getWraps()) {
    r += "wraps:" + text(e);
  }
  for (auto o : x.getVecs()) {
    r += "vecs:" + ref(o) + " ";
  }
  return r + "nums:" + ref(x.getNums()) + " any:" + ref(x.getAny());
}
template <class F, class T, bool M>
std::string tell(const podio::LinkT<F, T, M>& x) {
  return ref(x) + " " + num(x.getWeight()) + " " + ref(x.getFrom()) + ">" + ref(x.getTo());
}
template <class C>
bool tellAs(const podio::CollectionBase* c, std::string& r) {
  const auto* cc = dynamic_cast<const C*>(c);
  if (!cc) {
    return false;
  }
  r = std::string(C::typeName) + (c->isSubsetCollection() ? " subset" : "") + " " + std::to_string(c->getID()) + " v" + std::to_string(c->getSchemaVersion()) + "\n";
  for (const auto& e : *cc) {
    r += tell(e) + "\n";
  }
  return true;
}
std::string all(const podio::CollectionBase* c) {
  std::string r;
  if (!c) {
    return "missing";
  }
  if (tellAs<NumsCollection>(c, r) || tellAs<ArrsCollection>(c, r) || tellAs<vfan::VecsCollection>(c, r) || tellAs<DownCollection>(c, r) || tellAs<VecsArrsCollection>(c, r) ||
      tellAs<DownVecsCollection>(c, r)) {
    return r;
  }
  return describe(c);
}
const Names numberNames{"nums", "arrs", "vecs", "links", "down", "cross", "sub", "linksub"};
podio::Frame numbers(int n, int mode, unsigned which) {
  Count c{int(which), mode};
  NumsCollection nums;
  ArrsCollection arrs;
  vfan::VecsCollection vecs, sub;
  DownCollection down;
  VecsArrsCollection links, linksub;
  DownVecsCollection cross;
  sub.setSubsetCollection();
  linksub.setSubsetCollection();
  for (int i = 0; i < n; ++i) {
    {
      auto x = nums.create();
      NUMS(SET)
    }
    {
      auto x = arrs.create();
      ARRS(SET)
    }
    {
      auto x = vecs.create();
      x.setM(next<int>(c));
      unsigned at = i;
      VECS(ADD)
    }
    auto d = down.create();
    d.setLeaf(filled<Leaf>(c));
    d.setInners(filled<std::array<vfan::Inner, 2>>(c));
    d.setWrap(filled<Wrap>(c));
    for (int k = 0; k < (i + n) % 3; ++k) {
      d.addToVec(filled<vfan::Inner>(c));
    }
    for (int k = 0; k < i % 3; ++k) {
      d.addToWraps(filled<Wrap>(c));
    }
  }
  for (int i = 0; i < n; ++i) {
    const int o = (i + 1) % n;
    for (int k = 0; k <= i; ++k) {
      vecs[i].addToNums(nums[(i + k) % n]);
    }
    if (i % 2) {
      vecs[i].addToOthers(vecs[o]);
      vecs[i].addToOthers(vecs[i]);
      vecs[i].setArrs(arrs[o]);
      down[i].setNums(nums[o]);
    } else {
      vecs[i].setAny(vecs[o]);
      down[i].addToVecs(vecs[i]);
      down[i].setAny(vecs[o]);
    }
    auto l = links.create();
    l.setWeight(next<float>(c));
    l.setFrom(vecs[o]);
    i % 2 ? void() : l.setTo(arrs[i]);
    auto x = cross.create();
    x.setFrom(down[o]);
    x.setTo(vecs[i]);
    sub.push_back(vecs[n - 1 - i]);
    if (i) {
      linksub.push_back(links[i - 1]);
    }
  }
  podio::Frame f;
  f.put(std::move(sub), "sub");
  f.put(std::move(vecs), "vecs");
  f.put(std::move(nums), "nums");
  f.put(std::move(links), "links");
  f.put(std::move(arrs), "arrs");
  f.put(std::move(cross), "cross");
  f.put(std::move(down), "down");
  f.put(std::move(linksub), "linksub");
  f.putParameter("n", n);
  return f;
}

const Names graphCollections{"t", "h", "sub", "h2", "c", "c2", "p", "s2", "l", "ls"}; // user data is refused
podio::Frame someFrame(int kind, int serial) {
  switch (kind) {
  case 0:
    return graph(serial);
  case 1:
    return makeFrame(storeFrame(graph(serial), graphNames)); // read from somewhere else and not unpacked yet
  default:
    return numbers(serial % 3, serial % 3, 0x2d1u * serial);
  }
}

struct Source {
  podio::Frame frame;
  Names names;
  mutable std::map<std::string, std::string> want{}; // descriptions, once they are known
  TablePtr table{};
};
void compare(podio::Frame got, const Source& w, bool backwards, bool withParams = true) {
  if (sorted(got.getAvailableCollections()) != sorted(w.names)) {
    vf::failf("available-collections", "%zu collections are available, not %zu", got.getAvailableCollections().size(), w.names.size());
  }
  if (w.want.empty()) {
    for (const auto& n : w.frame.getAvailableCollections()) {
      if (std::find(w.names.begin(), w.names.end(), n) == w.names.end()) {
        hidden().insert(w.frame.get(n)->getID());
      }
    }
    for (const auto& n : w.names) {
      w.want[n] = all(w.frame.get(n));
    }
    hidden().clear();
  }
  const auto& want = w.want;
  auto order = w.names;
  if (backwards) {
    std::reverse(order.begin(), order.end());
  }
  for (const auto& n : order) {
    const auto* c = got.get(n);
    if (!c) {
      vf::failf("collection-missing", "%s is not available", n.c_str());
    }
    VF_EQ(c->getID(), w.frame.get(n)->getID(), "collection-id");
    VF_EQ(c->getValueTypeName(), w.frame.get(n)->getValueTypeName(), "type");
    VF_EQ(c->isSubsetCollection(), w.frame.get(n)->isSubsetCollection(), "subset");
    VF_EQ(c->size(), w.frame.get(n)->size(), "size");
  }
  for (const auto& n : order) {
    const auto is = all(got.get(n));
    if (is != want.at(n)) {
      size_t at = 0;
      while (at < is.size() && is[at] == want.at(n)[at]) {
        ++at;
      }
      at = at < 60 ? 0 : at - 60;
      vf::failf("contents", "%s reads\n%.300s\nexpected\n%.300s", n.c_str(), is.c_str() + at, want.at(n).c_str() + at);
    }
    vf::step();
  }
  for (const auto& n : w.frame.getAvailableCollections()) {
    if (std::find(w.names.begin(), w.names.end(), n) == w.names.end()) {
      VF_ASSERT(got.get(n) == nullptr, "collection-not-written");
    }
  }
  VF_ASSERT(got.get("never") == nullptr, "collection-not-written");
  VF_ASSERT(got.get("frame_parameters") == nullptr, "collection-not-written");
  VF_ASSERT(got.get("") == nullptr, "collection-not-written");
  const auto a = params(got.getParameters()), b = withParams ? params(w.frame.getParameters()) : "";
  if (a != b) {
    vf::failf("parameters", "%.300s expected %.300s", a.c_str(), b.c_str());
  }
}
Names selection(const Names& from, unsigned bits, int order) {
  Names r;
  for (size_t i = 0; i < from.size(); ++i) {
    if (bits >> i & 1) {
      r.push_back(from[i]);
    }
  }
  if (order) {
    std::reverse(r.begin(), r.end());
  }
  return r;
}
} // namespace

// Every selection of collections of frames with every kind of relation.
VF_SCENARIO_OPT(selections, 1, 2, 3, false) {
  const int depth = vf::depth();
  const int kind = vf::choose(2), serial = vf::choose(depth > 1 ? 3 : 2);
  const unsigned bits = vf::choose(1 << 10);
  const bool back = depth > 1 ? vf::choose(2) : (bits >> 3 ^ bits) & 1;
  Source s{someFrame(kind, serial), selection(graphCollections, bits, back)};
  compare(podio::convertTableToFrame(table(s.frame, s.names)), s, !back);
}

// All kinds of members, arrays, vectors and components in all sizes, with small,
// large and extreme values.
VF_SCENARIO_OPT(values, 1, 2, 2, false) {
  const int depth = vf::depth();
  const int n = vf::choose(depth > 1 ? 5 : 4), mode = vf::choose(3);
  const unsigned which = vf::choose(depth > 1 ? 1 << 9 : 1 << 5) * 53;
  Source s{numbers(n, mode, which), numberNames};
  compare(podio::convertTableToFrame(table(s.frame, s.names)), s, which & 1);
}

// Tables of several frames in all layouts that a table can get on its way: as
// written, concatenated, combined to one chunk, cut, in every order.
VF_SCENARIO_OPT(layouts, 3, 4, 3, false) {
  const int depth = vf::depth();
  const int model = vf::choose(2), rows = 1 + vf::choose(model ? 2 : depth);
  static std::map<int, std::vector<Source>> frames; // reading does not change the tables
  const Names names = model ? numberNames : graphCollections;
  std::vector<const Source*> in;
  std::vector<TablePtr> parts;
  auto& fs = frames[model];
  if (fs.empty()) {
    for (int i = 0; i < 3; ++i) {
      fs.push_back({model ? numbers(i == 1 ? 0 : 1 + i, i, 0x2d1u * (i + 1)) : graph(2 - i), names});
      fs.back().table = table(fs.back().frame, names);
    }
  }
  for (int i = 0; i < rows; ++i) {
    in.push_back(&fs[vf::choose(3)]);
    parts.push_back(in.back()->table);
  }
  // cut at one place, each part combined or not
  const int cut = vf::choose(rows);
  const bool first = vf::flip(), second = cut && vf::flip();
  auto join = [&](int from, int to, bool combine) {
    auto t = good(arrow::ConcatenateTables({parts.begin() + from, parts.begin() + to}), "concatenate");
    return combine ? good(t->CombineChunks(), "combine") : t;
  };
  auto t = cut ? good(arrow::ConcatenateTables({join(0, cut, first), join(cut, rows, second)}), "concatenate") : join(0, rows, first);
  // take a part of it
  const int lo = vf::choose(rows), n = 1 + vf::choose(rows - lo);
  if (lo || n != rows) {
    t = t->Slice(lo, n);
    if (vf::flip()) {
      t = good(t->CombineChunks(), "combine");
    }
  }
  if (auto s = t->ValidateFull(); !s.ok()) {
    vf::failf("layout", "%s", s.ToString().c_str());
  }
  VF_EQ(t->num_rows(), n, "layout");
  for (int i = 0; i < n; ++i) {
    compare(podio::convertTableToFrame(t, i), *in[lo + i], i & 1);
  }
  for (int bad : {-1, n, n + 1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}) {
    throws([&] { podio::convertTableToFrame(t, bad); }, "row-out-of-range", "a row out of range");
  }
}

// Columns in any order, some of them left out.
VF_SCENARIO_OPT(columns, 1, 1, 1, false) {
  Source s{graph(2), {"h", "c2", "s2", "l"}};
  auto t = table(s.frame, s.names);
  std::vector<int> left(t->num_columns()), pick;
  for (int i = 0; i < t->num_columns(); ++i) {
    left[i] = i;
  }
  while (!left.empty()) {
    const int i = vf::choose(static_cast<int>(left.size()) + 1);
    if (i == static_cast<int>(left.size())) {
      break;
    }
    pick.push_back(left[i]);
    left.erase(left.begin() + i);
  }
  t = good(t->SelectColumns(pick), "select");
  Source want{graph(2), {}};
  bool params = false;
  for (int i : pick) {
    if (i < static_cast<int>(s.names.size())) {
      want.names.push_back(s.names[i]);
    } else {
      params = true;
    }
  }
  if (pick.empty()) {
    return;
  }
  compare(podio::convertTableToFrame(t), want, false, params);
}

// Parameters of all types, numbers and sizes.
VF_SCENARIO_OPT(parameters, 2, 3, 1, false) {
  const int depth = vf::depth();
  const bool combined = vf::flip();
  std::vector<Source> in;
  std::vector<TablePtr> parts;
  for (int row = 0; row < 2; ++row) {
    Source s{podio::Frame{}, {}};
    auto lists = [&](auto make) {
      const int n = vf::choose(depth);
      for (int i = 0; i < n; ++i) {
        make(i ? "" : "key", (i + 3 * row + n) % 4);
      }
    };
    lists([&](const std::string& k, int n) { s.frame.putParameter(k, std::vector<int>(n, std::numeric_limits<int>::min() + n)); });
    lists([&](const std::string& k, int n) { s.frame.putParameter(k, std::vector<float>(n, std::numeric_limits<float>::denorm_min() * (1 + n))); });
    lists([&](const std::string& k, int n) { s.frame.putParameter(k, std::vector<double>(n, -0.0)); });
    lists([&](const std::string& k, int n) {
      std::vector<std::string> v(n, std::string("\0 a", 3));
      if (n > 1) {
        v[0] = "";
      }
      s.frame.putParameter(k, v);
    });
    parts.push_back(table(s.frame, s.names));
    in.push_back(std::move(s));
  }
  auto t = good(arrow::ConcatenateTables(parts), "concatenate");
  if (combined) {
    t = good(t->CombineChunks(), "combine");
  }
  for (int row = 0; row < 2; ++row) {
    compare(podio::convertTableToFrame(t, row), in[row], false);
  }
}

// A frame can be converted any number of times, before and after it is used in
// other ways; what is read can be converted again.
VF_SCENARIO_OPT(conversions, 3, 4, 1, false) {
  const int depth = vf::depth();
  const int kind = vf::choose(3), serial = 1 + vf::choose(2);
  const Names names = kind == 2 ? numberNames : graphCollections;
  Source s{someFrame(kind, serial), names}, same{someFrame(kind == 1 ? 0 : kind, serial), names};
  std::string first;
  for (int i = 0; i < depth; ++i) {
    switch (vf::choose(3)) {
    case 0: { // convert
      auto t = table(s.frame, names);
      std::string c;
      for (int k = 0; k < t->num_columns(); ++k) {
        c += t->column(k)->chunk(0)->ToString() + "\n";
      }
      if (first.empty()) {
        first = c;
      }
      VF_EQ(c, first, "table-changes");
      break;
    }
    case 1: // go on with what was read
      s.frame = podio::convertTableToFrame(table(s.frame, names));
      break;
    case 2: // look at it
      for (const auto& n : names) {
        VF_EQ(all(s.frame.get(n)), all(same.frame.get(n)), "contents");
      }
      break;
    }
  }
  compare(podio::convertTableToFrame(table(s.frame, names)), Source{std::move(same.frame), names}, false);
}

// What cannot be converted is refused.
VF_SCENARIO_OPT(refused, 1, 1, 1, false) {
  const int what = vf::choose(9);
  auto f = graph(1);
  switch (what) {
  case 0:
    throws([&] { podio::convertFrameToTable(f, {"h", "never"}); }, "unknown-collection", "a collection that is not in the frame");
    break;
  case 1:
    throws([&] { podio::convertFrameToTable(f, {"u"}); }, "user-data", "user data");
    break;
  case 2:
    throws([&] { podio::convertTableToFrame(nullptr); }, "no-table", "no table");
    break;
  case 3: { // metadata of a column is missing
    auto t = table(f, {"h", "c"});
    const int which = vf::choose(4);
    const char* const keys[] = {"value_type", "is_subset", "coll_id", nullptr};
    auto fields = t->schema()->fields();
    auto meta = fields[0]->metadata();
    Names k, v;
    for (int i = 0; i < meta->size(); ++i) {
      if (keys[which] && meta->key(i) != keys[which]) {
        k.push_back(meta->key(i));
        v.push_back(meta->value(i));
      }
    }
    fields[0] = fields[0]->WithMetadata(keys[which] ? arrow::KeyValueMetadata::Make(k, v) : nullptr);
    t = arrow::Table::Make(arrow::schema(fields), arrow::Table::Columns{t->column(0), t->column(1), t->column(2)}, 1);
    throws([&] { podio::convertTableToFrame(t).get("h"); }, "metadata-missing", keys[which] ? keys[which] : "no metadata");
    break;
  }
  case 4: { // the schema version is optional
    auto t = table(f, {"h"});
    auto fields = t->schema()->fields();
    auto meta = fields[0]->metadata();
    Names k, v;
    for (int i = 0; i < meta->size(); ++i) {
      k.push_back(meta->key(i));
      v.push_back(meta->value(i));
    }
    VF_EQ(v.at(meta->FindKey("schema_version")), std::to_string(f.get("h")->getSchemaVersion()), "schema-version");
    break;
  }
  case 5: { // a type without a reader
    auto t = table(f, {"h"});
    auto fields = t->schema()->fields();
    auto meta = fields[0]->metadata();
    Names k, v;
    for (int i = 0; i < meta->size(); ++i) {
      k.push_back(meta->key(i));
      v.push_back(meta->key(i) == "value_type" ? "Hitt" : meta->value(i));
    }
    fields[0] = fields[0]->WithMetadata(arrow::KeyValueMetadata::Make(k, v));
    t = arrow::Table::Make(arrow::schema(fields), arrow::Table::Columns{t->column(0), t->column(1)}, 1);
    throws([&] { podio::convertTableToFrame(t).get("h"); }, "unknown-type", "a column of an unknown type");
    break;
  }
  case 6: { // the same collection twice
    auto t = table(f, {"h"});
    auto fields = t->schema()->fields();
    fields.push_back(fields[0]);
    t = arrow::Table::Make(arrow::schema(fields), arrow::Table::Columns{t->column(0), t->column(1), t->column(0)}, 1);
    throws([&] { podio::convertTableToFrame(t); }, "duplicate-column", "a table with the same collection twice");
    break;
  }
  case 7: { // a collection with the name of the column of the parameters
    podio::Frame g;
    HitCollection h;
    h.create();
    g.put(std::move(h), "frame_parameters");
    throws([&] { podio::convertFrameToTable(g, {"frame_parameters"}); }, "reserved-name", "a collection called frame_parameters");
    break;
  }
  case 8: { // an empty table
    auto t = table(f, {"h"})->Slice(0, 0);
    throws([&] { podio::convertTableToFrame(t); }, "row-out-of-range", "a table without rows");
    break;
  }
  }
}

// The types that are registered for the columns.
VF_SCENARIO_OPT(types, 1, 1, 1, false) {
  auto& types = podio::ArrowTypeRegistry::instance();
  auto& conv = podio::ArrowConverterRegistry::instance();
  const Names known{"Hit", "Cluster", "vf::Pad", "vf::Track", "podio::Link<Hit,Cluster>", "podio::Link<Cluster,Cluster>", "podio::Link<AnyObj,Hit>", "Nums", "Arrs", "vfan::Vecs", "podio::Link<vfan::Vecs,Arrs>", "Down", "podio::Link<Down,vfan::Vecs>"};
  for (const auto& n : known) {
    VF_ASSERT(types.getType(n) && conv.getConverter(n) && conv.getReader(n), "registered");
  }
  for (const auto& n : Names{"", "Hi", "Hitt", "Vecs", "Track", "HitCollection", "int"}) {
    VF_ASSERT(!types.getType(n) && !conv.getConverter(n) && !conv.getReader(n), "registered");
  }
  auto has = [&](const char* n, const char* f, const char* want) {
    auto e = types.getType(n)->field(0)->type();
    auto x = arrow::Schema(e->fields()).GetFieldByName(f);
    VF_EQ(x ? x->type()->ToString() : "none", want, "column-type");
  };
  const std::pair<const char*, const char*> nums[] = {{"mb", "bool"}, {"mc", "int8"}, {"ms", "int16"}, {"mi", "int32"}, {"ml", "int64"}, {"mll", "int64"}, {"mu", "uint32"}, {"mun", "uint32"}, {"mul", "uint64"}, {"mull", "uint64"}, {"mf", "float"}, {"md", "double"}, {"i16", "int16"}, {"i32", "int32"}, {"i64", "int64"}, {"u16", "uint16"}, {"u32", "uint32"}, {"u64", "uint64"}, {"p16", "int16"}, {"q64", "uint64"}};
  for (auto [f, t] : nums) {
    has("Nums", f, t);
  }
  has("Arrs", "ad", "fixed_size_list<item: double>[5]");
  has("Arrs", "leaf", "struct<i: int32 not null, f: float not null, b: bool not null, c: int8 not null>");
  has("vfan::Vecs", "vl", "list<item: int64>");
  has("vfan::Vecs", "nums", "list<item: struct<collectionID: uint32 not null, index: int32 not null>>");
  has("vfan::Vecs", "any", "struct<collectionID: uint32 not null, index: int32 not null>");
}
