// Text and JSON output against renderers written from the model.
#include "vf.h"

#include "vfp/PACollection.h"
#include "vfp/PAllCollection.h"
#include "vfp/PAny.h"
#include "vfp/PAnyLinkCollection.h"
#include "vfp/PBCollection.h"
#include "vfp/PLeafCollection.h"
#include "vfp/PLinkCollection.h"
#include "vfp/PNoneCollection.h"
#include "vfp/PRelCollection.h"

#include "podio/GenericParameters.h"
#include "podio/UserDataCollection.h"

#include <nlohmann/json.hpp>

#include <cmath>
#include <iomanip>
#include <limits>
#include <optional>

using json = nlohmann::json;

namespace {
// ---------------------------------------------------------------- streams
struct Format {
  std::ios_base::fmtflags set, mask;
  int precision;
};
const std::ios_base::fmtflags none{};
const Format formats[] = {
    {none, none, 6},
    {std::ios_base::hex | std::ios_base::showbase | std::ios_base::uppercase, std::ios_base::basefield, 3},
    {std::ios_base::fixed | std::ios_base::boolalpha | std::ios_base::left, std::ios_base::floatfield | std::ios_base::adjustfield, 9},
    {std::ios_base::showpos | std::ios_base::scientific | std::ios_base::oct, std::ios_base::floatfield | std::ios_base::basefield, 17},
};
void useFormat(std::ostream& os, const Format& f) {
  os.setf(f.set, f.mask | f.set);
  os.precision(f.precision);
}

// text without differences in white space
std::string squeeze(const std::string& s) {
  std::string out;
  for (char c : s) {
    const bool w = c == ' ' || c == '\n' || c == '\t';
    if (w && (out.empty() || out.back() == ' ')) {
      continue;
    }
    if (c == '|' && !out.empty() && out.back() == ' ') {
      out.pop_back(); // IDs are padded on either side
    }
    out += w ? ' ' : c;
  }
  while (!out.empty() && out.back() == ' ') {
    out.pop_back();
  }
  return out;
}

// Prints with the format and checks that the stream is as before.
template <class F>
std::string print(const Format& f, F&& what, const char* name) {
  std::ostringstream os;
  useFormat(os, f);
  const auto flags = os.flags();
  what(os);
  if (os.flags() != flags || os.precision() != f.precision || os.fill() != ' ' || os.width() != 0 || !os.good()) {
    vf::failf("stream-changed", "printing %s leaves the stream with other flags, precision, fill or state", name);
  }
  vf::step();
  return os.str();
}
template <class T>
std::string printed(const Format& f, const T& x, const char* name) {
  if constexpr (requires(std::ostream& os) { os << x; }) {
    return print(f, [&](std::ostream& os) { os << x; }, name);
  } else {
    vf::failf("not-printable", "%s cannot be printed", name);
    return "";
  }
}

// ---------------------------------------------------------------- reference
struct Out {
  std::ostringstream os;
  template <class T>
  Out& operator<<(const T& x) {
    os << x;
    return *this;
  }
  std::string str() const { return os.str(); }
};

std::string idText(const podio::ObjectID& id, const Out& like) {
  std::ostringstream a, b;
  a.flags((like.os.flags() & ~std::ios_base::basefield) | std::ios_base::hex);
  a << id.collectionID;
  b.flags(like.os.flags());
  b << id.index;
  return a.str() + "|" + b.str();
}
template <class T>
void value(Out& o, const T& x);
void value(Out& o, const vp::In& x) {
  o << x.s << " " << x.fa[0] << "|" << x.fa[1] << "| " << x.flag << " ";
}
void value(Out& o, const Comp& x) {
  o << x.a << " ";
  value(o, x.in);
  o << " ";
  value(o, x.ins[0]);
  o << "|";
  value(o, x.ins[1]);
  o << "| " << x.d << " ";
}
void value(Out& o, const Single& x) { o << x.only << " "; }
template <class T>
void value(Out& o, const T& x) {
  o << x;
}
template <class T, size_t N>
void array(Out& o, const char* name, const std::array<T, N>& a) {
  o << " " << name << " : ";
  for (const auto& x : a) {
    value(o, x);
    o << "|";
  }
  o << "\n";
}

// ---------------------------------------------------------------- values
template <class T>
T some(int k) {
  if constexpr (std::is_same_v<T, bool>) {
    return k % 2 == 0;
  } else if constexpr (std::is_same_v<T, char>) {
    return static_cast<char>('a' + k % 20);
  } else if constexpr (std::is_floating_point_v<T>) {
    const T v[] = {T(1.5), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::denorm_min(), T(-0.0), std::numeric_limits<T>::infinity(), T(1) / T(3), T(100000000)};
    return v[k % 8];
  } else {
    const T v[] = {T(3), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(0), T(77), T(-1)};
    return v[k % 6];
  }
}
vp::In someIn(int k) {
  return {some<std::int16_t>(k), {some<float>(k + 1), some<float>(k + 2)}, some<bool>(k)};
}
Comp someComp(int k) {
  return {some<int>(k), someIn(k + 1), {someIn(k + 2), someIn(k + 3)}, some<double>(k + 4)};
}
json jin(const vp::In& x) { return json::object({{"s", x.s}, {"fa", json::array({x.fa[0], x.fa[1]})}, {"flag", x.flag}}); }
json jcomp(const Comp& x) {
  return json::object({{"a", x.a}, {"in", jin(x.in)}, {"ins", json::array({jin(x.ins[0]), jin(x.ins[1])})}, {"d", x.d}});
}
json jid(const podio::ObjectID& id) { return json::object({{"collectionID", id.collectionID}, {"index", id.index}}); }

// a relation to one object is an ID or a list with one
bool sameOne(const json& got, const podio::ObjectID& id) { return got == jid(id) || got == json::array({jid(id)}); }

void same(const std::string& got, const std::string& want, const char* key) {
  const auto a = squeeze(got), b = squeeze(want);
  if (a != b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) {
      ++i;
    }
    vf::failf(key, "printed '%.200s' expected '%.200s', both after '%.300s'", a.substr(i).c_str(), b.substr(i).c_str(), b.substr(0, i).substr(i > 300 ? i - 300 : 0).c_str());
  }
}
void sameJson(const json& got, const json& want, const char* key) {
  if (got != want) {
    vf::failf(key, "JSON is %.500s but should be %.500s", got.dump().c_str(), want.dump().c_str());
  }
}

// the header of a printed collection names the members
void header(std::string& text, std::initializer_list<const char*> names, const char* key) {
  const auto end = text.find('\n');
  VF_ASSERT(end != std::string::npos, key);
  const std::string first = text.substr(0, end);
  size_t at = 0;
  for (const char* n : names) {
    const auto i = first.find(n, at);
    if (i == std::string::npos) {
      vf::failf(key, "the header '%.300s' does not show %s", first.c_str(), n);
    }
    at = i + std::strlen(n);
  }
  text = text.substr(end + 1);
}

template <class C>
void samePrints(const Format& f, const C& c, const std::string& text, const char* name) {
  VF_EQ(print(f, [&](std::ostream& os) { c.print(os, true); }, name), text, "print-differs");
  VF_EQ(print(f, [&](std::ostream& os) { c.print(os, false); }, name), text, "print-differs");
  VF_EQ(print(f, [&](std::ostream& os) { static_cast<const podio::CollectionBase&>(c).print(os); }, name), text, "print-differs");
}
Out table(const Format& f) {
  Out o;
  useFormat(o.os, f);
  o.os << std::scientific << std::showpos;
  return o;
}
Out plain(const Format& f) {
  Out o;
  useFormat(o.os, f);
  return o;
}

// ---------------------------------------------------------------- members
template <class O>
void fill(O& o, int k) {
  o.mb(some<bool>(k));
  o.mc(some<char>(k));
  o.ms(some<short>(k));
  o.mi(some<int>(k + 1));
  o.ml(some<long>(k + 2));
  o.mll(some<long long>(k + 3));
  o.mu(some<unsigned>(k));
  o.mul(some<unsigned long>(k + 1));
  o.mull(some<unsigned long long>(k + 5));
  o.mf(some<float>(k));
  o.md(some<double>(k + 3));
  o.mi16(some<std::int16_t>(k + 1));
  o.mu16(some<std::uint16_t>(k + 5));
  o.mi32(some<std::int32_t>(k + 2));
  o.mu64(some<std::uint64_t>(k + 1));
  o.ai({some<int>(k), some<int>(k + 1), some<int>(k + 2)});
  o.ab({some<bool>(k), some<bool>(k + 1)});
  o.ad(std::array<double, 1>{some<double>(k + 6)});
  o.ac({someComp(k), someComp(k + 5)});
  o.comp(someComp(k + 2));
  o.single({some<float>(k + 7)});
}
void allText(Out& o, podio::ObjectID id, int k) {
  o << " id: " << idText(id, o) << "\n";
  o << " mb : " << some<bool>(k) << "\n mc : " << some<char>(k) << "\n ms : " << some<short>(k) << "\n mi : " << some<int>(k + 1) << "\n ml : " << some<long>(k + 2)
    << "\n mll : " << some<long long>(k + 3) << "\n mu : " << some<unsigned>(k) << "\n mul : " << some<unsigned long>(k + 1) << "\n mull : " << some<unsigned long long>(k + 5)
    << "\n mf : " << some<float>(k) << "\n md : " << some<double>(k + 3) << "\n mi16 : " << some<std::int16_t>(k + 1) << "\n mu16 : " << some<std::uint16_t>(k + 5)
    << "\n mi32 : " << some<std::int32_t>(k + 2) << "\n mu64 : " << some<std::uint64_t>(k + 1) << "\n";
  array(o, "ai", std::array<int, 3>{some<int>(k), some<int>(k + 1), some<int>(k + 2)});
  array(o, "ab", std::array<bool, 2>{some<bool>(k), some<bool>(k + 1)});
  array(o, "ad", std::array<double, 1>{some<double>(k + 6)});
  array(o, "ac", std::array<Comp, 2>{someComp(k), someComp(k + 5)});
  o << " comp : ";
  value(o, someComp(k + 2));
  o << "\n single : " << some<float>(k + 7) << " \n";
}
void allRow(Out& o, podio::ObjectID id, int k) {
  o << idText(id, o) << " " << some<bool>(k) << " " << some<char>(k) << " " << some<short>(k) << " " << some<int>(k + 1) << " " << some<long>(k + 2) << " " << some<long long>(k + 3) << " "
    << some<unsigned>(k) << " " << some<unsigned long>(k + 1) << " " << some<unsigned long long>(k + 5) << " " << some<float>(k) << " " << some<double>(k + 3) << " " << some<std::int16_t>(k + 1)
    << " " << some<std::uint16_t>(k + 5) << " " << some<std::int32_t>(k + 2) << " " << some<std::uint64_t>(k + 1) << " ";
  value(o, someComp(k + 2));
  o << " " << some<float>(k + 7) << " \n";
}
json allJson(int k) {
  return json::object({{"mb", some<bool>(k)}, {"mc", some<char>(k)}, {"ms", some<short>(k)}, {"mi", some<int>(k + 1)}, {"ml", some<long>(k + 2)}, {"mll", some<long long>(k + 3)},
                       {"mu", some<unsigned>(k)}, {"mul", some<unsigned long>(k + 1)}, {"mull", some<unsigned long long>(k + 5)}, {"mf", some<float>(k)}, {"md", some<double>(k + 3)},
                       {"mi16", some<std::int16_t>(k + 1)}, {"mu16", some<std::uint16_t>(k + 5)}, {"mi32", some<std::int32_t>(k + 2)}, {"mu64", some<std::uint64_t>(k + 1)},
                       {"ai", json::array({some<int>(k), some<int>(k + 1), some<int>(k + 2)})}, {"ab", json::array({some<bool>(k), some<bool>(k + 1)})},
                       {"ad", json::array({some<double>(k + 6)})}, {"ac", json::array({jcomp(someComp(k)), jcomp(someComp(k + 5))})}, {"comp", jcomp(someComp(k + 2))},
                       {"single", json::object({{"only", some<float>(k + 7)}})}});
}
const char* key1 = "object-text";

VF_SCENARIO(members, 1, 2) {
  const int k = vf::choose(48);
  const auto& f = vf::pick(formats);
  const int n = vf::choose(3);
  const uint32_t ids[] = {0, 1, 0xabcdef01, 0xffffffff};
  const uint32_t cid = vf::pick(ids);
  PAllCollection coll;
  std::optional<MutablePAll> alone;
  if (n == 0) {
    alone.emplace();
    fill(*alone, k);
  }
  for (int i = 0; i < n; ++i) {
    auto o = coll.create();
    fill(o, k + 7 * i);
  }
  coll.setID(cid);
  if (alone) {
    auto want = plain(f);
    allText(want, {podio::ObjectID::untracked, static_cast<uint32_t>(podio::ObjectID::untracked)}, k);
    same(printed(f, *alone, "a mutable object"), want.str(), key1);
    same(printed(f, PAll(*alone), "an object"), want.str(), key1);
    sameJson(json(*alone), allJson(k), "object-json");
    sameJson(json(PAll(*alone)), allJson(k), "object-json");
    VF_EQ(squeeze(printed(f, PAll::makeEmpty(), "an empty handle")), "[not available]", "unavailable-text");
    return;
  }
  auto rows = table(f);
  json all = json::array();
  json refs = json::array();
  auto sub = PAllCollection();
  sub.setSubsetCollection();
  auto subRows = table(f);
  for (int i = 0; i < n; ++i) {
    const podio::ObjectID id{i, cid};
    auto want = plain(f);
    allText(want, id, k + 7 * i);
    same(printed(f, coll[i], "a mutable object"), want.str(), key1);
    same(printed(f, PAll(coll[i]), "an object"), want.str(), key1);
    sameJson(json(coll[i]), allJson(k + 7 * i), "object-json");
    allRow(rows, id, k + 7 * i);
    all.push_back(allJson(k + 7 * i));
    sub.push_back(PAll(coll[n - 1 - i]));
    refs.push_back(jid({n - 1 - i, cid}));
    allRow(subRows, {n - 1 - i, cid}, k + 7 * (n - 1 - i));
  }
  std::string text = printed(f, coll, "a collection");
  samePrints(f, coll, text, "a collection");
  header(text, {"id", "mb", "mc", "ms", "mi", "ml", "mll", "mu", "mul", "mull", "mf", "md", "mi16", "mu16", "mi32", "mu64", "comp", "single"}, "table-header");
  same(text, rows.str(), "collection-text");
  sameJson(json(coll), all, "collection-json");
  text = printed(f, sub, "a subset collection");
  samePrints(f, sub, text, "a subset collection");
  header(text, {"id", "mb"}, "table-header");
  same(text, subRows.str(), "subset-text");
  sameJson(json(sub), refs, "subset-json");
  // nothing changed
  for (int i = 0; i < n; ++i) {
    sameJson(json(coll[i]), allJson(k + 7 * i), "object-changed");
  }
}

// every double and float in JSON is the one of the object
VF_SCENARIO(jsonNumbers, 1, 1) {
  const double ds[] = {0.1, 1e300, -1e-300, 5e-324, 1.0 / 3, 9007199254740993.0, -0.0, std::numeric_limits<double>::infinity(), std::nan("")};
  const float fs[] = {0.1f, 1e38f, 1e-45f, 16777217.f, -0.f, std::nanf("")};
  const std::uint64_t us[] = {0, 1, 9007199254740993ull, 18446744073709551615ull};
  const long long ls[] = {0, -1, std::numeric_limits<long long>::min(), std::numeric_limits<long long>::max()};
  PAllCollection c;
  auto o = c.create();
  const double d = vf::pick(ds);
  const float f = vf::pick(fs);
  const auto u = vf::pick(us);
  const auto l = vf::pick(ls);
  o.md(d);
  o.mf(f);
  o.mu64(u);
  o.mll(l);
  const json j = json(c);
  vf::step();
  VF_ASSERT(j.is_array() && j.size() == 1, "collection-json");
  auto eq = [](double a, double b) { return std::memcmp(&a, &b, sizeof(a)) == 0 || (std::isnan(a) && std::isnan(b)); };
  VF_ASSERT(eq(j[0]["md"].get<double>(), d), "json-number");
  VF_ASSERT(eq(j[0]["mf"].get<double>(), f), "json-number");
  VF_ASSERT(j[0]["mu64"].get<std::uint64_t>() == u && j[0]["mll"].get<long long>() == l, "json-number");
}

// ---------------------------------------------------------------- relations
struct Graph {
  PACollection as;
  vp::PBCollection bs;
  PLeafCollection leaves;
  std::vector<MutablePA> a;
  std::vector<vp::MutablePB> b;
  std::vector<MutablePLeaf> l;
  // model: numbers of objects; any: 0,1 are PA, 2,3 are PB
  struct MA {
    int b{-1}, any{-1};
    std::vector<int> bs, as, anys, leaves, ints, comps;
  } ma[2];
  struct MB {
    int a{-1};
    std::vector<int> leaves, as;
  } mb[2];
  bool inColl;

  explicit Graph(bool tracked) : inColl(tracked) {
    for (int i = 0; i < 2; ++i) {
      if (inColl) {
        a.push_back(as.create());
        b.push_back(bs.create());
        l.push_back(leaves.create());
      } else {
        a.emplace_back();
        b.emplace_back();
        l.emplace_back();
      }
      a[i].num(10 + i);
      b[i].num(20 + i);
      b[i].tag(static_cast<short>(-5 - i));
      l[i].e(0.5 + i);
    }
    as.setID(0x11);
    bs.setID(0x22);
    leaves.setID(0xdeadbeef);
  }
  podio::ObjectID id(int coll, int i) const {
    const uint32_t c[] = {0x11, 0x22, 0xdeadbeef};
    return inColl ? podio::ObjectID{i, c[coll]} : podio::ObjectID{podio::ObjectID::untracked, static_cast<uint32_t>(podio::ObjectID::untracked)};
  }
  podio::ObjectID ida(int i) const { return id(0, i); }
  podio::ObjectID idb(int i) const { return id(1, i); }
  podio::ObjectID idl(int i) const { return id(2, i); }
  podio::ObjectID idany(int i) const { return i < 2 ? ida(i) : idb(i - 2); }
  static podio::ObjectID unset() { return PA::makeEmpty().id(); }
  PAny any(int i) const { return i < 2 ? PAny(a[i]) : PAny(b[i - 2]); }

  void op() {
    const int i = vf::choose(2);
    switch (vf::choose(12)) {
    case 0: {
      const int k = vf::choose(2);
      a[i].addbs(b[k]);
      ma[i].bs.push_back(k);
      break;
    }
    case 1: {
      const int k = vf::choose(2);
      a[i].addas(a[k]);
      ma[i].as.push_back(k);
      break;
    }
    case 2: {
      const int k = vf::choose(4);
      a[i].addanys(any(k));
      ma[i].anys.push_back(k);
      break;
    }
    case 3: {
      const int k = vf::choose(2);
      a[i].addleaves(l[k]);
      ma[i].leaves.push_back(k);
      break;
    }
    case 4: {
      const int k = vf::choose(2);
      a[i].b(b[k]);
      ma[i].b = k;
      break;
    }
    case 5: {
      const int k = vf::choose(4);
      a[i].any(any(k));
      ma[i].any = k;
      break;
    }
    case 6: {
      const int k = vf::choose(2);
      a[i].addints(k * 1000 - 7);
      ma[i].ints.push_back(k * 1000 - 7);
      break;
    }
    case 7:
      a[i].addcomps(someComp(i + 1));
      ma[i].comps.push_back(i + 1);
      break;
    case 8: {
      const int k = vf::choose(2);
      b[i].a(a[k]);
      mb[i].a = k;
      break;
    }
    case 9: {
      const int k = vf::choose(2);
      b[i].addleaves(l[k]);
      mb[i].leaves.push_back(k);
      break;
    }
    case 10: {
      const int k = vf::choose(2);
      b[i].addas(a[k]);
      mb[i].as.push_back(k);
      break;
    }
    default:
      break;
    }
  }
  // objects that refer to each other keep each other alive
  void dissolve() {
    for (auto& x : a) {
      x.b(vp::PB::makeEmpty());
      x.any(PAny::makeEmpty());
    }
    for (auto& x : b) {
      x.a(PA::makeEmpty());
    }
  }
  bool cyclic() const { return true; }
};

template <class F>
void ids(Out& o, const char* name, const std::vector<int>& v, F&& id) {
  o << " " << name << " : ";
  for (int i : v) {
    o << idText(id(i), o) << " ";
  }
  o << "\n";
}
void one(Out& o, const char* name, podio::ObjectID id) { o << " " << name << " : " << idText(id, o) << "\n"; }
void leafText(Out& o, podio::ObjectID id, int i) { o << " id: " << idText(id, o) << "\n e : " << 0.5 + i << "\n"; }

void textA(Out& o, const Graph& g, int i) {
  const auto& m = g.ma[i];
  o << " id: " << idText(g.ida(i), o) << "\n num : " << 10 + i << "\n";
  one(o, "b", m.b < 0 ? g.a[i].b().id() : g.idb(m.b));
  one(o, "any", m.any < 0 ? g.a[i].any().id() : g.idany(m.any));
  ids(o, "bs", m.bs, [&](int k) { return g.idb(k); });
  ids(o, "as", m.as, [&](int k) { return g.ida(k); });
  ids(o, "anys", m.anys, [&](int k) { return g.idany(k); });
  o << " leaves : ";
  for (int k : m.leaves) {
    leafText(o, g.idl(k), k);
    o << " ";
  }
  o << "\n ints : ";
  for (int k : m.ints) {
    o << k << " ";
  }
  o << "\n comps : ";
  for (int k : m.comps) {
    value(o, someComp(k));
    o << " ";
  }
  o << "\n";
}
void textB(Out& o, const Graph& g, int i) {
  const auto& m = g.mb[i];
  o << " id: " << idText(g.idb(i), o) << "\n tag : " << static_cast<short>(-5 - i) << "\n num : " << 20 + i << "\n";
  one(o, "a", m.a < 0 ? g.b[i].a().id() : g.ida(m.a));
  o << " leaves : ";
  for (int k : m.leaves) {
    leafText(o, g.idl(k), k);
    o << " ";
  }
  o << "\n";
  ids(o, "as", m.as, [&](int k) { return g.ida(k); });
}
template <class F>
json jids(const std::vector<int>& v, F&& id) {
  json j = json::array();
  for (int i : v) {
    j.push_back(jid(id(i)));
  }
  return j;
}
// relations to one object are checked and removed first
json withoutOne(json j, std::initializer_list<std::pair<const char*, podio::ObjectID>> ones) {
  for (const auto& [name, id] : ones) {
    if (!j.is_object() || !j.contains(name) || !sameOne(j[name], id)) {
      vf::failf("json-relation", "%s should be %s: %.400s", name, jid(id).dump().c_str(), j.dump().c_str());
    }
    j.erase(name);
  }
  return j;
}
void jsonA(const Graph& g, int i, const json& got) {
  const auto& m = g.ma[i];
  json comps = json::array();
  for (int k : m.comps) {
    comps.push_back(jcomp(someComp(k)));
  }
  sameJson(withoutOne(got, {{"b", m.b < 0 ? g.a[i].b().id() : g.idb(m.b)}, {"any", m.any < 0 ? g.a[i].any().id() : g.idany(m.any)}}),
           json::object({{"num", 10 + i}, {"bs", jids(m.bs, [&](int k) { return g.idb(k); })}, {"as", jids(m.as, [&](int k) { return g.ida(k); })},
                         {"anys", jids(m.anys, [&](int k) { return g.idany(k); })}, {"leaves", jids(m.leaves, [&](int k) { return g.idl(k); })}, {"ints", m.ints.empty() ? json::array() : json(m.ints)}, {"comps", comps}}),
           "object-json");
}
void jsonB(const Graph& g, int i, const json& got) {
  const auto& m = g.mb[i];
  sameJson(withoutOne(got, {{"a", m.a < 0 ? g.b[i].a().id() : g.ida(m.a)}}),
           json::object({{"tag", static_cast<short>(-5 - i)}, {"num", 20 + i}, {"leaves", jids(m.leaves, [&](int k) { return g.idl(k); })}, {"as", jids(m.as, [&](int k) { return g.ida(k); })}}), "object-json");
}
void rowA(Out& o, const Graph& g, int i) {
  const auto& m = g.ma[i];
  o << idText(g.ida(i), o) << " " << 10 + i << " \n";
  ids(o, "bs", m.bs, [&](int k) { return g.idb(k); });
  ids(o, "as", m.as, [&](int k) { return g.ida(k); });
  ids(o, "anys", m.anys, [&](int k) { return g.idany(k); });
  ids(o, "leaves", m.leaves, [&](int k) { return g.idl(k); });
  one(o, "b", m.b < 0 ? g.a[i].b().id() : g.idb(m.b));
  one(o, "any", m.any < 0 ? g.a[i].any().id() : g.idany(m.any));
  o << " ints : ";
  for (int k : m.ints) {
    o << k << " ";
  }
  o << "\n comps : ";
  for (int k : m.comps) {
    value(o, someComp(k));
    o << " ";
  }
  o << "\n";
}
void rowB(Out& o, const Graph& g, int i) {
  const auto& m = g.mb[i];
  o << idText(g.idb(i), o) << " " << static_cast<short>(-5 - i) << " " << 20 + i << " \n";
  ids(o, "leaves", m.leaves, [&](int k) { return g.idl(k); });
  ids(o, "as", m.as, [&](int k) { return g.ida(k); });
  one(o, "a", m.a < 0 ? g.b[i].a().id() : g.ida(m.a));
}

VF_SCENARIO_OPT(graphs, 2, 3, 4, false) {
  vf::noLeakCheck(); // cyclic relations of untracked objects
  Graph g(vf::flip());
  for (int i = 0; i < vf::depth(); ++i) {
    g.op();
    vf::step();
    if (vf::last(i)) {
      break;
    }
  }
  // all formats are tried with short histories in the scenario formats
  const auto& f = formats[vf::thorough() ? vf::choose(2) * 2 : 0];
  json before;
  for (int round = 0; round < 2; ++round) {
    for (int i = 0; i < 2; ++i) {
      auto a = plain(f), b = plain(f);
      textA(a, g, i);
      textB(b, g, i);
      same(printed(f, PA(g.a[i]), "an object"), a.str(), key1);
      same(printed(f, g.a[i], "a mutable object"), a.str(), key1);
      same(printed(f, vp::PB(g.b[i]), "an object"), b.str(), key1);
      same(printed(f, PAny(g.a[i]), "an interface"), a.str(), "interface-text");
      same(printed(f, PAny(g.b[i]), "an interface"), b.str(), "interface-text");
      jsonA(g, i, json(PA(g.a[i])));
      jsonA(g, i, json(g.a[i]));
      jsonB(g, i, json(vp::PB(g.b[i])));
    }
  }
  if (g.inColl) {
    auto ra = table(f), rb = table(f);
    for (int i = 0; i < 2; ++i) {
      rowA(ra, g, i);
      rowB(rb, g, i);
    }
    auto ta = printed(f, g.as, "a collection"), tb = printed(f, g.bs, "a collection");
    header(ta, {"id", "num"}, "table-header");
    header(tb, {"id", "tag", "num"}, "table-header");
    same(ta, ra.str(), "collection-text");
    same(tb, rb.str(), "collection-text");
    const json ja(g.as), jb(g.bs);
    VF_ASSERT(ja.is_array() && ja.size() == 2 && jb.is_array() && jb.size() == 2, "collection-json");
    for (int i = 0; i < 2; ++i) {
      jsonA(g, i, ja[i]);
      jsonB(g, i, jb[i]);
    }
  }
  g.dissolve();
}

VF_SCENARIO_OPT(formatsOfGraphs, 2, 2, 4, false) {
  vf::noLeakCheck();
  const auto& f = vf::pick(formats);
  Graph g(true);
  for (int i = 0; i < vf::depth(); ++i) {
    g.op();
    vf::step();
  }
  auto ra = table(f), rb = table(f);
  for (int i = 0; i < 2; ++i) {
    auto a = plain(f), b = plain(f);
    textA(a, g, i);
    textB(b, g, i);
    same(printed(f, PA(g.a[i]), "an object"), a.str(), key1);
    same(printed(f, vp::PB(g.b[i]), "an object"), b.str(), key1);
    rowA(ra, g, i);
    rowB(rb, g, i);
  }
  auto ta = printed(f, g.as, "a collection"), tb = printed(f, g.bs, "a collection");
  samePrints(f, g.as, ta, "a collection");
  samePrints(f, g.bs, tb, "a collection");
  header(ta, {"id", "num"}, "table-header");
  header(tb, {"id", "tag", "num"}, "table-header");
  same(ta, ra.str(), "collection-text");
  same(tb, rb.str(), "collection-text");
  VF_EQ(squeeze(printed(f, PAny::makeEmpty(), "an empty interface")), "[not available]", "unavailable-text");
  VF_EQ(squeeze(printed(f, PA::makeEmpty(), "an empty handle")), "[not available]", "unavailable-text");
  // an empty handle prints the same as a target of a relation
  g.dissolve();
}

// types without members, or with nothing at all
VF_SCENARIO(bareTypes, 1, 1) {
  const auto& f = vf::pick(formats);
  PLeafCollection leaves;
  PACollection as;
  PRelCollection rels;
  PNoneCollection nothing;
  for (int i = 0; i < 2; ++i) {
    leaves.create().e(0.5 + i);
  }
  as.create().num(10);
  auto x = rels.create();
  leaves.setID(0x33);
  as.setID(0x44);
  rels.setID(0x55);
  nothing.setID(0x66);
  const int nl = vf::choose(3), na = vf::choose(2);
  const bool leaf = vf::flip();
  std::vector<int> ls;
  for (int i = 0; i < nl; ++i) {
    x.addleaves(leaves[i]);
    ls.push_back(i);
  }
  if (na) {
    x.addas(as[0]);
  }
  if (leaf) {
    x.leaf(leaves[1]);
  }
  const auto lid = leaf ? podio::ObjectID{1, 0x33} : x.leaf().id();
  auto want = plain(f);
  want << " id: " << idText({0, 0x55}, want) << "\n";
  one(want, "leaf", lid);
  want << " leaves : ";
  for (int i : ls) {
    leafText(want, {i, 0x33}, i);
  }
  want << "\n as : ";
  if (na) {
    // an object of a type that does not lead back here is shown as it is
    want << printed(f, as[0], "an object");
  }
  same(printed(f, x, "an object"), want.str(), key1);
  auto row = table(f);
  row << idText({0, 0x55}, row) << "\n";
  ids(row, "leaves", ls, [](int i) { return podio::ObjectID{i, 0x33}; });
  ids(row, "as", na ? std::vector<int>{0} : std::vector<int>{}, [](int i) { return podio::ObjectID{i, 0x44}; });
  one(row, "leaf", lid);
  auto text = printed(f, rels, "a collection");
  header(text, {"id"}, "table-header");
  same(text, row.str(), "collection-text");
  const json j(rels);
  VF_ASSERT(j.is_array() && j.size() == 1, "collection-json");
  sameJson(withoutOne(j[0], {{"leaf", lid}}), json::object({{"leaves", jids(ls, [](int i) { return podio::ObjectID{i, 0x33}; })}, {"as", na ? json::array({jid({0, 0x44})}) : json::array()}}), "object-json");

  const int nn = vf::choose(3);
  auto nrow = table(f);
  for (int i = 0; i < nn; ++i) {
    auto o = nothing.create();
    nrow << idText({i, 0x66}, nrow) << "\n";
  }
  nothing.setID(0x66);
  for (int i = 0; i < nn; ++i) {
    auto nw = plain(f);
    nw << " id: " << idText({i, 0x66}, nw);
    same(printed(f, nothing[i], "an object"), nw.str(), key1);
  }
  text = printed(f, nothing, "a collection");
  header(text, {"id"}, "table-header");
  same(text, nrow.str(), "collection-text");
  const json jn(nothing);
  VF_ASSERT(jn.is_array() && jn.size() == static_cast<size_t>(nn), "collection-json");
}

// ---------------------------------------------------------------- links
VF_SCENARIO(links, 1, 1) {
  const auto& f = vf::pick(formats);
  PLeafCollection leaves;
  PACollection as;
  vp::PBCollection bs;
  for (int i = 0; i < 2; ++i) {
    leaves.create();
    as.create();
    bs.create();
  }
  leaves.setID(0x33);
  as.setID(0x44);
  bs.setID(0x77);
  PLinkCollection c;
  PAnyLinkCollection d;
  struct M {
    podio::ObjectID from, to, from2, to2;
    float w;
  };
  std::vector<M> m;
  const float ws[] = {1.f, -0.25f, 1e30f};
  const int n = vf::choose(3);
  for (int i = 0; i < n; ++i) {
    auto l = c.create();
    auto k = d.create();
    const int from = vf::choose(3), to = vf::choose(3);
    const float w = vf::pick(ws);
    l.setWeight(w);
    k.setWeight(w);
    if (from) {
      l.setFrom(as[from - 1]);
      if (from == 1) {
        k.setFrom(PAny(bs[1]));
      } else {
        k.setFrom(PAny(as[0]));
      }
    }
    if (to) {
      l.setTo(leaves[to - 1]);
      k.setTo(as[to - 1]);
    }
    m.push_back({from ? podio::ObjectID{from - 1, 0x44} : l.getFrom().id(), to ? podio::ObjectID{to - 1, 0x33} : l.getTo().id(),
                 from == 1 ? podio::ObjectID{1, 0x77} : from ? podio::ObjectID{0, 0x44} : k.getFrom().id(), to ? podio::ObjectID{to - 1, 0x44} : k.getTo().id(), w});
  }
  c.setID(0x88);
  d.setID(0x99);
  auto look = [&](const auto& coll, uint32_t id, bool second) {
    using C = std::remove_cvref_t<decltype(coll)>;
    auto rows = table(f);
    json all = json::array();
    for (int i = 0; i < n; ++i) {
      const auto from = second ? m[i].from2 : m[i].from, to = second ? m[i].to2 : m[i].to;
      auto want = plain(f);
      want << " id: " << idText({i, id}, want) << "\n weight: " << m[i].w << "\n from: " << idText(from, want) << "\n to: " << idText(to, want) << "\n";
      const typename C::value_type l = coll[i];
      same(printed(f, l, "a link"), want.str(), "link-text");
      rows << idText({i, id}, rows) << " " << m[i].w << "\n from : " << idText(from, rows) << "\n to : " << idText(to, rows) << "\n";
      const json j = json::object({{"weight", m[i].w}, {"from", jid(from)}, {"to", jid(to)}});
      sameJson(json(l), j, "link-json");
      all.push_back(j);
    }
    auto text = printed(f, coll, "a link collection");
    samePrints(f, coll, text, "a link collection");
    header(text, {"id", "weight"}, "table-header");
    same(text, rows.str(), "link-collection-text");
    sameJson(json(coll), all, "link-collection-json");
    VF_EQ(squeeze(printed(f, C::value_type::makeEmpty(), "an empty link")), "[not available]", "unavailable-text");
  };
  look(std::as_const(c), 0x88, false);
  look(std::as_const(d), 0x99, true);
  PLinkCollection sub;
  sub.setSubsetCollection();
  auto rows = table(f);
  for (int i = n - 1; i >= 0; --i) {
    sub.push_back(c[i]);
    rows << idText({i, 0x88}, rows) << " " << m[i].w << "\n from : " << idText(m[i].from, rows) << "\n to : " << idText(m[i].to, rows) << "\n";
  }
  auto text = printed(f, sub, "a subset link collection");
  header(text, {"id", "weight"}, "table-header");
  same(text, rows.str(), "link-collection-text");
}

// ---------------------------------------------------------------- user data and parameters
template <class T>
void userData(const Format& f) {
  podio::UserDataCollection<T> c;
  std::vector<T> v;
  const int n = vf::choose(4), k = vf::choose(6);
  for (int i = 0; i < n; ++i) {
    v.push_back(some<T>(k + i));
    c.push_back(v.back());
  }
  auto want = plain(f);
  want << "[";
  for (int i = 0; i < n; ++i) {
    want << (i ? ", " : "") << v[i];
  }
  want << "]";
  const auto text = printed(f, c, "user data");
  samePrints(f, c, text, "user data");
  VF_EQ(text, want.str(), "user-data-text");
  VF_ASSERT(std::equal(c.begin(), c.end(), v.begin(), v.end()), "object-changed");
  if constexpr (requires { json(c); }) {
    sameJson(json(c), v.empty() ? json::array() : json(v), "user-data-json");
  }
}
VF_SCENARIO(userDataCollections, 1, 1) {
  const auto& f = vf::pick(formats);
  switch (vf::choose(9)) {
  case 0: userData<float>(f); break;
  case 1: userData<double>(f); break;
  case 2: userData<std::int16_t>(f); break;
  case 3: userData<std::int32_t>(f); break;
  case 4: userData<std::int64_t>(f); break;
  case 5: userData<std::uint16_t>(f); break;
  case 6: userData<std::uint32_t>(f); break;
  case 7: userData<std::uint64_t>(f); break;
  default: vf::prune();
  }
}

VF_SCENARIO(parameters, 2, 3) {
  const auto& f = vf::pick(formats);
  const char* keys[] = {"a", "", "two words", "a key that is longer than thirty characters", "[1]"};
  const std::string strings[] = {"", "text", "a, b", "[x]", "line\nbreak"};
  podio::GenericParameters p;
  std::map<std::string, std::vector<int>> mi;
  std::map<std::string, std::vector<float>> mf;
  std::map<std::string, std::vector<double>> md;
  std::map<std::string, std::vector<std::string>> ms;
  for (int i = 0; i < vf::depth(); ++i) {
    const int type = vf::choose(5);
    if (type == 4) {
      break;
    }
    const std::string key = vf::pick(keys);
    const int n = vf::choose(3), k = vf::choose(3);
    auto put = [&](auto& map, auto&& make) {
      typename std::remove_cvref_t<decltype(map)>::mapped_type v;
      for (int j = 0; j < n; ++j) {
        v.push_back(make(k + j));
      }
      map[key] = v;
      p.set(key, v);
    };
    if (type == 0) {
      put(mi, [](int j) { return some<int>(j); });
    } else if (type == 1) {
      put(mf, [](int j) { return some<float>(j); });
    } else if (type == 2) {
      put(md, [](int j) { return some<double>(j + 5); });
    } else {
      put(ms, [&](int j) { return strings[j % 5]; });
    }
  }
  auto want = plain(f);
  auto show = [&](const char* title, const auto& map) {
    want << title << " parameters\n\n";
    want << "Key Value\n--------------------------------------------------------------------------------\n";
    for (const auto& [key, v] : map) {
      want << key << (key.size() < 30 ? " " : "") << "[";
      for (size_t i = 0; i < v.size(); ++i) {
        want << (i ? ", " : "") << v[i];
      }
      want << "]\n";
    }
  };
  show("int", mi);
  show("float", mf);
  show("double", md);
  show("std::string", ms);
  same(print(f, [&](std::ostream& os) { p.print(os, true); }, "parameters"), want.str(), "parameters-text");
  same(print(f, [&](std::ostream& os) { p.print(os, false); }, "parameters"), want.str(), "parameters-text");
  VF_ASSERT(p.getKeys<int>().size() == mi.size() && p.getKeys<float>().size() == mf.size() && p.getKeys<double>().size() == md.size() && p.getKeys<std::string>().size() == ms.size(), "object-changed");
}

// components on their own
VF_SCENARIO(components, 1, 1) {
  const auto& f = vf::pick(formats);
  const int k = vf::choose(24);
  const Comp c = someComp(k);
  auto want = plain(f), win = plain(f);
  value(want, c);
  value(win, c.in);
  same(printed(f, c, "a component"), want.str(), "component-text");
  same(printed(f, c.in, "a component"), win.str(), "component-text");
  sameJson(json(c), jcomp(c), "component-json");
  sameJson(json(Single{some<float>(k)}), json::object({{"only", some<float>(k)}}), "component-json");
}
} // namespace
