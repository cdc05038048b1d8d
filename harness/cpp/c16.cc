// C16: interface objects stand for exactly the object put into them
#include "store.h"
#include "vfi/vfi.h"
#include <functional>
#include <optional>
#include <set>
using namespace vfm_;
namespace {
template <class T, class Tuple>
struct IndexOf;
template <class T, class... Ts>
struct IndexOf<T, std::tuple<T, Ts...>> : std::integral_constant<int, 0> {};
template <class T, class U, class... Ts>
struct IndexOf<T, std::tuple<U, Ts...>> : std::integral_constant<int, 1 + IndexOf<T, std::tuple<Ts...>>::value> {};

// all members an interface offers
std::string members(const AnyObj& x) { return num(x.energy()); }
std::string str(const ix::Pt& p) { return num(p.x) + "/" + num(p.y); }
std::string members(const ix::Any& x) {
  return num(x.getNum()) + "," + str(x.getPt()) + "," + vfm_::str(x.getArr()) + "," + num(x.getOn());
}
std::string members(const ix::Num& x) { return num(x.getNum()); }
template <class T>
std::string membersOf(const T& x, const AnyObj*) {
  return num(x.energy());
}
template <class T>
std::string membersOf(const T& x, const ix::Any*) {
  return num(x.getNum()) + "," + str(x.getPt()) + "," + vfm_::str(x.getArr()) + "," + num(x.getOn());
}
template <class T>
std::string membersOf(const T& x, const ix::Num*) {
  return num(x.getNum());
}
template <class T>
void fill(T& h, int v) {
  if constexpr (requires { h.energy(1.); }) {
    h.energy(v + 0.25);
  } else {
    h.setNum(v);
    h.setPt(ix::Pt{v * 2.f, v * 4.});
    h.setArr({static_cast<short>(v), static_cast<short>(-v)});
    h.setOn(v % 2);
  }
}

template <class D>
void opsFix(void* dst, const void* src) {
  *static_cast<std::vector<D>*>(dst) = *static_cast<const std::vector<D>*>(src);
}

template <class I>
struct Ob { // an object that can be put into the interface
  int kind;
  bool alive{true}, mutAlive{true};
  std::function<void(I&, int form)> assign;
  std::function<I(int form)> make;
  std::function<void(const I&)> check; // against a full interface object
  std::function<void(int)> set;
  std::function<void()> drop; // forget the own handles
};
template <class I, class T>
void checkKinds(const I& x, const T& h) {
  std::apply(
      [&](auto... t) {
        auto one = [&](auto z) {
          using Z = decltype(z);
          constexpr bool want = std::is_same_v<Z, T>;
          VF_EQ(x.template isA<Z>(), want, "kind");
          if constexpr (want) {
            VF_ASSERT(x.template as<Z>() == h, "gives-back");
            VF_ASSERT((std::is_same_v<Z, decltype(x.template as<Z>())>), "gives-back");
          } else {
            VF_THROWS(std::runtime_error, x.template as<Z>(), "wrong-type");
          }
        };
        (one(t), ...);
      },
      typename I::interfaced_types{});
}
template <class I, class T>
Ob<I> make(typename T::collection_type* coll, int v) {
  using Mut = typename T::mutable_type;
  struct Store {
    std::optional<Mut> mut;
    std::optional<T> imm;
    int v;
  };
  auto s = std::make_shared<Store>();
  if (coll) {
    s->mut.emplace(coll->create());
  } else {
    s->mut.emplace();
  }
  s->v = v;
  fill(*s->mut, v);
  s->imm.emplace(*s->mut);
  Ob<I> o;
  o.kind = IndexOf<T, typename I::interfaced_types>::value;
  o.make = [s](int form) { return form == 0 ? I(*s->mut) : form == 1 ? I(*s->imm) : I(T(*s->mut)); };
  o.assign = [s](I& x, int form) {
    switch (form) {
    case 0:
      x = *s->mut;
      return;
    case 1:
      x = *s->imm;
      return;
    default:
      x = I(*s->imm);
    }
  };
  o.set = [s](int n) {
    fill(*s->mut, n);
    s->v = n;
  };
  o.check = [s](const I& x) {
    VF_ASSERT(x.isAvailable(), "availability");
    checkKinds(x, *s->imm);
    VF_ASSERT(x == *s->imm && !(x != *s->imm) && x == I(*s->mut), "equality");
    VF_ASSERT(x.id() == s->imm->id() && x.getObjectID() == s->mut->getObjectID(), "id");
    VF_EQ(members(x), membersOf(*s->imm, static_cast<const I*>(nullptr)), "members");
    // the members are those that were set last
    T tmp = *s->imm;
    Mut want = tmp.clone();
    fill(want, s->v);
    VF_EQ(members(x), membersOf(want, static_cast<const I*>(nullptr)), "members");
    VF_EQ(std::hash<I>{}(x), std::hash<I>{}(I(*s->imm)), "hash");
    std::ostringstream a, b;
    a << x;
    b << *s->imm;
    VF_EQ(a.str(), b.str(), "print");
  };
  o.drop = [s] {
    s->mut.reset();
    s->imm.reset();
  };
  return o;
}

template <class I>
struct Colls;
template <>
struct Colls<AnyObj> {
  HitCollection a;
  ClusterCollection b;
  PadCollection c;
  std::vector<Ob<AnyObj>> objs() {
    return {make<AnyObj, Hit>(nullptr, 1), make<AnyObj, Hit>(&a, 2),     make<AnyObj, Cluster>(nullptr, 3),
            make<AnyObj, Cluster>(&b, 4),  make<AnyObj, Pad>(nullptr, 5), make<AnyObj, Pad>(&c, 6)};
  }
};
template <class I>
struct IxColls {
  IxACollection a;
  ix::BCollection b;
  std::vector<Ob<I>> objs() {
    return {make<I, IxA>(nullptr, 1), make<I, IxA>(&a, 2), make<I, ix::B>(nullptr, 3), make<I, ix::B>(&b, 4)};
  }
};
template <>
struct Colls<ix::Any> : IxColls<ix::Any> {};
template <>
struct Colls<ix::Num> : IxColls<ix::Num> {};

template <class I>
struct IWorld {
  Colls<I> colls;
  std::vector<Ob<I>> objs{colls.objs()};
  struct Slot {
    std::optional<I> x;
    int o{-1}; // object, or -1 for an empty one
    int kind{0};
  };
  Slot s[3];
  int serial{20};

  IWorld() {
    for (auto& k : s) {
      k.x.emplace(I::makeEmpty());
    }
  }
  int object() {
    std::vector<int> c;
    for (size_t i = 0; i < objs.size(); ++i) {
      if (objs[i].mutAlive) {
        c.push_back(static_cast<int>(i));
      }
    }
    return vf::pickv(c);
  }
  static constexpr int nOps = 12;
  void op(int n) {
    const bool pair = (n >= 2 && n <= 5) || n == 8;
    const int i = n == 9 || n == 10 ? 0 : vf::choose(2), j = !pair || i == 1 ? 0 : 1 + vf::choose(2);
    switch (n) {
    case 0: {
      const int o = object(), form = vf::choose(3);
      vf::trace("s%d assigned from object %d (form %d)", i, o, form);
      objs[o].assign(*s[i].x, form);
      s[i].o = o;
      s[i].kind = objs[o].kind;
      return;
    }
    case 1: {
      const int o = object(), form = vf::choose(2);
      vf::trace("s%d made from object %d (form %d)", i, o, form);
      s[i].x.emplace(objs[o].make(form));
      s[i].o = o;
      s[i].kind = objs[o].kind;
      return;
    }
    case 2:
      vf::trace("s%d = s%d", i, j);
      *s[i].x = *s[j].x;
      s[i].o = s[j].o;
      s[i].kind = s[j].kind;
      return;
    case 3:
      vf::trace("s%d copy constructed from s%d", i, j);
      s[i].x.emplace(*s[j].x);
      s[i].o = s[j].o;
      s[i].kind = s[j].kind;
      return;
    case 4:
      vf::trace("s%d = move(s%d)", i, j);
      *s[i].x = std::move(*s[j].x);
      s[i].o = s[j].o;
      s[i].kind = s[j].kind;
      s[j].x.emplace(I::makeEmpty());
      s[j].o = -1;
      s[j].kind = 0;
      return;
    case 5:
      vf::trace("s%d move constructed from s%d", i, j);
      s[i].x.emplace(std::move(*s[j].x));
      s[i].o = s[j].o;
      s[i].kind = s[j].kind;
      s[j].x.emplace(I::makeEmpty());
      s[j].o = -1;
      s[j].kind = 0;
      return;
    case 6: {
      vf::trace("s%d = s%d (itself)", i, i);
      auto& self = *s[i].x;
      *s[i].x = self;
      return;
    }
    case 7:
      vf::trace("s%d.unlink()", i);
      s[i].x->unlink();
      s[i].o = -1;
      return;
    case 8:
      vf::trace("swap(s%d, s%d)", i, j);
      std::swap(*s[i].x, *s[j].x);
      std::swap(s[i].o, s[j].o);
      std::swap(s[i].kind, s[j].kind);
      return;
    case 9: {
      const int o = object();
      vf::trace("change object %d", o);
      objs[o].set(++serial);
      return;
    }
    case 10: { // handles go away, interfaces keep the object alive
      const int o = object();
      vf::trace("drop the handles of object %d", o);
      verify();
      std::string before[3];
      for (int k = 0; k < 3; ++k) {
        before[k] = s[k].o == o ? members(*s[k].x) : "";
      }
      objs[o].drop();
      objs[o].mutAlive = false;
      for (int k = 0; k < 3; ++k) {
        if (s[k].o == o) {
          VF_EQ(members(*s[k].x), before[k], "members-after-drop");
          VF_ASSERT(s[k].x->isAvailable(), "availability");
        }
      }
      return;
    }
    case 11:
      vf::trace("s%d = makeEmpty()", i);
      *s[i].x = I::makeEmpty();
      s[i].o = -1;
      s[i].kind = 0;
      return;
    }
  }
  std::string canon() const {
    std::string r;
    for (auto& k : s) {
      r += std::to_string(k.o) + "k" + std::to_string(k.kind) + ",";
    }
    for (auto& o : objs) {
      r += o.mutAlive ? "+" : "-";
    }
    return r + std::to_string(serial);
  }
  void verify() {
    for (auto& k : s) {
      if (k.o < 0) {
        VF_ASSERT(!k.x->isAvailable(), "empty-available");
        VF_ASSERT(k.x->id() == podio::ObjectID{}, "empty-id");
        continue;
      }
      if (objs[k.o].mutAlive) {
        objs[k.o].check(*k.x);
        for (size_t o = 0; o < objs.size(); ++o) {
          if (objs[o].mutAlive) {
            VF_EQ((*k.x == objs[o].make(1)), static_cast<int>(o) == k.o, "equality");
            VF_EQ((objs[o].make(0) == *k.x), static_cast<int>(o) == k.o, "equality");
          }
        }
      } else {
        VF_ASSERT(k.x->isAvailable(), "availability");
      }
      int kinds = 0;
      std::apply([&](auto... t) { (((kinds += k.x->template isA<decltype(t)>()), ...)); }, typename I::interfaced_types{});
      VF_EQ(kinds, 1, "one-kind");
    }
    for (auto& k : s) {
      for (auto& l : s) {
        const bool same = k.o == l.o && (k.o >= 0 || k.kind == l.kind);
        if (k.o >= 0 || l.o >= 0) {
          VF_EQ(*k.x == *l.x, same, "equality");
          VF_EQ(*k.x != *l.x, !same, "equality");
        }
        if (k.o >= 0 && l.o >= 0) {
          VF_EQ((*k.x < *l.x) || (*l.x < *k.x), !same, "order");
        }
      }
    }
    std::set<I> set;
    std::set<int> want;
    for (auto& k : s) {
      if (k.o >= 0) {
        set.insert(*k.x);
        want.insert(k.o);
      }
    }
    VF_EQ(set.size(), want.size(), "set");
    vf::state(std::string(I::typeName) + canon());
  }
  void finish() {}
};
template <class I>
void sequences() {
  IWorld<I> w;
  vf::run(w, [](auto& x) { x.op(vf::choose(IWorld<I>::nOps)); });
}
} // namespace
VF_SCENARIO(any_obj, 3, 4) { sequences<AnyObj>(); }
VF_SCENARIO(many_members, 3, 4) { sequences<ix::Any>(); }
VF_SCENARIO(other_order, 3, 4) { sequences<ix::Num>(); }

// interfaces as relations and link ends keep kind and identity, also read back
VF_SCENARIO(relations, 1, 1) {
  podio::Frame f;
  IxACollection as;
  ix::BCollection bs;
  ix::CCollection cs;
  IxLinkCollection ls;
  for (int i = 0; i < 2; ++i) {
    auto a = as.create();
    auto b = bs.create();
    fill(a, 10 + i);
    fill(b, 20 + i);
  }
  // 0 none, 1..2 as, 3..4 bs
  const int any = vf::choose(5), n = vf::choose(5), k = vf::choose(3);
  int anys[2] = {0, 0}, ns[2] = {0, 0};
  auto c = cs.create();
  auto l = ls.create();
  auto setAny = [&](int w, auto&& fa) {
    if (w == 1 || w == 2) {
      vf::flip() ? fa(as[w - 1]) : fa(std::as_const(as)[w - 1]);
    } else if (w >= 3) {
      fa(std::as_const(bs)[w - 3]);
    }
  };
  setAny(any, [&](auto h) {
    c.setAny(h);
    l.setFrom(h);
  });
  setAny(n, [&](auto h) {
    c.setN(h);
    l.set(ix::Num(h));
  });
  for (int i = 0; i < k; ++i) {
    anys[i] = 1 + vf::choose(4);
    ns[i] = anys[i] == 4 ? 1 : anys[i] + 1;
    if (anys[i] <= 2) {
      c.addToAnys(as[anys[i] - 1]);
    } else {
      c.addToAnys(std::as_const(bs)[anys[i] - 3]);
    }
    if (ns[i] <= 2) {
      c.addToNs(ix::Num(as[ns[i] - 1]));
    } else {
      c.addToNs(bs[ns[i] - 3]);
    }
  }
  auto check = [&](const ix::C& o, const podio::Link<ix::Any, ix::Num>& li, const IxACollection& ca, const ix::BCollection& cb,
                   const char* key) {
    auto is = [&](const auto& x, int w) {
      if (w == 0) {
        VF_ASSERT(!x.isAvailable(), key);
        return;
      }
      VF_ASSERT(x.isAvailable(), key);
      if (w <= 2) {
        VF_ASSERT(x.template isA<IxA>() && !x.template isA<ix::B>(), key);
        VF_ASSERT(x == ca[w - 1] && x.template as<IxA>() == ca[w - 1], key);
        VF_EQ(x.getNum(), 9 + w, key);
        VF_ASSERT(x.id() == ca[w - 1].id(), key);
        VF_THROWS(std::runtime_error, x.template as<ix::B>(), key);
      } else {
        VF_ASSERT(x.template isA<ix::B>() && !x.template isA<IxA>(), key);
        VF_ASSERT(x == cb[w - 3] && x.template as<ix::B>() == cb[w - 3], key);
        VF_EQ(x.getNum(), 17 + w, key);
        VF_ASSERT(x.id() == cb[w - 3].id(), key);
        VF_THROWS(std::runtime_error, x.template as<IxA>(), key);
      }
    };
    is(o.getAny(), any);
    is(o.getN(), n);
    is(li.getFrom(), any);
    is(li.getTo(), n);
    is(li.get<ix::Any>(), any);
    is(li.get<ix::Num>(), n);
    VF_EQ(o.anys_size(), static_cast<size_t>(k), key);
    VF_EQ(o.ns_size(), static_cast<size_t>(k), key);
    for (int i = 0; i < k; ++i) {
      is(o.getAnys(i), anys[i]);
      is(o.getNs(i), ns[i]);
    }
    int i = 0;
    for (const auto& x : o.getAnys()) {
      is(x, anys[i++]);
    }
    i = 0;
    for (const auto& x : o.getNs()) {
      is(x, ns[i++]);
    }
    vf::step();
  };
  check(c, l, as, bs, "written");
  f.put(std::move(as), "as");
  f.put(std::move(bs), "bs");
  f.put(std::move(cs), "cs");
  f.put(std::move(ls), "ls");
  check(f.get<ix::CCollection>("cs")[0], f.get<IxLinkCollection>("ls")[0], f.get<IxACollection>("as"), f.get<ix::BCollection>("bs"),
        "in-frame");
  // through the buffers
  std::map<uint32_t, std::unique_ptr<podio::CollectionBase>> back;
  for (auto name : {"as", "bs", "cs", "ls"}) {
    auto* w = const_cast<podio::CollectionBase*>(f.getCollectionForWrite(name));
    auto wb = w->getBuffers();
    auto b = podio::CollectionBufferFactory::instance().createBuffers(std::string(w->getTypeName()), w->getSchemaVersion(), false);
    VF_ASSERT(b.has_value(), "buffers");
    if (auto* v = dynamic_cast<IxACollection*>(w)) {
      opsFix<IxAData>(b->data, wb.vecPtr);
      (void)v;
    } else if (dynamic_cast<ix::BCollection*>(w)) {
      opsFix<ix::BData>(b->data, wb.vecPtr);
    } else if (dynamic_cast<ix::CCollection*>(w)) {
      opsFix<ix::CData>(b->data, wb.vecPtr);
    } else {
      opsFix<podio::LinkData>(b->data, wb.vecPtr);
    }
    for (size_t i = 0; b->references && i < b->references->size(); ++i) {
      *(*b->references)[i] = *(*wb.references)[i];
    }
    auto coll = b->createCollection(std::move(*b), false);
    coll->setID(w->getID());
    coll->prepareAfterRead();
    back[w->getID()] = std::move(coll);
  }
  struct Prov : podio::ICollectionProvider {
    std::map<uint32_t, std::unique_ptr<podio::CollectionBase>>& m;
    Prov(std::map<uint32_t, std::unique_ptr<podio::CollectionBase>>& x) : m(x) {}
    bool get(uint32_t id, podio::CollectionBase*& c) const override {
      auto it = m.find(id);
      if (it == m.end()) {
        return false;
      }
      c = it->second.get();
      return true;
    }
  } prov(back);
  for (auto& [id, p] : back) {
    p->setReferences(&prov);
  }
  auto at = [&](auto* t, const char* name) -> auto& {
    return dynamic_cast<std::remove_pointer_t<decltype(t)>&>(*back.at(f.get(name)->getID()));
  };
  const auto& bc = at(static_cast<ix::CCollection*>(nullptr), "cs");
  const auto& bl = at(static_cast<IxLinkCollection*>(nullptr), "ls");
  const auto& ba = at(static_cast<IxACollection*>(nullptr), "as");
  const auto& bb = at(static_cast<ix::BCollection*>(nullptr), "bs");
  check(std::as_const(bc)[0], std::as_const(bl)[0], ba, bb, "read-back");
  vf::state(std::to_string(any) + std::to_string(n) + std::to_string(anys[0]) + std::to_string(anys[1]));
}
// what can be put into an interface
namespace {
template <class I, class T>
constexpr bool takes = std::is_constructible_v<I, T>;
template <class I>
constexpr bool only() {
  return takes<I, IxA> && takes<I, MutableIxA> && takes<I, ix::B> && takes<I, ix::MutableB> && !takes<I, ix::C> && !takes<I, ix::MutableC> &&
      !takes<I, Hit> && !takes<I, int>;
}
} // namespace
VF_SCENARIO(initializable, 1, 1) {
  VF_ASSERT(only<ix::Any>(), "accepted-types");
  VF_ASSERT(only<ix::Num>(), "accepted-types");
  VF_ASSERT((takes<AnyObj, Hit> && takes<AnyObj, MutableHit> && takes<AnyObj, Cluster> && takes<AnyObj, Pad> && takes<AnyObj, MutablePad> &&
             !takes<AnyObj, Track> && !takes<AnyObj, MutableTrack>),
            "accepted-types");
  VF_ASSERT((AnyObj::isInitializableFrom<Hit> && AnyObj::isInitializableFrom<MutableHit> && !AnyObj::isInitializableFrom<Track>),
            "accepted-types");
  VF_EQ(std::string(ix::Any::typeName), "ix::Any", "type-name");
  VF_EQ(std::string(AnyObj::typeName), "AnyObj", "type-name");
  vf::step();
  vf::state(std::string("types"));
}
