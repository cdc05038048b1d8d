// C20: schema evolution applies exactly the right function, and buffers are
// made for exactly the known types and versions
#include "store.h"
#include "podio/SchemaEvolution.h"
#include <iostream>
using namespace vfm_;
using podio::CollectionReadBuffers;
using podio::SchemaEvolution;
namespace {
long serial = 0; // both registries are process wide: every execution uses types of its own

struct Cerr {
  std::ostringstream os;
  std::streambuf *e, *o;
  Cerr() : e(std::cerr.rdbuf(os.rdbuf())), o(std::cout.rdbuf(os.rdbuf())) {}
  ~Cerr() {
    std::cerr.rdbuf(e);
    std::cout.rdbuf(o);
  }
};

struct Call {
  int id;
  unsigned version;
};
std::vector<Call> calls;

// a function with an identity that leaves a mark in the buffers
auto evolution(int id) {
  return [id](CollectionReadBuffers&& b, podio::SchemaVersionT v) -> CollectionReadBuffers {
    calls.push_back({id, v});
    *static_cast<int*>(b.data) += 1000 * (id + 1);
    return std::move(b);
  };
}
CollectionReadBuffers buffers(int value, unsigned version, std::string_view type) {
  CollectionReadBuffers b;
  b.data = new int(value);
  b.references = new podio::CollRefCollection(1);
  b.references->at(0) = std::make_unique<std::vector<podio::ObjectID>>(1, podio::ObjectID{3, 4});
  b.vectorMembers = new podio::VectorMembersInfo();
  b.schemaVersion = version;
  b.type = type;
  b.deleteBuffers = [](CollectionReadBuffers& x) {
    delete static_cast<int*>(x.data);
    delete x.references;
    delete x.vectorMembers;
    x.data = nullptr;
    x.references = nullptr;
    x.vectorMembers = nullptr;
  };
  return b;
}

struct Entry {
  std::vector<int> user, automatic; // ids in order of registration
};

} // namespace

// every sequence of registrations for two types of any current version, then
// every question
VF_SCENARIO_OPT(evolution_functions, 4, 5, 3, false) {
  const std::string base = "vfT" + std::to_string(serial++);
  const std::string names[3] = {base + "Collection", base + "Collection2", base + "Unknown"};
  unsigned current[2];
  std::map<unsigned, Entry> model[2];
  bool known[2] = {false, false};
  auto& se = SchemaEvolution::mutInstance();
  current[0] = 1 + vf::choose(4);
  current[1] = 1 + vf::choose(3);
  const int n = vf::choose(vf::depth() + 1);
  for (int i = 0; i < n; ++i) {
    const int t = vf::choose(2);
    const unsigned from = 1 + vf::choose(current[t]);
    const bool user = vf::flip();
    vf::trace("register(%d, from %u to %u, %s) = function %d", t, from, current[t], user ? "user" : "auto", i);
    if (user && i % 2 == 1) {
      se.registerEvolutionFunc(names[t], from, current[t], evolution(i)); // the default is user defined
    } else {
      se.registerEvolutionFunc(names[t], from, current[t], evolution(i),
                               user ? SchemaEvolution::Priority::UserDefined : SchemaEvolution::Priority::AutoGenerated);
    }
    known[t] = true;
    (user ? model[t][from].user : model[t][from].automatic).push_back(i);
    vf::step();
  }
  std::string st;
  for (int t = 0; t < 3; ++t) {
    const unsigned cur = t < 2 ? current[t] : 2;
    for (unsigned v = 0; v <= cur + 1; ++v) {
      for (int again = 0; again < 2; ++again) {
        calls.clear();
        auto b = buffers(7, v, names[t]);
        void* data = b.data;
        const auto* refs = b.references;
        const auto* vecs = b.vectorMembers;
        std::string said;
        std::optional<CollectionReadBuffers> r;
        {
          Cerr c;
          r = SchemaEvolution::instance().evolveBuffers(std::move(b), v, names[t]);
          said = c.os.str();
        }
        vf::step();
        VF_ASSERT(r->data == data && r->references == refs && r->vectorMembers == vecs, "same-buffers");
        VF_ASSERT(r->references->at(0)->size() == 1, "references-kept");
        VF_EQ(std::string(r->type), names[t], "type-kept");
        const int val = *static_cast<int*>(r->data);
        if (t < 2 && known[t] && v == current[t]) {
          VF_ASSERT(calls.empty() && val == 7, "current-version-is-passed-through");
          VF_ASSERT(said.empty(), "no-report-for-current");
          continue;
        }
        const bool has = t < 2 && v < current[t] && model[t].count(v);
        if (!has) {
          VF_ASSERT(calls.empty() && val == 7, "unregistered-is-not-touched");
          VF_ASSERT(said.find(names[t]) != std::string::npos, "unregistered-is-reported");
          continue;
        }
        VF_ASSERT(said.empty(), "no-report-for-registered");
        VF_EQ(calls.size(), size_t(1), "applied-once");
        VF_EQ(calls[0].version, v, "called-with-version");
        VF_EQ(val, 7 + 1000 * (calls[0].id + 1), "result-of-the-function");
        const auto& e = model[t][v];
        if (!e.user.empty()) {
          // registering two user functions is outside the contract
          VF_ASSERT(std::ranges::count(e.user, calls[0].id) == 1, "user-function-has-precedence");
        } else {
          VF_EQ(calls[0].id, e.automatic.back(), "last-automatic-function");
        }
        st += std::to_string(calls[0].id) + ",";
      }
    }
  }
  vf::state(st + std::to_string(n));
}

// many versions, functions registered in both directions
VF_SCENARIO_OPT(many_versions, 1, 1, 2, false) {
  const std::string name = "vfM" + std::to_string(serial++);
  const unsigned cur = 12;
  const bool down = vf::flip();
  const bool autoFirst = vf::flip();
  auto& se = SchemaEvolution::mutInstance();
  auto reg = [&](bool user) {
    for (unsigned i = 1; i < cur; ++i) {
      const unsigned v = down ? cur - i : i;
      if (user && v % 3 != 0) {
        continue;
      }
      se.registerEvolutionFunc(name, v, cur, evolution(v + (user ? 100 : 0)),
                               user ? SchemaEvolution::Priority::UserDefined : SchemaEvolution::Priority::AutoGenerated);
      // other types registered in between do not matter
      se.registerEvolutionFunc(name + std::to_string(v), 1, 2, evolution(500 + v), SchemaEvolution::Priority::UserDefined);
      vf::step();
    }
  };
  reg(!autoFirst);
  reg(autoFirst);
  for (unsigned v = 1; v <= cur; ++v) {
    calls.clear();
    Cerr c;
    auto r = SchemaEvolution::instance().evolveBuffers(buffers(1, v, name), v, name);
    if (v == cur) {
      VF_ASSERT(calls.empty(), "current-version-is-passed-through");
    } else {
      VF_EQ(calls.size(), size_t(1), "applied-once");
      VF_EQ(calls[0].id, int(v + (v % 3 == 0 ? 100 : 0)), "function-of-this-version");
    }
    VF_ASSERT(c.os.str().empty(), "no-report-for-registered");
  }
}

namespace {
auto creation(int id) {
  return [id](bool subset) {
    calls.push_back({id, subset});
    return buffers(id, 77, "x");
  };
}
} // namespace

// every sequence of registrations of creation functions, then every question
VF_SCENARIO_OPT(creation_functions, 4, 6, 3, false) {
  const std::string base = "vfB" + std::to_string(serial++);
  const std::string names[3] = {base + "Collection", base, base + "Unknown"};
  auto& fac = podio::CollectionBufferFactory::mutInstance();
  std::map<unsigned, int> model[3];
  const int n = vf::choose(vf::depth() + 1);
  for (int i = 0; i < n; ++i) {
    const int t = vf::choose(2);
    const unsigned version = 1 + vf::choose(4);
    vf::trace("registerCreationFunc(%d, %u) = function %d", t, version, i);
    fac.registerCreationFunc(names[t], version, creation(i));
    // all versions below that are not known yet behave the same way
    for (unsigned v = 1; v < version; ++v) {
      model[t].try_emplace(v, i);
    }
    model[t][version] = i;
    vf::step();
  }
  std::string st;
  for (int t = 0; t < 3; ++t) {
    for (unsigned v : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 0xffffffffu}) {
      for (bool subset : {false, true}) {
        calls.clear();
        auto b = podio::CollectionBufferFactory::instance().createBuffers(names[t], v, subset);
        vf::step();
        if (!model[t].count(v)) {
          VF_ASSERT(!b && calls.empty(), "unknown-gives-nothing");
        } else {
          VF_ASSERT(b.has_value(), "known-gives-buffers");
          VF_EQ(calls.size(), size_t(1), "created-once");
          VF_EQ(calls[0].id, model[t][v], "function-of-this-version");
          VF_EQ(calls[0].version, unsigned(subset), "subset-flag");
          VF_EQ(*static_cast<int*>(b->data), model[t][v], "buffers-of-the-function");
          st += std::to_string(calls[0].id);
        }
      }
    }
    st += "|";
  }
  vf::state(st);
}

namespace {
struct Shape {
  const char* type;
  unsigned version;
  size_t refs;
  std::vector<std::string> vecs;
};
const std::vector<Shape>& shapes() {
  static const std::vector<Shape> s = {
      {"HitCollection", 3, 0, {}},
      {"ClusterCollection", 3, 4, {"int", "vf::Vec3"}},
      {"vf::PadCollection", 3, 0, {}},
      {"vf::TrackCollection", 3, 3, {}},
      {HCLinkColl::typeName.data(), 1, 2, {}},
      {CCLinkColl::typeName.data(), 1, 2, {}},
      {AHLinkColl::typeName.data(), 1, 2, {}},
  };
  return s;
}
} // namespace

// the types of a generated model
VF_SCENARIO(model_buffers, 1, 1) {
  const auto& s = vf::pickv(shapes());
  const std::string type = s.type;
  for (unsigned v = 0; v <= s.version + 2; ++v) {
    for (bool subset : {false, true}) {
      auto b = podio::CollectionBufferFactory::instance().createBuffers(type, v, subset);
      vf::step();
      VF_EQ(b.has_value(), v >= 1 && v <= s.version, "known-versions");
      if (!b) {
        continue;
      }
      VF_EQ(std::string(b->type), type, "buffer-type");
      VF_EQ(b->data == nullptr, subset, "data-only-if-not-subset");
      VF_ASSERT(b->references, "buffers-exist");
      // subset collections need one list of references
      if (subset) {
        VF_ASSERT(b->references->size() >= 1, "subset-references");
      } else {
        VF_EQ(b->references->size(), s.refs, "number-of-references");
        VF_EQ(b->vectorMembers ? b->vectorMembers->size() : 0, s.vecs.size(), "number-of-vector-members");
        for (size_t i = 0; i < s.vecs.size(); ++i) {
          VF_EQ(b->vectorMembers->at(i).first, s.vecs[i], "vector-member-type");
          VF_ASSERT(b->vectorMembers->at(i).second, "vector-member-buffer");
        }
      }
      for (auto& r : *b->references) {
        VF_ASSERT(r && r->empty(), "empty-references");
      }
      if (vf::flip()) {
        b->deleteBuffers(*b);
        VF_ASSERT(!b->data && !b->references && !b->vectorMembers, "deleted");
      } else {
        Cerr c;
        auto old = b->schemaVersion;
        auto e = SchemaEvolution::instance().evolveBuffers(std::move(*b), old, type);
        VF_ASSERT(c.os.str().empty(), "model-types-are-known-to-schema-evolution");
        auto coll = e.createCollection(std::move(e), subset);
        VF_EQ(std::string(coll->getTypeName()), type, "collection-type");
        VF_EQ(coll->isSubsetCollection(), subset, "collection-subset");
        VF_EQ(coll->size(), size_t(0), "collection-empty");
        VF_EQ(coll->getSchemaVersion(), s.version, "collection-schema-version");
        coll->prepareAfterRead();
        VF_EQ(coll->size(), size_t(0), "collection-empty");
      }
      // every older version is known to the evolution (nothing to do for it)
      if (v < s.version) {
        Cerr c;
        auto ev = SchemaEvolution::instance().evolveBuffers(buffers(5, v, type), v, type);
        VF_ASSERT(c.os.str().empty(), "old-version-is-known");
        VF_EQ(*static_cast<int*>(ev.data), 5, "nothing-to-convert");
      }
    }
  }
}

// Frames apply the functions to the collections of that type and version only
VF_SCENARIO(frames, 1, 1) {
  static bool registered = false;
  if (!registered) {
    registered = true;
    for (unsigned v : {1u, 2u}) {
      SchemaEvolution::mutInstance().registerEvolutionFunc("HitCollection", v, 3, [](CollectionReadBuffers&& b, podio::SchemaVersionT ver) {
        for (auto& d : *static_cast<std::vector<HitData>*>(b.data)) {
          d.cellID += 100 * ver;
        }
        return std::move(b);
      });
    }
    SchemaEvolution::mutInstance().registerEvolutionFunc("vf::PadCollection", 1, 3, [](CollectionReadBuffers&& b, podio::SchemaVersionT ver) {
      for (auto& d : *static_cast<std::vector<vf::PadData>*>(b.data)) {
        d.energy += 1000. * ver;
      }
      return std::move(b);
    });
    // generated code loaded later does not replace what users registered
    for (unsigned v = 1; v <= 3; ++v) {
      SchemaEvolution::mutInstance().registerEvolutionFunc("HitCollection", v, 3, SchemaEvolution::noOpSchemaEvolution,
                                                           SchemaEvolution::Priority::AutoGenerated);
    }
  }
  podio::Frame f;
  HitCollection a, b;
  PadCollection p;
  HitCollection s;
  s.setSubsetCollection();
  for (int i = 0; i < 2; ++i) {
    auto x = a.create();
    x.cellID(10 + i);
    s.push_back(x);
    b.create().cellID(20 + i);
    p.create().energy(30 + i);
  }
  f.put(std::move(a), "a");
  f.put(std::move(b), "b");
  f.put(std::move(p), "p");
  f.put(std::move(s), "s");
  auto st = std::const_pointer_cast<Stored>(storeFrame(f, {"a", "b", "p", "s"}));
  const unsigned va = 1 + vf::choose(3), vb = 1 + vf::choose(3), vp = 1 + vf::choose(3), vs = 1 + vf::choose(3);
  st->colls[0].version = va;
  st->colls[1].version = vb;
  st->colls[2].version = vp;
  st->colls[3].version = vs;
  auto g = makeFrame(st);
  const int order = vf::choose(4);
  const char* names[4] = {"a", "b", "p", "s"};
  for (int i = 0; i < 4; ++i) {
    g.get(names[(i + order) % 4]);
    vf::step();
  }
  for (int again = 0; again < 2; ++again) {
    for (size_t i = 0; i < 2; ++i) {
      VF_EQ(g.get<HitCollection>("a")[i].cellID(), 10 + i + (va < 3 ? 100 * va : 0), "values-of-this-collection");
      VF_EQ(g.get<HitCollection>("b")[i].cellID(), 20 + i + (vb < 3 ? 100 * vb : 0), "values-of-this-collection");
      VF_EQ(g.get<PadCollection>("p")[i].energy(), 30. + i + (vp == 1 ? 1000. : 0.), "values-of-this-collection");
      VF_ASSERT(g.get<HitCollection>("s")[i] == g.get<HitCollection>("a")[i], "subset-elements");
    }
  }
}

