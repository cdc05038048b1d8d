// C21: data model definitions and metadata are registered and carried faithfully
#include "store.h"
#include "podio/DatamodelRegistry.h"
#include "podio/utilities/DatamodelRegistryIOHelpers.h"
#include "vfi/vfi.h"
#include "vfm/DatamodelDefinition.h"
#include "vfi/DatamodelDefinition.h"
#include <iostream>
#include <list>
using namespace vfm_;
using podio::DatamodelRegistry;
using podio::version::Version;
namespace {
long serial = 0;
struct Quiet {
  std::ostringstream os;
  std::streambuf *e, *o;
  Quiet() : e(std::cerr.rdbuf(os.rdbuf())), o(std::cout.rdbuf(os.rdbuf())) {}
  ~Quiet() {
    std::cerr.rdbuf(e);
    std::cout.rdbuf(o);
  }
};
// what is registered has to live as long as the process
const std::string& keep(std::string s) {
  static std::list<std::string> all;
  return all.emplace_back(std::move(s));
}
const podio::RelationNameMapping& keep(podio::RelationNameMapping m) {
  static std::list<podio::RelationNameMapping> all;
  return all.emplace_back(std::move(m));
}
using Names = std::vector<std::string>;
Names copy(const std::vector<std::string_view>& v) { return {v.begin(), v.end()}; }
std::string join(const Names& n) {
  std::string r;
  for (auto& s : n) {
    r += s + ",";
  }
  return r;
}
void relNames(const std::string& type, const Names& rel, const Names& vec, const char* key) {
  const auto r = DatamodelRegistry::instance().getRelationNames(type);
  if (copy(r.relations) != rel || copy(r.vectorMembers) != vec) {
    vf::failf(key, "%s has relations %s and vector members %s, expected %s and %s", type.c_str(), join(copy(r.relations)).c_str(),
              join(copy(r.vectorMembers)).c_str(), join(rel).c_str(), join(vec).c_str());
  }
}
struct MModel {
  bool known{false};
  size_t index{0};
  std::string def;
  Names rel[2], vec[2];
  bool withVersion{false}, judged{true};
  Version version{};
};
} // namespace

VF_SCENARIO_OPT(registrations, 3, 4, 3, false) {
  auto& reg = DatamodelRegistry::mutInstance();
  const std::string base = "vfdm" + std::to_string(serial++);
  const std::string names[3] = {base, base + "x", base + "X"};
  auto typeName = [&](int m, int t) { return t ? "ns::" + names[m] + "Thing" : names[m] + "CollectionType"; };
  MModel model[3];
  const int n = vf::choose(vf::depth() + 1);
  for (int i = 0; i < n; ++i) {
    const int m = vf::choose(3);
    const int kind = vf::choose(3);
    const auto& def = keep("{\"def\":" + std::to_string(i) + "}");
    const auto& suffix = std::to_string(i);
    // two types; the second kind has none, the third has no relations
    podio::RelationNameMapping map;
    Names rel[2], vec[2];
    if (kind != 1) {
      for (int t = 0; t < 2; ++t) {
        if (kind == 0) {
          rel[t] = {keep("many" + suffix), keep("one" + suffix + std::to_string(t))};
          vec[t] = t ? Names{} : Names{keep("v" + suffix)};
        }
        std::vector<std::string_view> r, v;
        for (auto& s : rel[t]) {
          r.push_back(keep(std::string(s)));
        }
        for (auto& s : vec[t]) {
          v.push_back(keep(std::string(s)));
        }
        map.emplace_back(keep(typeName(m, t)), r, v);
      }
    }
    const bool withVersion = vf::flip();
    const Version version{uint16_t(i), uint16_t(2), uint16_t(m)};
    vf::trace("registerDatamodel(%s, kind %d%s)", names[m].c_str(), kind, withVersion ? ", version" : "");
    const size_t idx = withVersion ? reg.registerDatamodel(names[m], def, keep(map), version) : reg.registerDatamodel(names[m], def, keep(map));
    vf::step();
    auto& e = model[m];
    if (!e.known) {
      for (auto& o : model) {
        VF_ASSERT(!o.known || o.index != idx, "new-index");
      }
      e.known = true;
      e.index = idx;
      e.def = def;
      for (int t = 0; t < 2; ++t) {
        e.rel[t] = rel[t];
        e.vec[t] = vec[t];
      }
      e.withVersion = withVersion;
      e.version = version;
    } else {
      VF_EQ(idx, e.index, "index-is-stable");
      if (withVersion && !e.withVersion) {
        e.judged = false; // registered again, with a version for the first time
      }
    }
  }
  std::string st;
  for (int m = 0; m < 3; ++m) {
    Quiet q;
    const auto& e = model[m];
    const auto& r = DatamodelRegistry::instance();
    VF_EQ(std::string(r.getDatamodelDefinition(names[m])), e.known ? e.def : "{}", "definition-by-name");
    if (e.known) {
      VF_EQ(std::string(r.getDatamodelDefinition(e.index)), e.def, "definition-by-index");
      VF_EQ(r.getDatamodelName(e.index), names[m], "name-by-index");
      VF_ASSERT(q.os.str().empty(), "no-warning-for-known");
    } else {
      VF_ASSERT(!q.os.str().empty(), "warning-for-unknown");
    }
    if (e.judged) {
      const auto v = r.getDatamodelVersion(names[m]);
      VF_EQ(v.has_value(), e.known && e.withVersion, "has-version");
      if (v) {
        VF_ASSERT(*v == e.version, "version");
      }
    }
    for (int t = 0; t < 2; ++t) {
      relNames(typeName(m, t), e.rel[t], e.vec[t], "relation-names");
      relNames(typeName(m, t) + "Collection", e.rel[t], e.vec[t], "relation-names-of-collection");
      relNames(typeName(m, t) + "Obj", {}, {}, "relation-names-of-other");
    }
    st += std::to_string(e.known) + e.def;
  }
  {
    Quiet q;
    const auto& r = DatamodelRegistry::instance();
    for (size_t idx : {DatamodelRegistry::NoDefinitionNecessary, DatamodelRegistry::NoDefinitionAvailable, size_t(1) << 40}) {
      VF_EQ(std::string(r.getDatamodelDefinition(idx)), std::string("{}"), "definition-of-unknown-index");
      VF_EQ(r.getDatamodelName(idx), std::string(), "name-of-unknown-index");
    }
    for (const char* nm : {"", "{}", "vf"}) {
      VF_EQ(std::string(r.getDatamodelDefinition(nm)), std::string("{}"), "definition-of-unknown-name");
      VF_ASSERT(!r.getDatamodelVersion(nm), "version-of-unknown-name");
    }
  }
  vf::state(st);
}

// indices count up, and the next one is not known yet
VF_SCENARIO_OPT(counting, 1, 1, 1, false) {
  auto& reg = DatamodelRegistry::mutInstance();
  static const podio::RelationNameMapping none;
  size_t prev = 0;
  for (int i = 0; i < 40; ++i) {
    const auto& name = keep("vfcount" + std::to_string(serial++));
    const auto idx = reg.registerDatamodel(name, name, none);
    VF_ASSERT(i == 0 || idx == prev + 1, "consecutive");
    prev = idx;
    Quiet q;
    VF_EQ(std::string(reg.getDatamodelDefinition(idx + 1)), std::string("{}"), "definition-of-next-index");
    VF_EQ(reg.getDatamodelName(idx + 1), std::string(), "name-of-next-index");
    for (size_t k = 0; k <= idx; ++k) {
      const auto nm = reg.getDatamodelName(k);
      VF_ASSERT(!nm.empty() && reg.getDatamodelDefinition(k) == reg.getDatamodelDefinition(nm), "by-name-and-by-index");
    }
    vf::step();
  }
}

namespace {
// a collection of a type without definition
struct Undefined : podio::UserDataCollection<int> {
  size_t getDatamodelRegistryIndex() const override { return DatamodelRegistry::NoDefinitionAvailable; }
};
} // namespace

VF_SCENARIO(collector, 4, 6) {
  HitCollection hits;
  TrackCollection tracks;
  HitCollection subset;
  subset.setSubsetCollection();
  IxACollection ixa;
  ix::CCollection ixc;
  podio::UserDataCollection<float> user;
  HCLinkColl links;
  Undefined undefined;
  struct {
    const podio::CollectionBase* c;
    const char* model;
  } const all[] = {{&hits, "vfm"}, {&ixa, "vfi"}, {&user, nullptr}, {&undefined, nullptr}, {&tracks, "vfm"}, {&ixc, "vfi"}, {&links, nullptr}, {&subset, "vfm"}};
  podio::DatamodelDefinitionCollector col;
  std::set<std::string> expected;
  const int n = vf::choose(vf::depth() + 1);
  for (int i = 0; i < n; ++i) {
    const auto& a = all[vf::choose(8)];
    vf::trace("registerDatamodelDefinition(%s of %s)", std::string(a.c->getTypeName()).c_str(), a.model ? a.model : "-");
    Quiet q;
    col.registerDatamodelDefinition(a.c, "name" + std::to_string(i % 2));
    VF_EQ(q.os.str().empty(), a.c != &undefined, "report-if-no-definition");
    if (a.model) {
      expected.insert(a.model);
    }
    vf::step();
    const auto defs = col.getDatamodelDefinitionsToWrite();
    VF_EQ(defs.size(), expected.size(), "number-of-definitions");
    std::set<std::string> got;
    for (auto& [name, def] : defs) {
      VF_ASSERT(got.insert(name).second, "each-once");
      VF_ASSERT(expected.count(name), "only-models-of-the-collections");
      VF_EQ(def, std::string(name == "vfm" ? vfm::meta::vfm__JSONDefinition : vfi::meta::vfi__JSONDefinition), "definition-of-the-model");
    }
  }
  std::string st;
  for (auto& e : expected) {
    st += e;
  }
  vf::state(st);
}

VF_SCENARIO(holder, 3, 4) {
  // any sequence of stored entries, any versions for them
  const std::string names[3] = {"a", "ab", ""};
  podio::DatamodelDefinitionHolder::MapType defs;
  podio::DatamodelDefinitionHolder::VersionList versions;
  std::map<std::string, std::string> def;
  std::map<std::string, Version> ver;
  Names order;
  const int n = vf::choose(4);
  for (int i = 0; i < n; ++i) {
    std::vector<std::string> left;
    for (auto& s : names) {
      if (!def.count(s)) {
        left.push_back(s);
      }
    }
    const auto nm = vf::pickv(left);
    const int d = vf::choose(3);
    def[nm] = d == 0 ? "" : d == 1 ? "{}" : "{\"" + nm + "\": 1}";
    defs.emplace_back(nm, def[nm]);
    order.push_back(nm);
  }
  const bool rev = vf::flip();
  for (int j = 0; j < 3; ++j) {
    const auto& nm = names[rev ? 2 - j : j];
    if (vf::flip()) {
      ver[nm] = Version{uint16_t(j), 65535, uint16_t(nm.size())};
      versions.emplace_back(nm, ver[nm]);
    }
  }
  podio::DatamodelDefinitionHolder h0(std::move(defs), std::move(versions));
  podio::DatamodelDefinitionHolder h1;
  for (auto& nm : {"a", "", "b"}) {
    VF_EQ(std::string(h1.getDatamodelDefinition(nm)), std::string("{}"), "empty-holder");
    VF_ASSERT(!h1.getDatamodelVersion(nm), "empty-holder");
  }
  VF_ASSERT(h1.getAvailableDatamodels().empty(), "empty-holder");
  podio::DatamodelDefinitionHolder* h = &h0;
  std::optional<podio::DatamodelDefinitionHolder> h2;
  switch (vf::choose(3)) {
  case 1:
    h1 = std::move(h0);
    h = &h1;
    break;
  case 2:
    h2.emplace(std::move(h0));
    h = &*h2;
    break;
  default:
    break;
  }
  VF_ASSERT(h->getAvailableDatamodels() == order, "available-models");
  for (const char* nm : {"a", "ab", "", "abc", "b", "A"}) {
    vf::step();
    VF_EQ(std::string(h->getDatamodelDefinition(nm)), def.count(nm) ? def[nm] : std::string("{}"), "stored-definition");
    const auto v = h->getDatamodelVersion(nm);
    VF_EQ(v.has_value(), ver.count(nm) == 1, "stored-version");
    if (v) {
      VF_ASSERT(*v == ver[nm], "stored-version");
    }
  }
}

// what generated models register
VF_SCENARIO(generated_models, 1, 1) {
  const auto& r = DatamodelRegistry::instance();
  HitCollection hits;
  ClusterCollection clusters;
  PadCollection pads;
  TrackCollection tracks;
  IxACollection a;
  ix::BCollection b;
  ix::CCollection c;
  for (const podio::CollectionBase* x : std::initializer_list<const podio::CollectionBase*>{&hits, &clusters, &pads, &tracks}) {
    const auto i = x->getDatamodelRegistryIndex();
    VF_EQ(r.getDatamodelName(i), std::string("vfm"), "model-of-collection");
    VF_EQ(std::string(r.getDatamodelDefinition(i)), std::string(vfm::meta::vfm__JSONDefinition), "definition-of-collection");
    VF_EQ(x->getSchemaVersion(), 3u, "schema-version");
  }
  for (const podio::CollectionBase* x : std::initializer_list<const podio::CollectionBase*>{&a, &b, &c}) {
    const auto i = x->getDatamodelRegistryIndex();
    VF_EQ(r.getDatamodelName(i), std::string("vfi"), "model-of-collection");
    VF_EQ(std::string(r.getDatamodelDefinition(i)), std::string(vfi::meta::vfi__JSONDefinition), "definition-of-collection");
    VF_EQ(x->getSchemaVersion(), 7u, "schema-version");
  }
  VF_ASSERT(std::string(vfm::meta::vfm__JSONDefinition) != vfi::meta::vfi__JSONDefinition, "definitions-differ");
  VF_ASSERT(!r.getDatamodelVersion("vfm"), "model-without-version");
  const auto v = r.getDatamodelVersion("vfi");
  VF_ASSERT(v && *v == (Version{12, 3, 45}), "model-with-version");
  for (const std::string s : {"", "Collection"}) {
    relNames("Hit" + s, {}, {}, "model-relation-names");
    relNames("Cluster" + s, {"hits", "subs", "seed", "parent"}, {"counts", "points"}, "model-relation-names");
    relNames("vf::Pad" + s, {}, {}, "model-relation-names");
    relNames("vf::Track" + s, {"things", "next", "best"}, {}, "model-relation-names");
    relNames("Track" + s, {}, {}, "model-relation-names");
    relNames("ix::C" + s, {"anys", "ns", "any", "n"}, {}, "model-relation-names");
    relNames("Nope" + s, {}, {}, "model-relation-names");
  }
  HCLinkColl l1;
  AHLinkColl l2;
  podio::UserDataCollection<double> u;
  for (const podio::CollectionBase* x : std::initializer_list<const podio::CollectionBase*>{&l1, &l2}) {
    relNames(std::string(x->getTypeName()), {"from", "to"}, {}, "link-relation-names");
    relNames(std::string(x->getValueTypeName()), {"from", "to"}, {}, "link-relation-names");
    VF_EQ(x->getDatamodelRegistryIndex(), DatamodelRegistry::NoDefinitionNecessary, "links-need-no-definition");
  }
  relNames(std::string(u.getTypeName()), {}, {}, "user-relation-names");
  VF_EQ(u.getDatamodelRegistryIndex(), DatamodelRegistry::NoDefinitionNecessary, "user-data-needs-no-definition");
  for (const char* s : {"Collection", "", "podio", "ollection"}) {
    relNames(s, {}, {}, "model-relation-names");
  }
}
