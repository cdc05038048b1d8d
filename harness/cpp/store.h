// Helpers around the small data model "vfm": raw storage of collections that is
// independent of any I/O back end, and complete textual descriptions of objects
// through their public interface.
#ifndef VF_STORE_H
#define VF_STORE_H
#include "vf.h"

#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include "podio/LinkCollection.h"
#include "podio/UserDataCollection.h"
#include "vfm/vfm.h"

#include <any>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

namespace vfm_ {

using Pad = vf::Pad;
using MutablePad = vf::MutablePad;
using PadCollection = vf::PadCollection;
using Track = vf::Track;
using MutableTrack = vf::MutableTrack;
using TrackCollection = vf::TrackCollection;
using HCLinkColl = HitClusterLinkCollection;
using CCLinkColl = ClusterClusterLinkCollection;
using AHLinkColl = AnyHitLinkCollection;

// ------------------------------------------------------------ numbers
template <class T>
std::string num(T v) {
  if constexpr (std::is_floating_point_v<T>) {
    uint64_t b = 0;
    memcpy(&b, &v, sizeof v);
    char buf[32];
    snprintf(buf, sizeof buf, "%a", static_cast<double>(v));
    return std::isnan(v) ? "nan#" + std::to_string(b) : std::string(buf);
  } else if constexpr (std::is_same_v<T, bool>) {
    return v ? "T" : "F";
  } else {
    return std::to_string(v);
  }
}
inline std::string str(const vf::Vec3& v) { return "<" + num(v.x) + "," + num(v.y) + "," + num(v.n) + ">"; }
template <class T, size_t N>
std::string str(const std::array<T, N>& a) {
  std::string r = "(";
  for (auto& e : a) {
    r += num(e) + ";";
  }
  return r + ")";
}
inline std::string str(const Tag& t) { return "tag[" + num(t.a) + str(t.arr) + str(t.v) + "]"; }
template <class T>
  requires std::is_arithmetic_v<T>
std::string str(T v) {
  return num(v);
}
inline std::string str(const podio::ObjectID& id) {
  char b[40];
  snprintf(b, sizeof b, "%x|%d", id.collectionID, id.index);
  return b;
}

// ------------------------------------------------------------ raw storage
struct Raw { // type-erased vector
  std::string type;
  std::shared_ptr<void> vec;
};
struct StoredColl {
  std::string name, type, valueType;
  podio::SchemaVersionT version{0};
  bool subset{false};
  size_t registry{0};
  Raw data;
  std::vector<std::vector<podio::ObjectID>> refs;
  std::vector<Raw> vecs;
};

template <class D>
std::string rowStr(const D& d);
template <>
inline std::string rowStr(const HitData& d) {
  return num(d.cellID) + "," + num(d.energy) + "," + str(d.pos) + "," + str(d.idx) + "," + num(d.flag);
}
template <>
inline std::string rowStr(const ClusterData& d) {
  return num(d.energy) + "," + num(d.kind) + "," + num(d.hits_begin) + ":" + num(d.hits_end) + "," + num(d.subs_begin) + ":" +
      num(d.subs_end) + "," + num(d.counts_begin) + ":" + num(d.counts_end) + "," + num(d.points_begin) + ":" + num(d.points_end);
}
template <>
inline std::string rowStr(const vf::TrackData& d) {
  return num(d.chi2) + "," + str(d.tag) + "," + num(d.energy) + "," + num(d.things_begin) + ":" + num(d.things_end) + "," +
      num(d.next_begin) + ":" + num(d.next_end);
}
template <>
inline std::string rowStr(const vf::PadData& d) {
  return num(d.energy) + "," + num(d.z);
}
template <>
inline std::string rowStr(const podio::LinkData& d) {
  return num(d.weight);
}
template <>
inline std::string rowStr(const vf::Vec3& d) {
  return str(d);
}
template <class T>
  requires std::is_arithmetic_v<T>
std::string rowStr(const T& d) {
  return num(d);
}

struct VecOps {
  std::shared_ptr<void> (*copy)(const void*);
  void (*fill)(void* dst, const void* src);
  std::string (*show)(const void*);
};
template <class T>
VecOps vecOps() {
  using V = std::vector<T>;
  return {[](const void* p) -> std::shared_ptr<void> { return std::make_shared<V>(*static_cast<const V*>(p)); },
          [](void* d, const void* s) { *static_cast<V*>(d) = *static_cast<const V*>(s); },
          [](const void* p) {
            std::string r = "{";
            for (const auto& e : *static_cast<const V*>(p)) {
              if constexpr (std::is_same_v<T, bool>) {
                r += num(static_cast<bool>(e));
              } else {
                r += rowStr<T>(e);
              }
              r += " ";
            }
            return r + "}";
          }};
}
inline const std::map<std::string, VecOps>& ops() {
  static const std::map<std::string, VecOps> m = [] {
    std::map<std::string, VecOps> r;
    r["Hit"] = vecOps<HitData>();
    r["Cluster"] = vecOps<ClusterData>();
    r["vf::Pad"] = vecOps<vf::PadData>();
    r["vf::Track"] = vecOps<vf::TrackData>();
    r["podio::LinkData"] = vecOps<podio::LinkData>();
    r["vf::Vec3"] = vecOps<vf::Vec3>();
    r["int"] = vecOps<int>();
    r["float"] = vecOps<float>();
    r["double"] = vecOps<double>();
    r["int8_t"] = vecOps<int8_t>();
    r["int16_t"] = vecOps<int16_t>();
    r["int32_t"] = vecOps<int32_t>();
    r["int64_t"] = vecOps<int64_t>();
    r["uint8_t"] = vecOps<uint8_t>();
    r["uint16_t"] = vecOps<uint16_t>();
    r["uint32_t"] = vecOps<uint32_t>();
    r["uint64_t"] = vecOps<uint64_t>();
    return r;
  }();
  return m;
}
inline const VecOps& opsFor(const std::string& type) {
  auto it = ops().find(type);
  if (it == ops().end()) {
    vf::failf("unknown-storage-type", "type name '%s' is not one of the model", type.c_str());
  }
  return it->second;
}

// type of the rows of a collection
inline std::string rowType(const podio::CollectionBase& c) {
  const std::string dt{c.getDataTypeName()};
  const std::string vt{c.getValueTypeName()};
  if (dt == "podio::LinkData") {
    return dt;
  }
  return vt;
}

// reads what a writer would store
inline StoredColl storePrepared(const podio::CollectionBase& ccoll, const std::string& name) {
  auto& coll = const_cast<podio::CollectionBase&>(ccoll);
  StoredColl s;
  s.name = name;
  s.type = std::string(coll.getTypeName());
  s.valueType = std::string(coll.getValueTypeName());
  s.version = coll.getSchemaVersion();
  s.subset = coll.isSubsetCollection();
  s.registry = coll.getDatamodelRegistryIndex();
  auto buf = coll.getBuffers();
  if (!s.subset) {
    s.data.type = rowType(coll);
    VF_ASSERT(buf.vecPtr != nullptr, "write-buffers-missing");
    VF_ASSERT(buf.data != nullptr, "write-buffers-missing");
    // both views of the data (ROOT and SIO) are the same
    VF_ASSERT(*static_cast<void**>(buf.data) == buf.vecPtr, "write-buffers-differ");
    s.data.vec = opsFor(s.data.type).copy(buf.vecPtr);
  } else {
    VF_ASSERT(buf.data == nullptr && buf.vecPtr == nullptr, "subset-with-data");
  }
  if (buf.references) {
    for (auto& r : *buf.references) {
      s.refs.push_back(*r);
    }
  }
  if (buf.vectorMembers && !s.subset) {
    for (auto& [type, p] : *buf.vectorMembers) {
      // for writing, the pointer is the address of the pointer to the vector
      s.vecs.push_back({type, opsFor(type).copy(*static_cast<void**>(p))});
    }
  }
  return s;
}
inline StoredColl store(const podio::CollectionBase& coll, const std::string& name) {
  coll.prepareForWrite();
  return storePrepared(coll, name);
}

inline std::string show(const StoredColl& s) {
  std::string r = s.name + " " + s.type + " v" + std::to_string(s.version) + (s.subset ? " subset " : " ");
  if (s.data.vec) {
    r += opsFor(s.data.type).show(s.data.vec.get());
  }
  for (auto& v : s.refs) {
    r += " ref[";
    for (auto& id : v) {
      r += str(id) + " ";
    }
    r += "]";
  }
  for (auto& v : s.vecs) {
    r += " " + v.type + opsFor(v.type).show(v.vec.get());
  }
  return r;
}

inline std::optional<podio::CollectionReadBuffers> makeBuffers(const StoredColl& s) {
  auto b = podio::CollectionBufferFactory::instance().createBuffers(s.type, s.version, s.subset);
  if (!b) {
    return b;
  }
  b->schemaVersion = s.version;
  if (!s.subset) {
    opsFor(s.data.type).fill(b->data, s.data.vec.get());
  }
  if (b->references) {
    VF_ASSERT(b->references->size() == s.refs.size() || s.refs.empty(), "buffer-layout-references");
    for (size_t i = 0; i < s.refs.size(); ++i) {
      *(*b->references)[i] = s.refs[i];
    }
  }
  if (b->vectorMembers && !s.subset) {
    VF_ASSERT(b->vectorMembers->size() == s.vecs.size(), "buffer-layout-vectors");
    for (size_t i = 0; i < s.vecs.size(); ++i) {
      VF_ASSERT((*b->vectorMembers)[i].first == s.vecs[i].type, "buffer-layout-vector-types");
      opsFor(s.vecs[i].type).fill((*b->vectorMembers)[i].second, s.vecs[i].vec.get());
    }
  }
  return b;
}

// Everything a writer keeps of a Frame
struct Stored {
  std::vector<StoredColl> colls;
  podio::CollectionIDTable table;
  std::unique_ptr<podio::GenericParameters> params;
};

struct FDStats {
  std::map<std::string, int> unpacked;
  int calls{0};
};

// Raw data for a Frame. As with the real back ends every collection can be
// taken out once.
struct MemFrameData {
  std::shared_ptr<const Stored> st;
  std::shared_ptr<FDStats> stats;
  std::vector<std::string> missing; // in the table, but not stored
  std::vector<bool> taken;
  MemFrameData(std::shared_ptr<const Stored> s, std::vector<std::string> miss = {}, std::shared_ptr<FDStats> st_ = nullptr) :
      st(std::move(s)), stats(std::move(st_)), missing(std::move(miss)), taken(st->colls.size(), false) {
  }
  bool has(const std::string& n) const { return std::find(missing.begin(), missing.end(), n) == missing.end(); }
  podio::CollectionIDTable getIDTable() const { return {st->table.ids(), st->table.names()}; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& name) {
    if (stats) {
      stats->calls++;
    }
    for (size_t i = 0; i < st->colls.size(); ++i) {
      if (st->colls[i].name == name && has(name) && !taken[i]) {
        taken[i] = true;
        if (stats) {
          stats->unpacked[name]++;
        }
        return makeBuffers(st->colls[i]);
      }
    }
    return std::nullopt;
  }
  std::vector<std::string> getAvailableCollections() const {
    std::vector<std::string> r;
    for (size_t i = 0; i < st->colls.size(); ++i) {
      if (!taken[i] && has(st->colls[i].name)) {
        r.push_back(st->colls[i].name);
      }
    }
    return r;
  }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(*st->params); }
};

inline std::shared_ptr<const Stored> storeFrame(const podio::Frame& f, const std::vector<std::string>& names) {
  auto s = std::make_shared<Stored>();
  for (auto& n : names) {
    const auto* c = f.getCollectionForWrite(n);
    if (!c) {
      vf::failf("collection-not-writable", "collection %s is not available for writing", n.c_str());
    }
    s->colls.push_back(storePrepared(*c, n));
  }
  s->table = f.getCollectionIDTableForWrite();
  s->params = std::make_unique<podio::GenericParameters>(f.getParameters());
  return s;
}
inline std::string show(const Stored& s) {
  std::string r;
  for (auto& c : s.colls) {
    r += show(c) + "\n";
  }
  return r;
}

inline podio::Frame makeFrame(std::shared_ptr<const Stored> s, std::vector<std::string> missing = {},
                              std::shared_ptr<FDStats> stats = nullptr) {
  return podio::Frame(std::make_unique<MemFrameData>(std::move(s), std::move(missing), std::move(stats)));
}

// ------------------------------------------------------------ descriptions
// One object as seen through its accessors. Related objects are shown by ID and
// a digest of their own plain values, so that a wrong target shows even if the
// ID is right.
inline std::string plain(const Hit& h) {
  if (!h.isAvailable()) {
    return "n/a";
  }
  return "H" + num(h.cellID()) + "," + num(h.energy()) + "," + str(h.pos()) + "," + str(h.idx()) + "," + num(h.flag());
}
inline std::string plain(const Cluster& c) {
  if (!c.isAvailable()) {
    return "n/a";
  }
  return "C" + num(c.energy()) + "," + num(c.kind());
}
inline std::string plain(const Track& t) {
  if (!t.isAvailable()) {
    return "n/a";
  }
  return "T" + num(t.chi2()) + "," + str(t.tag()) + "," + num(t.energy());
}
inline std::string plain(const Pad& p) {
  if (!p.isAvailable()) {
    return "n/a";
  }
  return "P" + num(p.energy()) + "," + num(p.z());
}
inline std::string plain(const AnyObj& a) {
  if (!a.isAvailable()) {
    return "n/a";
  }
  std::string r = "A:" + num(a.energy()) + ":";
  int kinds = 0;
  if (a.isA<Hit>()) {
    r += plain(a.as<Hit>());
    kinds++;
  }
  if (a.isA<Cluster>()) {
    r += plain(a.as<Cluster>());
    kinds++;
  }
  if (a.isA<Pad>()) {
    r += plain(a.as<Pad>());
    kinds++;
  }
  return kinds == 1 ? r : "KINDS" + std::to_string(kinds);
}
template <class F, class T, bool M>
std::string plain(const podio::LinkT<F, T, M>& l) {
  return l.isAvailable() ? "L" + num(l.getWeight()) : "n/a";
}
// collections whose objects are to be shown as if they were not available
inline std::set<uint32_t>& hidden() {
  static std::set<uint32_t> s;
  return s;
}
template <class T>
std::string relStr(const T& o) {
  if (!o.isAvailable() || hidden().contains(o.getObjectID().collectionID)) {
    return "-";
  }
  return str(o.getObjectID()) + "=" + plain(o);
}
inline std::string full(const Pad& h) { return h.isAvailable() ? str(h.getObjectID()) + " " + plain(h) : "-"; }
inline std::string full(const Hit& h) { return h.isAvailable() ? str(h.getObjectID()) + " " + plain(h) : "-"; }
template <class T>
std::string rangeStr(size_t n, T&& at) {
  std::string r = "[";
  for (size_t i = 0; i < n; ++i) {
    r += at(i) + " ";
  }
  return r + "]";
}
inline std::string full(const Cluster& c) {
  if (!c.isAvailable()) {
    return "-";
  }
  std::string r = str(c.getObjectID()) + " " + plain(c);
  r += " hits" + rangeStr(c.hits_size(), [&](size_t i) { return relStr(c.hits(i)); });
  r += " subs" + rangeStr(c.subs_size(), [&](size_t i) { return relStr(c.subs(i)); });
  r += " seed " + relStr(c.seed()) + " parent " + relStr(c.parent());
  r += " counts" + rangeStr(c.counts_size(), [&](size_t i) { return num(c.counts(i)); });
  r += " points" + rangeStr(c.points_size(), [&](size_t i) { return str(c.points(i)); });
  return r;
}
inline std::string full(const Track& t) {
  if (!t.isAvailable()) {
    return "-";
  }
  std::string r = str(t.getObjectID()) + " " + plain(t);
  r += " things" + rangeStr(t.things_size(), [&](size_t i) { return relStr(t.things(i)); });
  r += " next" + rangeStr(t.next_size(), [&](size_t i) { return relStr(t.next(i)); });
  r += " best " + relStr(t.best());
  return r;
}
template <class F, class T>
std::string full(const podio::LinkT<F, T, false>& l) {
  if (!l.isAvailable()) {
    return "-";
  }
  return str(l.getObjectID()) + " L" + num(l.getWeight()) + " " + relStr(l.getFrom()) + " " + relStr(l.getTo());
}
template <class C>
std::string fullColl(const C& c) {
  std::string r{c.getTypeName()};
  r += c.isSubsetCollection() ? " subset" : "";
  r += " #" + std::to_string(c.size()) + "\n";
  for (size_t i = 0; i < c.size(); ++i) {
    if constexpr (std::is_arithmetic_v<typename C::value_type>) {
      r += num(c[i]) + " ";
    } else {
      r += "  " + (hidden().contains(c[i].getObjectID().collectionID) ? std::string("-") : full(c[i])) + "\n";
    }
  }
  return r;
}
// everything of a collection with its dynamic type
inline std::string describe(const podio::CollectionBase* c) {
  if (!c) {
    return "(null)";
  }
#define VF_TRY(T)                                                                                                      \
  if (auto* p = dynamic_cast<const T*>(c)) {                                                                           \
    return fullColl(*p);                                                                                               \
  }
  VF_TRY(HitCollection)
  VF_TRY(ClusterCollection)
  VF_TRY(TrackCollection)
  VF_TRY(PadCollection)
  VF_TRY(HCLinkColl)
  VF_TRY(CCLinkColl)
  VF_TRY(AHLinkColl)
  VF_TRY(podio::UserDataCollection<int32_t>)
  VF_TRY(podio::UserDataCollection<double>)
  VF_TRY(podio::UserDataCollection<float>)
  VF_TRY(podio::UserDataCollection<uint8_t>)
  VF_TRY(podio::UserDataCollection<uint64_t>)
  VF_TRY(podio::UserDataCollection<int8_t>)
  VF_TRY(podio::UserDataCollection<int16_t>)
  VF_TRY(podio::UserDataCollection<int64_t>)
  VF_TRY(podio::UserDataCollection<uint16_t>)
  VF_TRY(podio::UserDataCollection<uint32_t>)
#undef VF_TRY
  return "(unknown type " + std::string(c->getTypeName()) + ")";
}

} // namespace vfm_
#endif
