// C08: SIO files give back exactly the frames that were written. The podio part
// of the back end runs unchanged over a stand-in of the SIO library (see
// harness/sio), which keeps files in memory.
#include "ioframes.h"

#include "podio/DatamodelRegistry.h"
#include "podio/Reader.h"
#include "podio/ROOTReader.h"
#include "podio/SIOBlock.h"
#include "podio/SIOLegacyReader.h"
#include "podio/SIOReader.h"
#include "podio/SIOWriter.h"
#include "podio/SchemaEvolution.h"
#include "podio/Writer.h"
#include "podio/utilities/Glob.h"
#include "vfi/vfi.h"

#include "TFile.h"
#include "sioUtils.h"

#include <algorithm>
#include <optional>

using namespace vfm_;
namespace {
// ---------------------------------------------------------------- files
struct File {
  std::string name{"file.sio"};
  std::vector<Wrote> wrote;
  std::vector<int> of(const std::string& cat) const {
    std::vector<int> r;
    for (size_t i = 0; i < wrote.size(); ++i) {
      if (wrote[i].cat == cat) {
        r.push_back(static_cast<int>(i));
      }
    }
    return r;
  }
  Names cats() const {
    Names r;
    for (const auto& w : wrote) {
      if (std::find(r.begin(), r.end(), w.cat) == r.end()) {
        r.push_back(w.cat);
      }
    }
    return r;
  }
};
const Names someCats{"events", "runs", ""};

template <class Reader>
void overview(const Reader& r, const File& f) {
  Names cats;
  for (auto c : r.getAvailableCategories()) {
    cats.emplace_back(c);
  }
  if (sorted(cats) != sorted(f.cats())) {
    vf::failf("categories", "%zu categories are reported, not %zu", cats.size(), f.cats().size());
  }
  for (const auto& c : someCats) {
    VF_EQ(r.getEntries(c), f.of(c).size(), "entries");
  }
  VF_EQ(r.getEntries("unknown"), 0u, "entries");
  const auto& b = podio::version::build_version;
  VF_ASSERT(r.currentFileVersion() == b, "file-version");
  VF_ASSERT(!r.currentFileVersion("nothing").has_value(), "model-version");
  // definitions of exactly the models that were used
  auto& reg = podio::DatamodelRegistry::instance();
  std::set<std::string> models;
  for (const auto& w : f.wrote) {
    for (const auto& n : w.names) {
      const auto i = w.frame.get(n)->getDatamodelRegistryIndex();
      if (i != podio::DatamodelRegistry::NoDefinitionNecessary) {
        models.emplace(reg.getDatamodelName(i));
      }
    }
  }
  std::set<std::string> avail;
  for (const auto& m : r.getAvailableDatamodels()) {
    VF_ASSERT(avail.insert(m).second, "model-twice");
  }
  VF_ASSERT(avail == models, "models");
  for (const auto& m : avail) {
    VF_EQ(r.getDatamodelDefinition(m), reg.getDatamodelDefinition(m), "model-definition");
    const auto v = r.currentFileVersion(m), w = reg.getDatamodelVersion(m);
    VF_ASSERT(v.has_value() == w.has_value() && (!v || *v == *w), "model-version");
  }
  VF_EQ(r.getDatamodelDefinition("nothing"), "{}", "model-definition");
}

// everything of a file, front to back and back to front
void readAll(const File& f) {
  podio::SIOReader r;
  r.openFile(f.name);
  overview(r, f);
  for (const auto& c : f.cats()) {
    const auto idx = f.of(c);
    for (int i : idx) {
      auto d = r.readNextEntry(c);
      VF_ASSERT(d != nullptr, "entry-missing");
      podio::Frame g(std::move(d));
      same(g, f.wrote[i], {});
    }
    VF_ASSERT(r.readNextEntry(c) == nullptr, "beyond-the-end");
  }
  for (const auto& c : f.cats()) {
    const auto idx = f.of(c);
    for (int i = static_cast<int>(idx.size()); i >= 0; --i) {
      auto d = r.readEntry(c, static_cast<unsigned>(i));
      VF_EQ(d != nullptr, i < static_cast<int>(idx.size()), "entry-by-index");
      if (d) {
        podio::Frame g(std::move(d));
        same(g, f.wrote[idx[i]], {}, true);
      }
    }
  }
}
// SIO keeps one block for every collection
Names someOf(const Names& all) {
  Names r;
  switch (vf::choose(4)) {
  case 0:
    return all;
  case 1: // other order
    r.assign(all.rbegin(), all.rend());
    return r;
  case 2: // every other
    for (size_t i = 1; i < all.size(); i += 2) {
      r.push_back(all[i]);
    }
    return r;
  default:
    return r;
  }
}
} // namespace

// every short sequence of frames in any categories, with any selection
VF_SCENARIO_OPT(writing, 2, 3, 3, false) {
  vf::noLeakCheck();
  sio::files().clear();
  File f;
  {
    podio::SIOWriter w(f.name);
    const int n = vf::choose(vf::depth() + 1);
    for (int i = 0; i < n; ++i) {
      const auto& cat = vf::pickv(someCats);
      const int kind = vf::choose(4);
      podio::Frame fr = frameOf(kind, i + 1);
      const auto all = fr.getAvailableCollections();
      const bool whole = all.empty() || vf::flip();
      if (whole) {
        w.writeFrame(fr, cat);
        f.wrote.push_back({cat, all, std::move(fr)});
      } else {
        const auto names = someOf(all);
        w.writeFrame(fr, cat, names);
        f.wrote.push_back({cat, names, std::move(fr)});
      }
      vf::trace("frame %d of kind %d to '%s' with %zu of %zu collections", i, kind, cat.c_str(), f.wrote.back().names.size(), all.size());
      vf::step();
    }
    switch (vf::choose(3)) {
    case 0:
      w.finish();
      break;
    case 1:
      w.finish();
      w.finish();
      break;
    default:
      break; // done by the destructor
    }
  }
  readAll(f);
}

// Where reading in sequence goes on. After a request for an entry that does not
// exist that may be where it was before or past the end.
struct Position {
  std::set<size_t> at{0};
  // the entry that is read, given whether there was one
  size_t next(bool got, size_t size) const {
    for (size_t p : at) {
      if ((p < size) == got) {
        return p;
      }
    }
    vf::failf("entry", got ? "got an entry after the last one" : "no entry although there is one left");
  }
  void after(size_t p, bool got, bool indexed, size_t size) {
    if (got) {
      at = {p + 1};
    } else if (indexed) {
      at.insert(p);
    } else {
      std::erase_if(at, [&](size_t q) { return q < size; });
    }
  }
};

// every history of reads of some files
VF_SCENARIO_OPT(reading, 3, 4, 3, false) {
  vf::noLeakCheck();
  sio::files().clear();
  File f;
  {
    static const std::vector<std::vector<int>> patterns{{0, 0, 1, 0, 1}, {1, 0}, {0, 0, 0}, {2, 0, 2, 1}};
    podio::SIOWriter w(f.name);
    int s = 0;
    for (int cat : vf::pickv(patterns)) {
      ++s;
      podio::Frame fr = frameOf(s == 2 ? 2 : 1, s);
      w.writeFrame(fr, someCats[cat]);
      auto names = fr.getAvailableCollections();
      f.wrote.push_back({someCats[cat], std::move(names), std::move(fr)});
    }
  }
  std::optional<podio::SIOReader> first;
  first.emplace();
  first->openFile(f.name);
  auto& r = *first;
  std::map<std::string, Position> pos;
  for (int i = 0;; ++i) {
    const int c = vf::choose(4);
    const std::string cat = c < 3 ? someCats[c] : "unknown";
    const auto idx = f.of(cat);
    const int op = vf::choose(static_cast<int>(idx.size()) + 4);
    std::unique_ptr<podio::SIOFrameData> d;
    Names limit;
    size_t at = 0;
    if (op == 0) {
      vf::trace("next of '%s'", cat.c_str());
      d = r.readNextEntry(cat);
      at = pos[cat].next(d != nullptr, idx.size());
    } else if (op == 1) {
      vf::trace("next of '%s', only h", cat.c_str());
      limit = {"h"};
      d = r.readNextEntry(cat, limit);
      at = pos[cat].next(d != nullptr, idx.size());
    } else if (op == 2) {
      vf::trace("far beyond the end of '%s'", cat.c_str());
      at = 4000000000u;
      d = r.readEntry(cat, 4000000000u);
    } else {
      at = static_cast<size_t>(op - 3);
      vf::trace("entry %zu of '%s'", at, cat.c_str());
      d = r.readEntry(cat, static_cast<unsigned>(at));
    }
    VF_EQ(d != nullptr, at < idx.size(), "entry");
    pos[cat].after(at, d != nullptr, op > 1, idx.size());
    if (d) {
      podio::Frame g(std::move(d));
      same(g, f.wrote[idx[at]], limit);
    }
    vf::step();
    if (vf::last(i)) {
      break;
    }
  }
  overview(r, f);
}

// longer histories with small frames
VF_SCENARIO_OPT(positions, 5, 6, 3, false) {
  vf::noLeakCheck();
  static const std::vector<std::vector<int>> patterns{{0, 0, 1}, {1, 0, 1, 0}};
  static std::string kept[2];
  const int which = vf::choose(2);
  const auto& pattern = patterns[which];
  std::map<std::string, std::vector<int>> serials;
  for (size_t i = 0; i < pattern.size(); ++i) {
    serials[someCats[pattern[i]]].push_back(static_cast<int>(i));
  }
  if (kept[which].empty()) {
    sio::files().clear();
    podio::SIOWriter w("file.sio");
    for (size_t i = 0; i < pattern.size(); ++i) {
      podio::Frame fr;
      fr.putParameter("n", static_cast<int>(i));
      w.writeFrame(fr, someCats[pattern[i]]);
    }
    w.finish();
    kept[which] = sio::files()["file.sio"];
  }
  sio::files().clear();
  sio::files()["file.sio"] = kept[which];
  podio::SIOReader r;
  r.openFile("file.sio");
  std::map<std::string, Position> pos;
  for (int i = 0;; ++i) {
    const std::string cat = someCats[vf::choose(2)];
    const auto& idx = serials[cat];
    const int op = vf::choose(static_cast<int>(idx.size()) + 3);
    const size_t index = op == 1 ? 4000000000u : static_cast<size_t>(op - 2);
    if (op == 0) {
      vf::trace("next of '%s'", cat.c_str());
    } else {
      vf::trace("entry %zu of '%s'", index, cat.c_str());
    }
    auto d = op == 0 ? r.readNextEntry(cat) : r.readEntry(cat, static_cast<unsigned>(index));
    const size_t at = op == 0 ? pos[cat].next(d != nullptr, idx.size()) : index;
    VF_EQ(d != nullptr, at < idx.size(), "entry");
    pos[cat].after(at, d != nullptr, op != 0, idx.size());
    if (d) {
      podio::Frame g(std::move(d));
      VF_EQ(g.getParameter<int>("n").value_or(-1), idx[at], "entry");
    }
    VF_EQ(r.getEntries(cat), idx.size(), "entries");
    vf::step();
    if (vf::last(i)) {
      break;
    }
  }
}

// any selection of collections when reading
VF_SCENARIO_OPT(selections, 1, 1, 2, false) {
  vf::noLeakCheck();
  sio::files().clear();
  File f;
  {
    podio::SIOWriter w(f.name);
    podio::Frame fr = graph(2);
    w.writeFrame(fr, "events");
    f.wrote.push_back({"events", fr.getAvailableCollections(), std::move(fr)});
  }
  Names limit;
  for (const auto& n : f.wrote[0].names) {
    if (vf::flip()) {
      limit.push_back(n);
    }
  }
  podio::SIOReader r;
  r.openFile(f.name);
  auto d = r.readEntry("events", 0, limit);
  VF_ASSERT(d != nullptr, "entry");
  podio::Frame g(std::move(d));
  same(g, f.wrote[0], limit);
  if (limit.size() == 3) {
    limit.push_back("never");
    VF_THROWS(std::invalid_argument, r.readEntry("events", 0, limit), "selection-unknown");
    d = r.readEntry("events", 0);
    podio::Frame k(std::move(d));
    same(k, f.wrote[0], {});
  }
}

// every type of collection with every small size, also subsets
VF_SCENARIO_OPT(types, 1, 1, 2, false) {
  vf::noLeakCheck();
  sio::files().clear();
  const int n = vf::choose(4), s = vf::choose(5), what = vf::choose(10);
  File f;
  podio::Frame fr;
  switch (what) {
  case 0: fr.put(values<float>(n, s), "u"); break;
  case 1: fr.put(values<double>(n, s), "u"); break;
  case 2: fr.put(values<int8_t>(n, s), "u"); break;
  case 3: fr.put(values<int16_t>(n, s), "u"); break;
  case 4: fr.put(values<int32_t>(n, s), "u"); break;
  case 5: fr.put(values<int64_t>(n, s), "u"); break;
  case 6: fr.put(values<uint8_t>(n, s), "u"); break;
  case 7: fr.put(values<uint16_t>(n, s), "u"); break;
  case 8: fr.put(values<uint32_t>(n, s), "u"); break;
  case 9: fr.put(values<uint64_t>(n, s), "u"); break;
  }
  // clusters with vector members of any lengths
  ClusterCollection c, sub;
  sub.setSubsetCollection();
  HCLinkColl l;
  CCLinkColl k;
  for (int i = 0; i < n; ++i) {
    auto x = c.create(1. * i, s);
    for (int j = 0; j < (i + s) % 3; ++j) {
      x.addcounts(10 * i + j);
      x.addsubs(x);
    }
    for (int j = 0; j < (i + what) % 3; ++j) {
      x.addpoints(vf::Vec3{0.5 * j, 1.f * i, static_cast<int16_t>(s)});
    }
    if (s % 2) {
      sub.push_back(x);
    }
    auto y = l.create();
    y.setTo(x);
    y.setWeight(0.5f * i);
    auto z = k.create();
    if (i) {
      z.setFrom(x);
    }
    z.setTo(c[0]);
  }
  fr.put(std::move(c), "c");
  fr.put(std::move(sub), "sub");
  fr.put(std::move(l), "l");
  fr.put(std::move(k), "k");
  {
    podio::SIOWriter w(f.name);
    w.writeFrame(fr, "events");
    w.writeFrame(fr, "events", {"u"});
    w.writeFrame(fr, "events", {"sub", "u"});
  }
  for (int i = 0; i < 3; ++i) {
    podio::SIOReader r;
    r.openFile(f.name);
    auto d = r.readEntry("events", static_cast<unsigned>(i));
    VF_ASSERT(d != nullptr, "entry");
    podio::Frame g(std::move(d));
    // same() wants the frame
    Wrote w{"events", i == 0 ? fr.getAvailableCollections() : i == 1 ? Names{"u"} : Names{"sub", "u"}, std::move(fr)};
    same(g, w, {}, i == 0 && s % 2);
    fr = std::move(w.frame);
  }
}

// the models of the collections, several generations of files
VF_SCENARIO_OPT(generations, 3, 4, 1, false) {
  vf::noLeakCheck();
  sio::files().clear();
  File f;
  podio::Frame fr = graph(2);
  const int limit = vf::choose(2);
  for (int gen = 0; gen < vf::depth(); ++gen) {
    f.name = "gen" + std::to_string(gen) + ".sio";
    f.wrote.clear();
    {
      podio::SIOWriter w(f.name);
      auto names = fr.getAvailableCollections();
      std::sort(names.begin(), names.end());
      if (limit && gen == 1) {
        names.resize(names.size() / 2);
      }
      const bool readBefore = vf::flip();
      if (readBefore) {
        describe(fr.get("c"));
      }
      w.writeFrame(fr, "runs", names);
      f.wrote.push_back({"runs", names, std::move(fr)});
    }
    readAll(f);
    podio::SIOReader r;
    r.openFile(f.name);
    fr = podio::Frame(r.readEntry("runs", 0));
    vf::step();
  }
}

// a name that is not in the frame is refused and the file stays as it was
VF_SCENARIO_OPT(unavailable, 1, 1, 1, false) {
  vf::noLeakCheck();
  sio::files().clear();
  File f;
  const int when = vf::choose(3);
  const int where = vf::choose(3);
  {
    podio::SIOWriter w(f.name);
    for (int i = 0; i < 3; ++i) {
      podio::Frame fr = frameOf(1, i + 1);
      if (i == when) {
        Names n{"h", "u"};
        n.insert(n.begin() + where, "never");
        VF_THROWS(std::runtime_error, w.writeFrame(fr, "events", n), "unavailable-collection");
      }
      w.writeFrame(fr, "events");
      f.wrote.push_back({"events", fr.getAvailableCollections(), std::move(fr)});
    }
  }
  readAll(f);
}

// an interrupted writer leaves any beginning of the file
VF_SCENARIO_OPT(interrupted, 1, 2, 3, false) {
  vf::noLeakCheck();
  static const std::string whole = [] {
    sio::files().clear();
    podio::SIOWriter w("file.sio");
    for (int i = 0; i < vf::depth() + 1; ++i) {
      auto fr = frameOf(i % 2 ? 1 : 0, i + 1);
      w.writeFrame(fr, i == 2 ? "runs" : "events");
    }
    w.finish();
    return sio::files()["file.sio"];
  }();
  const int n = vf::choose(static_cast<int>(whole.size()));
  sio::files().clear();
  sio::files()["file.sio"] = whole.substr(0, n);
  vf::trace("%d of %zu bytes", n, whole.size());
  vf::step();
  try {
    podio::SIOReader r;
    r.openFile("file.sio");
    VF_ASSERT(r.getAvailableCategories().empty(), "interrupted-categories");
    VF_EQ(r.getEntries("events"), 0u, "interrupted-entries");
    VF_ASSERT(r.readNextEntry("events") == nullptr && r.readEntry("runs", 0) == nullptr, "interrupted-frames");
  } catch (const std::exception&) {
  }
}

// collections of older versions go through schema evolution
VF_SCENARIO_OPT(versions, 1, 1, 1, false) {
  vf::noLeakCheck();
  sio::files().clear();
  static const bool once = [] {
    auto& e = podio::SchemaEvolution::mutInstance();
    const auto latest = [](bool subset) { return podio::CollectionBufferFactory::instance().createBuffers("HitCollection", 3, subset).value(); };
    for (unsigned v = 1; v < 3; ++v) {
      podio::CollectionBufferFactory::mutInstance().registerCreationFunc("HitCollection", v, [v, latest](bool subset) {
        auto b = latest(subset);
        b.schemaVersion = v;
        return b;
      });
      e.registerEvolutionFunc("HitCollection", v, 3,
                              [v](podio::CollectionReadBuffers&& b, podio::SchemaVersionT from) {
                                VF_EQ(from, v, "evolved-from");
                                for (auto& h : *b.dataAsVector<HitData>()) {
                                  h.energy += 1000. * v;
                                }
                                return std::move(b);
                              },
                              podio::SchemaEvolution::Priority::UserDefined);
    }
    return true;
  }();
  (void)once;
  const int version = 1 + vf::choose(3);
  const int n = vf::choose(3);
  podio::Frame fr;
  HitCollection h, h2;
  for (int i = 0; i < n; ++i) {
    h.create().energy(i + 0.5);
    h2.create().energy(-i);
  }
  fr.put(std::move(h), "h");
  fr.put(std::move(h2), "h2");
  // a file as written by an older version: the version of the block is another
  {
    auto blk = podio::SIOBlockFactory::instance().createBlock(fr.getCollectionForWrite("h"), "h");
    VF_ASSERT(blk != nullptr, "block");
    VF_EQ(sio::version::major_version(blk->version()), 3, "block-version");
    VF_EQ(sio::version::minor_version(blk->version()), 0, "block-version");
    sio::write_device out;
    blk->write(out);
    auto back = podio::SIOBlockFactory::instance().createBlock("Hit", "h");
    sio::read_device in(sio::buffer_span(out.out().data(), out.out().size()));
    back->read(in, sio::version::encode_version(static_cast<uint16_t>(version), 0));
    VF_EQ(in.left(), 0u, "block-not-read");
    auto b = back->getBuffers();
    VF_EQ(b.schemaVersion, static_cast<unsigned>(version), "buffer-version");
    VF_EQ(b.type, "HitCollection", "buffer-type");
    auto ev = podio::SchemaEvolution::instance().evolveBuffers(std::move(b), static_cast<unsigned>(version), "HitCollection");
    const auto* rows = ev.dataAsVector<HitData>();
    VF_EQ(rows->size(), static_cast<size_t>(n), "size");
    for (int i = 0; i < n; ++i) {
      VF_EQ((*rows)[i].energy, i + 0.5 + (version < 3 ? 1000. * version : 0.), "evolved-value");
    }
    ev.deleteBuffers(ev);
  }
  // and in a file, of which only one collection is older
  struct Older : sio::block {
    std::shared_ptr<sio::block> in;
    Older(std::shared_ptr<sio::block> b, unsigned v) : sio::block(b->name(), sio::version::encode_version(static_cast<uint16_t>(v), 0)), in(std::move(b)) {}
    void read(sio::read_device&, sio::version_type) override {}
    void write(sio::write_device& d) override { in->write(d); }
  };
  {
    namespace su = podio::sio_utils;
    sio::ofstream out;
    out.open("old.sio", std::ios::binary);
    sio::block_list blocks{std::make_shared<podio::SIOVersionBlock>(podio::version::Version{0, 99, 1})};
    su::writeRecord(blocks, "podio_header_info", out, sizeof(podio::version::Version), false);
    const Names names{"h2", "h"};
    std::vector<su::StoreCollection> colls;
    for (const auto& c : names) {
      colls.emplace_back(c, fr.getCollectionForWrite(c));
    }
    podio::SIOFileTOCRecord toc;
    toc.addRecord("events", su::writeRecord({su::createCollIDBlock(colls, fr.getCollectionIDTableForWrite())}, "events_HEADER", out));
    auto data = su::createBlocks(colls, fr.getParameters());
    data[2] = std::make_shared<Older>(data[2], version);
    su::writeRecord(data, "events", out);
    const auto at = su::writeRecord({std::make_shared<podio::SIOFileTOCRecordBlock>(&toc)}, podio::sio_helpers::SIOTocRecordName, out);
    const uint64_t words = (static_cast<uint64_t>(podio::sio_helpers::SIOTocMarker) << 32) | static_cast<uint64_t>(at);
    out.write(reinterpret_cast<const char*>(&words), sizeof words);
    out.close();
  }
  podio::SIOReader r;
  r.openFile("old.sio");
  VF_ASSERT((r.currentFileVersion() == podio::version::Version{0, 99, 1}), "file-version");
  podio::Frame g(r.readEntry("events", 0));
  const auto &gh = g.get<HitCollection>("h"), &gh2 = g.get<HitCollection>("h2");
  VF_ASSERT(gh.size() == static_cast<size_t>(n) && gh2.size() == static_cast<size_t>(n), "size");
  for (int i = 0; i < n; ++i) {
    VF_EQ(gh[i].energy(), i + 0.5 + (version < 3 ? 1000. * version : 0.), "evolved-value");
    VF_EQ(gh2[i].energy(), -i, "value");
  }
  vf::step();
}

// files of the time before frames
VF_SCENARIO_OPT(legacy, 5, 6, 2, false) {
  vf::noLeakCheck();
  sio::files().clear();
  File f;
  const int n = vf::choose(3);
  {
    sio::ofstream out;
    out.open(f.name, std::ios::binary);
    podio::SIOFileTOCRecord toc;
    for (int i = 0; i < n; ++i) {
      podio::Frame fr = graph(i + 1);
      const auto names = fr.getAvailableCollections();
      std::vector<podio::sio_utils::StoreCollection> colls;
      for (const auto& c : names) {
        colls.emplace_back(c, fr.getCollectionForWrite(c));
      }
      if (i == 0) {
        sio::block_list blocks;
        blocks.emplace_back(podio::sio_utils::createCollIDBlock(colls, fr.getCollectionIDTableForWrite()));
        blocks.emplace_back(std::make_shared<podio::SIOVersionBlock>(podio::version::Version{0, 13, 7}));
        podio::sio_utils::writeRecord(blocks, "CollectionIDs", out);
      }
      toc.addRecord("event_record", podio::sio_utils::writeRecord(podio::sio_utils::createBlocks(colls, fr.getParameters()), "event_record", out));
      if (i == 0) {
        // records of other kinds are skipped
        sio::block_list none;
        toc.addRecord("run_record", podio::sio_utils::writeRecord(none, "run_record", out));
      }
      f.wrote.push_back({"events", names, std::move(fr)});
    }
    if (n == 0) {
      sio::block_list blocks;
      blocks.emplace_back(std::make_shared<podio::SIOCollectionIDTableBlock>(Names{}, std::vector<uint32_t>{}, Names{}, std::vector<short>{}));
      blocks.emplace_back(std::make_shared<podio::SIOVersionBlock>(podio::version::Version{0, 13, 7}));
      podio::sio_utils::writeRecord(blocks, "CollectionIDs", out);
    }
    sio::block_list blocks;
    blocks.emplace_back(std::make_shared<podio::SIOFileTOCRecordBlock>(&toc));
    const auto at = podio::sio_utils::writeRecord(blocks, podio::sio_helpers::SIOTocRecordName, out);
    const uint64_t words = (static_cast<uint64_t>(podio::sio_helpers::SIOTocMarker) << 32) | static_cast<uint64_t>(at);
    out.write(reinterpret_cast<const char*>(&words), sizeof words);
    out.close();
  }
  podio::SIOLegacyReader r;
  r.openFile(f.name);
  VF_EQ(r.getEntries("events"), static_cast<unsigned>(n), "entries");
  VF_EQ(r.getEntries("runs"), 0u, "entries");
  VF_ASSERT((r.currentFileVersion() == podio::version::Version{0, 13, 7}), "file-version");
  VF_ASSERT(r.getAvailableCategories() == std::vector<std::string_view>{"events"}, "categories");
  size_t pos = 0;
  for (int i = 0;; ++i) {
    const int op = vf::choose(n + 3);
    std::unique_ptr<podio::SIOFrameData> d;
    size_t at = pos;
    if (op == 0) {
      vf::trace("next");
      d = r.readNextEntry("events");
    } else if (op == 1) {
      vf::trace("other category");
      VF_ASSERT(r.readNextEntry("runs") == nullptr && r.readEntry("runs", 0) == nullptr, "category");
      at = SIZE_MAX;
    } else {
      at = static_cast<size_t>(op - 2);
      vf::trace("entry %zu", at);
      d = r.readEntry("events", static_cast<unsigned>(at));
    }
    if (at != SIZE_MAX) {
      VF_EQ(d != nullptr, at < static_cast<size_t>(n), "entry");
      if (d) {
        pos = at + 1;
        podio::Frame g(std::move(d));
        same(g, f.wrote[at], {});
      } else if (op != 0) {
        pos = SIZE_MAX - 1; // nothing is promised for what comes next
        break;
      }
    }
    vf::step();
    if (vf::last(i)) {
      break;
    }
  }
}

// the generic reader and writer pick the back end and hand everything on
VF_SCENARIO_OPT(facade, 1, 1, 2, false) {
  vf::noLeakCheck();
  sio::files().clear();
  auto& calls = podio::standin::calls();
  calls.clear();
  auto took = [&] {
    std::string r;
    for (auto& c : calls) {
      r += c + ";";
    }
    calls.clear();
    return r;
  };
  TFile::files() = {{"a.root", {"", "TTree"}}, {"b.root", {"TTree", "ROOT::RNTuple"}}, {"c.root", {"ROOT::Experimental::RNTuple"}}, {"d.root", {}}};
  switch (vf::choose(4)) {
  case 0: { // writers
    const char* types[] = {"default", "root", "ROOT", "rntuple", "RNTuple", "RNTUPLE"};
    const char* names[] = {"x.root", "x.sio", "x.y.sio", "x.sio.root", "x.dat"};
    const std::string type = vf::pick(types), name = vf::pick(names);
    const int env = vf::choose(3);
    if (env == 0) {
      unsetenv("PODIO_DEFAULT_WRITE_RNTUPLE");
    } else {
      setenv("PODIO_DEFAULT_WRITE_RNTUPLE", env == 1 ? "" : "1", 1);
    }
    std::string lower = type;
    for (auto& c : lower) {
      c = static_cast<char>(std::tolower(c));
    }
    std::string want;
    if (lower == "root" || (lower == "default" && name.ends_with(".root") && env != 2)) {
      want = "ROOTWriter";
    } else if (lower == "rntuple" || (lower == "default" && name.ends_with(".root"))) {
      want = "RNTupleWriter";
    } else if (lower == "default" && name.ends_with(".sio")) {
      want = "SIOWriter";
    }
    vf::trace("writer for %s of type %s: %s", name.c_str(), type.c_str(), want.c_str());
    auto fr = graph(1);
    if (want.empty()) {
      VF_THROWS(std::runtime_error, podio::makeWriter(name, type), "writer-for-unknown-file");
      VF_EQ(took(), "", "writer");
      return;
    }
    {
      auto w = podio::makeWriter(name, type);
      w.writeFrame(fr, "one");
      w.writeFrame(fr, "two", {"h", "c"});
      w.writeEvent(fr);
      w.writeEvent(fr, {"u"});
      podio::Writer w2 = std::move(w);
      w2.finish();
    }
    const std::string all = podio::standin::join(fr.getAvailableCollections());
    if (want != "SIOWriter") {
      VF_EQ(took(), want + " open <" + name + ">;" + want + " write 1 one " + all + ";" + want + " write 1 two <h><c>;" + want + " write 1 events " + all + ";" + want + " write 1 events <u>;" + want + " finish;",
            "writer");
    } else {
      VF_EQ(took(), "", "writer");
      auto r = podio::makeReader(name);
      VF_EQ(r.getEntries("one"), 1u, "reader-entries");
      VF_EQ(r.getEvents(), 2u, "reader-entries");
      const Names every = fr.getAvailableCollections();
      Wrote wr{"", every, std::move(fr)};
      auto g = r.readNextFrame("one");
      same(g, wr, {});
      g = r.readNextEvent();
      same(g, wr, {});
      wr.names = {"u"};
      g = r.readNextEvent();
      same(g, wr, {});
      VF_THROWS(std::exception, r.readNextEvent(), "reader-end");
      g = r.readEvent(1);
      same(g, wr, {});
      VF_THROWS(std::exception, r.readEvent(2), "reader-end");
      VF_THROWS(std::exception, r.readFrame("never", 0), "reader-end");
      wr.names = {"h", "c"};
      g = r.readFrame("two", 0);
      same(g, wr, {});
      g = r.readFrame("two", 0, {"c"});
      same(g, wr, {"c"});
      g = r.readEvent(0, {"t"});
      wr.names = every;
      same(g, wr, {"t"});
      g = r.readFrame("one", 0, {"l"});
      same(g, wr, {"l"});
      Names cats;
      for (auto c : r.getAvailableCategories()) {
        cats.emplace_back(c);
      }
      VF_ASSERT((sorted(cats) == Names{"events", "one", "two"}), "reader-categories");
      VF_ASSERT(r.currentFileVersion() == podio::version::build_version, "reader-version");
      VF_ASSERT(r.getAvailableDatamodels() == Names{"vfm"}, "reader-models");
      VF_EQ(r.getDatamodelDefinition("vfm"), podio::DatamodelRegistry::instance().getDatamodelDefinition("vfm"), "reader-models");
      VF_ASSERT(r.currentFileVersion("vfm") == podio::DatamodelRegistry::instance().getDatamodelVersion("vfm"), "reader-models");
      VF_ASSERT(!r.getSizeStats("one").has_value(), "reader-sizes");
    }
    break;
  }
  case 1: { // readers
    const Names files[] = {{"a.root"}, {"b.root"}, {"c.root"}, {"d.root"}, {"a.root", "d.root"}, {"b.root", "c.root"}, {"a.root", "x.sio"}, {}, {"missing.root"}, {"missing.sio"}, {"x.sio", "y.sio"}, {"x"}, {"x.dat"}, {"dir.root/x"}, {"a.root", "b.dat"}};
    const auto& names = vf::pick(files);
    { podio::SIOWriter w("x.sio"); }
    { podio::SIOWriter w("y.sio"); }
    std::string want;
    if (!names.empty() && TFile::files().contains(names[0]) && names.back().ends_with(".root")) {
      want = names[0] == "b.root" || names[0] == "c.root" ? "RNTupleReader" : "ROOTReader";
    }
    if (want.empty()) {
      VF_THROWS(std::runtime_error, podio::makeReader(names), "reader-for-unknown-file");
      VF_EQ(took(), "", "reader");
      return;
    }
    auto r0 = podio::makeReader(names);
    VF_EQ(took(), want + " open " + podio::standin::join(names) + ";", "reader");
    podio::Reader r = std::move(r0);
    VF_EQ(r.readNextFrame("one").getParameter<int>("n").value_or(-1), 0, "reader-frame");
    VF_EQ(r.readNextFrame("one", {"h"}).getParameter<int>("n").value_or(-1), 1, "reader-frame");
    VF_EQ(r.readNextEvent().getParameter<int>("n").value_or(-1), 2, "reader-frame");
    VF_THROWS(std::runtime_error, r.readNextEvent({"a", "b"}), "reader-end");
    VF_EQ(r.readFrame("two", 1).getParameter<int>("n").value_or(-1), 1, "reader-frame");
    VF_EQ(r.readFrame("two", 2, {"x"}).getParameter<int>("n").value_or(-1), 2, "reader-frame");
    VF_EQ(r.readEvent(0).getParameter<int>("n").value_or(-1), 0, "reader-frame");
    VF_THROWS(std::runtime_error, r.readEvent(3, {"y"}), "reader-end");
    VF_EQ(took(), want + " next one ;" + want + " next one <h>;" + want + " next events ;" + want + " next events <a><b>;" + want + " entry two 1 ;" + want + " entry two 2 <x>;" + want + " entry events 0 ;" + want +
                      " entry events 3 <y>;",
          "reader");
    VF_EQ(r.getEntries("one"), 6u, "reader-entries");
    VF_EQ(r.getEntries("nothing"), 0u, "reader-entries");
    VF_EQ(r.getEvents(), 9u, "reader-entries");
    const uint16_t k = want == "ROOTReader" ? 0 : 1;
    VF_ASSERT((r.currentFileVersion() == podio::version::Version{1, 2, k}), "reader-version");
    VF_ASSERT((r.currentFileVersion("known") == podio::version::Version{3, 4, k}), "reader-version");
    VF_ASSERT(!r.currentFileVersion("other").has_value(), "reader-version");
    VF_ASSERT((r.getAvailableCategories() == std::vector<std::string_view>{"one", "two"}), "reader-categories");
    VF_EQ(r.getDatamodelDefinition("known"), "definition", "reader-models");
    VF_ASSERT(r.getAvailableDatamodels() == Names{"known"}, "reader-models");
    const auto st = r.getSizeStats("cat");
    VF_EQ(st.has_value(), want == "ROOTReader", "reader-sizes");
    if (st) {
      VF_ASSERT(st->size() == 1 && st->at("cat").numBytes == 42, "reader-sizes");
    }
    break;
  }
  case 2: { // by one name
    { podio::SIOWriter w("x.sio"); }
    VF_NOTHROW(podio::makeReader(std::string("x.sio")), "reader");
    VF_NOTHROW(podio::makeReader(std::string("a.root")), "reader");
    VF_EQ(took(), "ROOTReader open <a.root>;", "reader");
    VF_THROWS(std::runtime_error, podio::makeReader(std::string("*.nothing")), "reader-pattern");
    break;
  }
  default: { // no such file
    podio::SIOReader r;
    VF_THROWS(std::runtime_error, r.openFile("missing.sio"), "missing-file");
    VF_THROWS(std::exception, podio::SIOWriter(""), "missing-file");
    break;
  }
  }
  vf::step();
}
