// Stand-ins for the back ends that need ROOT: they only note what they are
// asked for, to see that the generic Reader and Writer hand everything on.
#ifndef VF_STANDIN_ROOTREADER_H
#define VF_STANDIN_ROOTREADER_H
#include "podio/Frame.h"
#include "podio/podioVersion.h"
#include "podio/utilities/ReaderUtils.h"

#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace podio {
namespace standin {
  inline std::vector<std::string>& calls() {
    static std::vector<std::string> c;
    return c;
  }
  inline std::string join(const std::vector<std::string>& v) {
    std::string r;
    for (const auto& s : v) {
      r += "<" + s + ">";
    }
    return r;
  }
  inline void note(std::string s) { calls().push_back(std::move(s)); }

  struct Data {
    int n{0};
    CollectionIDTable getIDTable() const { return {}; }
    std::optional<CollectionReadBuffers> getCollectionBuffers(const std::string&) { return std::nullopt; }
    std::vector<std::string> getAvailableCollections() const { return {}; }
    std::unique_ptr<GenericParameters> getParameters() {
      auto p = std::make_unique<GenericParameters>();
      p->set("n", n);
      return p;
    }
  };

  template <int Kind>
  struct ReaderOf {
    static std::string who() { return Kind == 0 ? "ROOTReader" : "RNTupleReader"; }
    std::string file;
    unsigned next{0};
    void openFile(const std::string& f) { openFiles({f}); }
    void openFiles(const std::vector<std::string>& f) { note(who() + " open " + join(f)); }
    std::unique_ptr<Data> entry(std::string_view name, unsigned i) {
      if (name == "nothing" || i > 2) {
        return nullptr;
      }
      return std::make_unique<Data>(Data{static_cast<int>(i)});
    }
    std::unique_ptr<Data> readNextEntry(std::string_view name, const std::vector<std::string>& colls = {}) {
      note(who() + " next " + std::string(name) + " " + join(colls));
      return entry(name, next++);
    }
    std::unique_ptr<Data> readEntry(std::string_view name, const unsigned i, const std::vector<std::string>& colls = {}) {
      note(who() + " entry " + std::string(name) + " " + std::to_string(i) + " " + join(colls));
      return entry(name, i);
    }
    unsigned getEntries(std::string_view name) const { return name == "nothing" ? 0 : 3 + name.size(); }
    version::Version currentFileVersion() const { return {1, 2, Kind}; }
    std::optional<version::Version> currentFileVersion(std::string_view name) const {
      return name == "known" ? std::optional<version::Version>({3, 4, Kind}) : std::nullopt;
    }
    std::vector<std::string_view> getAvailableCategories() const { return {"one", "two"}; }
    const std::string_view getDatamodelDefinition(std::string_view name) const { return name == "known" ? "definition" : "{}"; }
    std::vector<std::string> getAvailableDatamodels() const { return {"known"}; }
    std::optional<std::map<std::string, SizeStats>> getSizeStats(std::string_view category) {
      std::map<std::string, SizeStats> m;
      m[std::string(category)] = SizeStats{42, 2.f};
      return m;
    }
  };

  template <int Kind>
  struct WriterOf {
    static std::string who() { return Kind == 0 ? "ROOTWriter" : "RNTupleWriter"; }
    explicit WriterOf(const std::string& f) { note(who() + " open <" + f + ">"); }
    void writeFrame(const Frame& f, std::string_view category) { writeFrame(f, category, f.getAvailableCollections()); }
    void writeFrame(const Frame& f, std::string_view category, const std::vector<std::string>& colls) {
      note(who() + " write " + std::to_string(f.getParameter<int>("n").value_or(-1)) + " " + std::string(category) + " " + join(colls));
    }
    void finish() { note(who() + " finish"); }
  };
} // namespace standin
using ROOTReader = standin::ReaderOf<0>;
using RNTupleReader = standin::ReaderOf<1>;
using ROOTWriter = standin::WriterOf<0>;
using RNTupleWriter = standin::WriterOf<1>;
} // namespace podio
#endif
