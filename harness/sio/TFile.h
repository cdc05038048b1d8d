#ifndef VF_STANDIN_TFILE_H
#define VF_STANDIN_TFILE_H
#include <map>
#include <memory>
#include <string>
#include <vector>
struct TObject {
  virtual ~TObject() = default;
};
struct TKey : TObject {
  std::string cls;
  explicit TKey(std::string c) : cls(std::move(c)) {}
  const char* GetClassName() const { return cls.c_str(); }
};
struct TFile : TObject {
  std::vector<std::unique_ptr<TObject>> own;
  std::vector<TObject*> keys;
  // file name -> class names of its keys; empty names are no keys
  static std::map<std::string, std::vector<std::string>>& files() {
    static std::map<std::string, std::vector<std::string>> f;
    return f;
  }
  static TFile* Open(const char* name, const char* = "") {
    const auto it = files().find(name);
    if (it == files().end()) {
      return nullptr;
    }
    auto* f = new TFile;
    for (const auto& c : it->second) {
      if (c.empty()) {
        f->own.push_back(std::make_unique<TObject>());
      } else {
        f->own.push_back(std::make_unique<TKey>(c));
      }
      f->keys.push_back(f->own.back().get());
    }
    return f;
  }
  const std::vector<TObject*>* GetListOfKeys() const { return &keys; }
};
#endif
