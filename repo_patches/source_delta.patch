From 4dd323e31cec0c9306a17c80d6f5afcd3146d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 01/52] fix: refuse to put a collection over a not yet unpacked
 one

Frame::put only looked at the collections that have already been unpacked, such
that a collection could be put under the name of one that was still in the raw
data. Afterwards the name was listed twice as available and the stored
collection could no longer be reached.
---
 include/podio/Frame.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 1f83030..bf2f4d0 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -9,6 +9,7 @@
 #include "podio/SchemaEvolution.h"
 #include "podio/utilities/TypeHelpers.h"
 
+#include <algorithm>
 #include <concepts>
 #include <initializer_list>
 #include <memory>
@@ -525,13 +526,14 @@ template <typename FrameDataT>
 const podio::CollectionBase* Frame::FrameModel<FrameDataT>::put(std::unique_ptr<podio::CollectionBase> coll,
                                                                 const std::string& name) {
   {
-    std::lock_guard lock{*m_mapMtx};
+    std::scoped_lock lock{*m_mapMtx, *m_dataMtx};
+    // Collections that have not been unpacked yet are not in the map. All of
+    // their names are in the idTable
+    if (m_idTable.present(name) && std::ranges::count(m_data->getAvailableCollections(), name) > 0) {
+      throw std::invalid_argument("An object with key " + name + " already exists in the frame");
+    }
     auto [it, success] = m_collections.try_emplace(name, std::move(coll));
     if (success) {
-      // TODO: Check whether this collection is already known to the idTable
-      // -> What to do on collision?
-      // -> Check before we emplace it into the internal map to prevent possible
-      //    collisions from collections that are potentially present from rawdata?
       it->second->setID(m_idTable.add(name));
       return it->second.get();
     } else {
-- 
2.43.0


From 21822ca4b268d1a2ea545f725baea3d16902b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 02/52] fix: report brace patterns without any match

expand_glob passes GLOB_NOMAGIC to get names without wildcards back as they
are. The C library does not consider braces to be wildcards for this, such that
a pattern like {a,b}.root without any match was returned as if it were a file
name instead of being reported.
---
 src/Glob.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Glob.cc b/src/Glob.cc
index 25d634b..8882939 100644
--- a/src/Glob.cc
+++ b/src/Glob.cc
@@ -34,7 +34,10 @@ int glob_err_handler(const char* epath, int eerrno) {
 
 std::vector<std::string> expand_glob(const std::string& pattern) {
   glob_t glob_result;
-  auto retv = glob(pattern.c_str(), GLOB_TILDE | GLOB_BRACE | GLOB_NOMAGIC, glob_err_handler, &glob_result);
+  // GLOB_NOMAGIC does not consider braces, and would return a brace pattern
+  // without any match as is
+  const int flags = GLOB_TILDE | GLOB_BRACE | (is_glob_pattern(pattern) ? 0 : GLOB_NOMAGIC);
+  auto retv = glob(pattern.c_str(), flags, glob_err_handler, &glob_result);
   if (retv == GLOB_NOMATCH) {
     throw std::runtime_error("Glob expansion found no matches for pattern: " + pattern);
   } else if (retv != 0) {
-- 
2.43.0


From 33997e71eb8ab3cbd2530097b12791835ce89cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 03/52] fix: free the previous contents in the move assignment
 of collections

The defaulted move assignment dropped the pointers to the objects that an
owning collection held before without deleting them.
---
 include/podio/detail/LinkCollectionImpl.h | 14 +++++++++++++-
 python/templates/Collection.cc.jinja2     | 14 ++++++++++++++
 python/templates/Collection.h.jinja2      |  2 +-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index cf498c3..1506b00 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -69,7 +69,19 @@ public:
   LinkCollection(const LinkCollection&) = delete;
   LinkCollection& operator=(const LinkCollection&) = delete;
   LinkCollection(LinkCollection&&) = default;
-  LinkCollection& operator=(LinkCollection&&) = default;
+  LinkCollection& operator=(LinkCollection&& other) noexcept {
+    if (this != &other) {
+      // Need to clean up the current contents before taking over the new ones
+      m_storage.clear(m_isSubsetColl);
+      CollectionBase::operator=(std::move(other));
+      m_isPrepared = other.m_isPrepared;
+      m_isSubsetColl = other.m_isSubsetColl;
+      m_collectionID = other.m_collectionID;
+      m_storageMtx = std::move(other.m_storageMtx);
+      m_storage = std::move(other.m_storage);
+    }
+    return *this;
+  }
 #if defined(__cpp_lib_containers_ranges)
   /// Constructor from range in order to enable the use of std::ranges::to see
   /// @ref from.
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 0acc2e7..a0c97ac 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -37,6 +37,20 @@
   m_storage.clear(m_isSubsetColl);
 }
 
+{{ collection_type }}& {{ collection_type }}::operator=({{ collection_type }}&& other) noexcept {
+  if (this != &other) {
+    // Need to clean up the current contents before taking over the new ones
+    m_storage.clear(m_isSubsetColl);
+    podio::CollectionBase::operator=(std::move(other));
+    m_isPrepared = other.m_isPrepared;
+    m_isSubsetColl = other.m_isSubsetColl;
+    m_collectionID = other.m_collectionID;
+    m_storageMtx = std::move(other.m_storageMtx);
+    m_storage = std::move(other.m_storage);
+  }
+  return *this;
+}
+
 {{ class.bare_type }} {{ collection_type }}::operator[](std::size_t index) const {
   return {{ class.bare_type }}(m_storage.entries[index]);
 }
diff --git a/python/templates/Collection.h.jinja2 b/python/templates/Collection.h.jinja2
index c74a50d..7363176 100644
--- a/python/templates/Collection.h.jinja2
+++ b/python/templates/Collection.h.jinja2
@@ -61,7 +61,7 @@ public:
   {{ class.bare_type }}Collection(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection& operator=(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection({{ class.bare_type }}Collection&&) = default;
-  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&&) = default;
+  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&& other) noexcept;
 
   ~{{ class.bare_type }}Collection() override;
 #if defined(__cpp_lib_containers_ranges)
-- 
2.43.0


From dd470a5b185fdd10d03896bd7fabdf9b1d1b392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 04/52] fix: restore the buffers when a collection stops being
 a subset collection

setSubsetCollection(false) on an empty subset collection left it without data
buffers, so that preparing it for writing crashed. Calling it with the current
setting dropped the prepared IDs of a subset collection.
---
 include/podio/detail/LinkCollectionImpl.h | 5 ++++-
 python/templates/Collection.cc.jinja2     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index 1506b00..71e7565 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -317,8 +317,11 @@ public:
       throw std::logic_error("Cannot change the character of a collection that already contains elements");
     }
 
-    if (setSubset) {
+    if (setSubset && !m_isSubsetColl) {
       m_storage.makeSubsetCollection();
+    } else if (!setSubset && m_isSubsetColl) {
+      // Need the full set of buffers again
+      m_storage = CollectionDataT{};
     }
     m_isSubsetColl = setSubset;
   }
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index a0c97ac..b334405 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -90,8 +90,11 @@ void {{ collection_type }}::setSubsetCollection(bool setSubset) {
     throw std::logic_error("Cannot change the character of a collection that already contains elements");
   }
 
-  if (setSubset) {
+  if (setSubset && !m_isSubsetColl) {
     m_storage.makeSubsetCollection();
+  } else if (!setSubset && m_isSubsetColl) {
+    // Need the full set of buffers again
+    m_storage = {{ collection_type }}Data{};
   }
   m_isSubsetColl = setSubset;
 }
-- 
2.43.0


From 1e6c2366010fbaec2a5bed0f73eb1347908bd249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 05/52] fix: clone mutable handles of objects that have been
 read correctly

The clone copied the complete relation and vector member buffers that such
objects share, but kept the range of the original one, so that elements added
to the clone were not found.
---
 python/templates/macros/implementations.jinja2 | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/python/templates/macros/implementations.jinja2 b/python/templates/macros/implementations.jinja2
index 9653c4f..0f9cb4c 100644
--- a/python/templates/macros/implementations.jinja2
+++ b/python/templates/macros/implementations.jinja2
@@ -16,16 +16,9 @@
 
 Mutable{{ type }} {{ full_type }}::clone(bool cloneRelations) const {
 {% if prefix %}
-  if (!cloneRelations) {
-    auto tmp = new {{ type }}Obj(podio::ObjectID{}, m_obj->data);
-{% for relation in multi_relations %}
-    tmp->m_{{ relation.name }} = new std::vector<{{ relation.full_type }}>();
-    tmp->data.{{ relation.name }}_begin = 0;
-    tmp->data.{{ relation.name }}_end = 0;
-{% endfor %}
-    return Mutable{{ type }}(podio::utils::MaybeSharedPtr(tmp, podio::utils::MarkOwned));
-  }
-  return Mutable{{ type }}(podio::utils::MaybeSharedPtr(new {{ type }}Obj(*m_obj), podio::utils::MarkOwned));
+  // Clone via the immutable handle, which takes into account that an object that
+  // has been read only has a slice of the relation vectors
+  return {{ type }}(*this).clone(cloneRelations);
 {% else %}
   auto tmp = new {{ type }}Obj(podio::ObjectID{}, m_obj->data);
 {% for relation in multi_relations %}
-- 
2.43.0


From 04d24b0ec1ba0c29ab7d2e5a5555cf05a0df610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 06/52] fix: start preparing a collection for writing from
 empty buffers

A failed attempt (one-to-many relation to an object that is in no collection)
left rows and vector member elements behind, so that the next attempt wrote
them twice and accessed relations out of range.
---
 python/templates/CollectionData.cc.jinja2 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index 0452da5..4951539 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -141,6 +141,13 @@ void {{ class_type }}::prepareForWrite(bool isSubsetColl) {
     return;
   }
 
+  // Make sure to start from empty buffers, even if a previous attempt has failed
+  // half-way (e.g. because of a relation to an untracked object)
+  m_data->clear();
+{% for member in VectorMembers %}
+  m_vec_{{ member.name }}->clear();
+{% endfor %}
+
   // Normal collections have to store the data and all the relations
   m_data->reserve(entries.size());
   for (const auto& obj : entries) { m_data->push_back(obj->data); }
-- 
2.43.0


From b18a27428cbfa6ae6c5e893cc56bb14960de2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:33 +0000
Subject: [PATCH 07/52] fix: do not override user defined schema evolution
 functions with auto generated ones

---
 include/podio/SchemaEvolution.h | 18 +++++++++++++-----
 src/SchemaEvolution.cc          | 10 ++++++----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/podio/SchemaEvolution.h b/include/podio/SchemaEvolution.h
index 5eb82c6..2041ef8 100644
--- a/include/podio/SchemaEvolution.h
+++ b/include/podio/SchemaEvolution.h
@@ -27,13 +27,25 @@ struct CollectionReadBuffers;
 /// that the registration still happens on a single thread. After this
 /// initialization evolutions can be done from multiple threads.
 class SchemaEvolution {
+public:
+  /// Enum to make it possible to prioritize evolution functions during
+  /// registration, making AutoGenerated lower priority than UserDefined
+  enum class Priority { AutoGenerated = 0, UserDefined = 1 };
+
+private:
   /// The interface of any evolution function takes buffers and a version and
   /// returns buffers.
   using EvolutionFuncT = std::function<podio::CollectionReadBuffers(podio::CollectionReadBuffers&&, SchemaVersionT)>;
+  /// Helper struct to remember the priority with which an evolution function has
+  /// been registered
+  struct PrioritizedFunc {
+    EvolutionFuncT func{};
+    Priority priority{Priority::AutoGenerated};
+  };
   /// Each datatype gets its own version "map" where the index defines the
   /// version from which the schema evolution has to start to end up in the
   /// current version
-  using EvolFuncVersionMapT = std::vector<EvolutionFuncT>;
+  using EvolFuncVersionMapT = std::vector<PrioritizedFunc>;
 
   /// Helper struct combining the current schema version of each type and an
   /// index into the schema evolution "map" below
@@ -51,10 +63,6 @@ class SchemaEvolution {
   using EvolutionMapT = std::vector<EvolFuncVersionMapT>;
 
 public:
-  /// Enum to make it possible to prioritize evolution functions during
-  /// registration, making AutoGenerated lower priority than UserDefined
-  enum class Priority { AutoGenerated = 0, UserDefined = 1 };
-
   /// The SchemaEvolution is a singleton so we disable all copy and move
   /// constructors explicitly
   SchemaEvolution(const SchemaEvolution&) = delete;
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index f21bb4f..49c492a 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -27,7 +27,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     if (fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
-      return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);
+      return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
     }
   }
 
@@ -62,10 +62,12 @@ void SchemaEvolution::registerEvolutionFunc(const std::string& collType, SchemaV
     versionMap.resize(currentVersion);
   }
 
-  versionMap[fromVersion - 1] = evolutionFunc;
-  if (priority != Priority::UserDefined) {
-    //  std::cerr << "Not updating evolution function because priority is not UserDefined" << std::endl;
+  auto& registered = versionMap[fromVersion - 1];
+  if (priority < registered.priority) {
+    // Auto generated functions do not override user defined ones
+    return;
   }
+  registered = {evolutionFunc, priority};
 }
 
 podio::CollectionReadBuffers SchemaEvolution::noOpSchemaEvolution(podio::CollectionReadBuffers&& buffers,
-- 
2.43.0


From e41e291c2b1e1b91729b925b3f04318ba3821d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:33 +0000
Subject: [PATCH 08/52] fix: report schema versions without registered
 evolution function instead of accessing them

---
 src/SchemaEvolution.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index 49c492a..75f172a 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -24,9 +24,8 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     }
 
     const auto& typeEvolFuncs = m_evolutionFuncs[mapIndex];
-    if (fromVersion < typeEvolFuncs.size()) {
-      // Do we need this check? In principle we could ensure at registration
-      // time that this is always guaranteed
+    // Valid versions start at 1, and not all of them have to have been registered
+    if (fromVersion > 0 && fromVersion < typeEvolFuncs.size() && typeEvolFuncs[fromVersion - 1].func) {
       return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
     }
   }
-- 
2.43.0


From 8878ee06d6766c0a868224af42da65ed9f078201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 09/52] fix: do not access creation functions out of range for
 schema version 0

---
 src/CollectionBufferFactory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CollectionBufferFactory.cc b/src/CollectionBufferFactory.cc
index 8c48ea0..33ee245 100644
--- a/src/CollectionBufferFactory.cc
+++ b/src/CollectionBufferFactory.cc
@@ -15,7 +15,7 @@ std::optional<podio::CollectionReadBuffers>
 CollectionBufferFactory::createBuffers(const std::string& collType, SchemaVersionT version, bool subsetColl) const {
   if (const auto typeIt = m_funcMap.find(collType); typeIt != m_funcMap.end()) {
     const auto& [_, versionMap] = *typeIt;
-    if (versionMap.size() >= version) {
+    if (version > 0 && versionMap.size() >= version) {
       return versionMap[version - 1](subsetColl);
     }
   }
-- 
2.43.0


From 07378cc690f87ed75648321a3b626bab992b88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 10/52] fix: make unpacking collections from a Frame atomic for
 other threads

The Frame released its locks between taking the buffers of a collection out of
the raw data and putting the unpacked collection into the internal map, and put
it there before its references were set. Other threads that asked for the same
collection in the meantime did not get it at all or got it without its
references, while the collections that have been retrieved via their IDs and the
copy of the ID table were not protected at all. Use one recursive mutex that is
held until a collection is complete.
---
 include/podio/Frame.h | 60 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index bf2f4d0..bca8212 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -135,6 +135,7 @@ class Frame {
     bool get(uint32_t collectionID, podio::CollectionBase*& collection) const override;
 
     podio::CollectionIDTable getIDTable() const override {
+      std::lock_guard lock{*m_mtx};
       // Make a copy
       return {m_idTable.ids(), m_idTable.names()};
     }
@@ -146,11 +147,14 @@ class Frame {
 
     using CollectionMapT = std::unordered_map<std::string, std::unique_ptr<podio::CollectionBase>>;
 
-    mutable CollectionMapT m_collections{};                 ///< The internal map for storing unpacked collections
-    mutable std::unique_ptr<std::mutex> m_mapMtx{nullptr};  ///< The mutex for guarding the internal collection map
-    std::unique_ptr<FrameDataT> m_data{nullptr};            ///< The raw data read from file
-    mutable std::unique_ptr<std::mutex> m_dataMtx{nullptr}; ///< The mutex for guarding the raw data
-    podio::CollectionIDTable m_idTable{};                   ///< The collection ID table
+    mutable CollectionMapT m_collections{};      ///< The internal map for storing unpacked collections
+    std::unique_ptr<FrameDataT> m_data{nullptr}; ///< The raw data read from file
+    /// The mutex for guarding the internal collection map as well as the raw
+    /// data. It is held until a collection is completely unpacked (including the
+    /// collections it refers to, hence recursive), such that no other thread can
+    /// see that collection in any intermediate state.
+    mutable std::unique_ptr<std::recursive_mutex> m_mtx{nullptr};
+    podio::CollectionIDTable m_idTable{}; ///< The collection ID table
     std::unique_ptr<podio::GenericParameters> m_parameters{nullptr}; ///< The generic parameter store for this frame
     mutable std::set<uint32_t> m_retrievedIDs{}; ///< The IDs of the collections that we have already read (but not yet
                                                  ///< put into the map)
@@ -425,7 +429,7 @@ const CollT& Frame::put(CollT&& coll, const std::string& name) {
 
 template <typename FrameDataT>
 Frame::FrameModel<FrameDataT>::FrameModel(std::unique_ptr<FrameDataT> data) :
-    m_mapMtx(std::make_unique<std::mutex>()), m_dataMtx(std::make_unique<std::mutex>()) {
+    m_mtx(std::make_unique<std::recursive_mutex>()) {
   if (!data) {
     throw std::invalid_argument(
         "FrameData is a nullptr. If you are reading from a file it may be corrupted or you may reading beyond the end "
@@ -443,28 +447,24 @@ const podio::CollectionBase* Frame::FrameModel<FrameDataT>::get(const std::strin
 
 template <typename FrameDataT>
 podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& name, bool setReferences) const {
-  {
-    // First check whether the collection is in the map already
-    //
-    // Collections only land here if they are fully unpacked, i.e.
-    // prepareAfterRead has been called or it has been put into the Frame
-    std::lock_guard lock{*m_mapMtx};
-    if (const auto it = m_collections.find(name); it != m_collections.end()) {
-      return it->second.get();
-    }
+  // Hold the lock until the collection is completely unpacked to make sure that
+  // no other thread finds it neither in the map nor in the raw data or gets hold
+  // of it before all its references are set
+  std::lock_guard lock{*m_mtx};
+
+  // First check whether the collection is in the map already
+  //
+  // Collections only land here if they are fully unpacked, i.e.
+  // prepareAfterRead has been called or it has been put into the Frame
+  if (const auto it = m_collections.find(name); it != m_collections.end()) {
+    return it->second.get();
   }
 
   podio::CollectionBase* retColl = nullptr;
 
   // Now try to get it from the raw data if we have the possibility
   if (m_data) {
-    // Have the buffers in the outer scope here to hold the raw data lock as
-    // briefly as possible
-    std::optional<podio::CollectionReadBuffers> buffers;
-    {
-      std::lock_guard lock{*m_dataMtx};
-      buffers = unpack(m_data.get(), name);
-    }
+    auto buffers = unpack(m_data.get(), name);
     if (buffers) {
       std::unique_ptr<podio::CollectionBase> coll{nullptr};
       // Subset collections do not need schema evolution (by definition)
@@ -480,13 +480,10 @@ podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& n
 
       coll->prepareAfterRead();
       coll->setID(m_idTable.collectionID(name).value());
-      {
-        std::lock_guard mapLock{*m_mapMtx};
-        auto [it, success] = m_collections.emplace(name, std::move(coll));
-        // TODO: Check success? Or simply assume that everything is fine at this point?
-        // TODO: Collision handling?
-        retColl = it->second.get();
-      }
+      auto [it, success] = m_collections.emplace(name, std::move(coll));
+      // TODO: Check success? Or simply assume that everything is fine at this point?
+      // TODO: Collision handling?
+      retColl = it->second.get();
 
       if (setReferences) {
         retColl->setReferences(this);
@@ -499,6 +496,7 @@ podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& n
 
 template <typename FrameDataT>
 bool Frame::FrameModel<FrameDataT>::get(uint32_t collectionID, CollectionBase*& collection) const {
+  std::lock_guard lock{*m_mtx};
   const auto name = m_idTable.name(collectionID);
   if (!name) {
     return false;
@@ -526,7 +524,7 @@ template <typename FrameDataT>
 const podio::CollectionBase* Frame::FrameModel<FrameDataT>::put(std::unique_ptr<podio::CollectionBase> coll,
                                                                 const std::string& name) {
   {
-    std::scoped_lock lock{*m_mapMtx, *m_dataMtx};
+    std::lock_guard lock{*m_mtx};
     // Collections that have not been unpacked yet are not in the map. All of
     // their names are in the idTable
     if (m_idTable.present(name) && std::ranges::count(m_data->getAvailableCollections(), name) > 0) {
@@ -553,7 +551,7 @@ std::vector<std::string> Frame::FrameModel<FrameDataT>::availableCollections() c
   // in the raw data as well as things that have been put into the frame
 
   // Lock both the internal map and the rawdata for this
-  std::scoped_lock lock{*m_mapMtx, *m_dataMtx};
+  std::lock_guard lock{*m_mtx};
 
   auto collections = m_data->getAvailableCollections();
   collections.reserve(collections.size() + m_collections.size());
-- 
2.43.0


From b87141ef1cf62de222131837a876edee10e68ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 11/52] fix: do not modify user data collections when getting
 their buffers

Several writers can get the buffers of the same collection in a Frame
concurrently, so that setting the pointer to the storage on every call is a data
race. Keep the pointer valid when moving instead.
---
 include/podio/UserDataCollection.h | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/podio/UserDataCollection.h b/include/podio/UserDataCollection.h
index 361bb00..4a1fd4f 100644
--- a/include/podio/UserDataCollection.h
+++ b/include/podio/UserDataCollection.h
@@ -67,10 +67,9 @@ class UserDataCollection : public CollectionBase {
 
 private:
   std::vector<BasicType> _vec{};
-  // Pointer to the actual storage, necessary for I/O. In order to have
-  // simpler move-semantics this will be set and properly initialized on
-  // demand during the call to getBuffers
-  std::vector<BasicType>* _vecPtr{nullptr};
+  // Pointer to the actual storage, necessary for I/O. Always points to the
+  // storage of this collection, i.e. it is not moved along
+  std::vector<BasicType>* _vecPtr{&_vec};
   uint32_t m_collectionID{0};
   CollRefCollection m_refCollections{};
   VectorMembersInfo m_vecmem_info{};
@@ -91,8 +90,23 @@ public:
   }
   UserDataCollection(const UserDataCollection&) = delete;
   UserDataCollection& operator=(const UserDataCollection&) = delete;
-  UserDataCollection(UserDataCollection&&) = default;
-  UserDataCollection& operator=(UserDataCollection&&) = default;
+  UserDataCollection(UserDataCollection&& other) noexcept :
+      CollectionBase(std::move(other)),
+      _vec(std::move(other._vec)),
+      m_collectionID(other.m_collectionID),
+      m_refCollections(std::move(other.m_refCollections)),
+      m_vecmem_info(std::move(other.m_vecmem_info)) {
+  }
+  UserDataCollection& operator=(UserDataCollection&& other) noexcept {
+    if (this != &other) {
+      podio::CollectionBase::operator=(std::move(other));
+      _vec = std::move(other._vec);
+      m_collectionID = other.m_collectionID;
+      m_refCollections = std::move(other.m_refCollections);
+      m_vecmem_info = std::move(other.m_vecmem_info);
+    }
+    return *this;
+  }
   ~UserDataCollection() override = default;
 #if defined(__cpp_lib_containers_ranges)
   /// Constructor to enable construction via std::ranges::to. See @ref from
@@ -147,7 +161,6 @@ public:
 
   /// Get the collection buffers for this collection
   podio::CollectionWriteBuffers getBuffers() override {
-    _vecPtr = &_vec; // Set the pointer to the correct internal vector
     return {&_vecPtr, _vecPtr, &m_refCollections, &m_vecmem_info};
   }
 
-- 
2.43.0


From 45933e815722482b6427beadd858ba75d14ca273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 12/52] fix: do not modify the vector member buffers while
 other threads use them

Several writers can get the buffers of the same collection in a Frame
concurrently, so that setting the pointers to the vector members on every call is
a data race. Only do it if they are not up to date and with the lock held.
---
 python/templates/Collection.cc.jinja2     | 1 +
 python/templates/CollectionData.cc.jinja2 | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index b334405..ef74ce8 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -181,6 +181,7 @@ void {{ collection_type }}::push_back(const {{ class.bare_type }}& object) {
 }
 
 podio::CollectionWriteBuffers {{ collection_type }}::getBuffers() {
+  std::lock_guard lock{*m_storageMtx};
   return m_storage.getCollectionBuffers(m_isSubsetColl);
 }
 
diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index 4951539..069b541 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -114,9 +114,12 @@ podio::CollectionWriteBuffers {{ class_type }}::getCollectionBuffers(bool isSubs
 {% if VectorMembers %}
   if (!isSubsetColl) {
     // Make sure these point to the right place, even if a collection has been
-    // moved since it has been created
+    // moved since it has been created. Do not touch them if they already do, as
+    // other threads might be using them
 {% for member in VectorMembers %}
-    m_vecmem_info[{{ loop.index0 }}].second = &m_vec_{{ member.name }};
+    if (m_vecmem_info[{{ loop.index0 }}].second != &m_vec_{{ member.name }}) {
+      m_vecmem_info[{{ loop.index0 }}].second = &m_vec_{{ member.name }};
+    }
 {% endfor %}
   }
 {% endif -%}
-- 
2.43.0


From 2a8648615450503f1b43b0db8677c02ea7e4a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 13/52] fix: guard all accesses to the parameter maps

Listing the keys read the size of a map before taking the lock, and clearing,
checking for emptiness and printing did not take any lock at all, which are data
races if other threads set parameters at the same time. Do not move the mutexes
along with the contents to keep moved-from objects usable for these.
---
 include/podio/GenericParameters.h | 11 +++++++----
 src/GenericParameters.cc          | 28 +++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/podio/GenericParameters.h b/include/podio/GenericParameters.h
index f21e15d..a643796 100644
--- a/include/podio/GenericParameters.h
+++ b/include/podio/GenericParameters.h
@@ -60,9 +60,10 @@ public:
   GenericParameters(const GenericParameters&);
   GenericParameters& operator=(const GenericParameters&) = delete;
 
-  /// GenericParameters are default moveable
-  GenericParameters(GenericParameters&&) = default;
-  GenericParameters& operator=(GenericParameters&&) = default;
+  /// GenericParameters are moveable. Only the contents are moved, each object
+  /// keeps its own mutexes
+  GenericParameters(GenericParameters&& other);
+  GenericParameters& operator=(GenericParameters&& other);
 
   ~GenericParameters() = default;
 
@@ -107,6 +108,7 @@ public:
 
   /// erase all elements
   void clear() {
+    std::scoped_lock lock(*m_intMtx, *m_floatMtx, *m_stringMtx, *m_doubleMtx);
     _intMap.clear();
     _floatMap.clear();
     _doubleMap.clear();
@@ -117,6 +119,7 @@ public:
 
   /// Check if no parameter is stored (i.e. if all internal maps are empty)
   bool empty() const {
+    std::scoped_lock lock(*m_intMtx, *m_floatMtx, *m_stringMtx, *m_doubleMtx);
     return _intMap.empty() && _floatMap.empty() && _doubleMap.empty() && _stringMap.empty();
   }
 
@@ -232,10 +235,10 @@ template <ValidGenericDataType T>
 std::vector<std::string> GenericParameters::getKeys() const {
   std::vector<std::string> keys;
   const auto& map = getMap<T>();
-  keys.reserve(map.size());
   {
     auto& mtx = getMutex<T>();
     std::lock_guard lock{mtx};
+    keys.reserve(map.size());
     std::transform(map.begin(), map.end(), std::back_inserter(keys), [](const auto& pair) { return pair.first; });
   }
 
diff --git a/src/GenericParameters.cc b/src/GenericParameters.cc
index 6befeb2..8a241e1 100644
--- a/src/GenericParameters.cc
+++ b/src/GenericParameters.cc
@@ -18,6 +18,23 @@ GenericParameters::GenericParameters(const GenericParameters& other) {
   _doubleMap = other._doubleMap;
 }
 
+GenericParameters::GenericParameters(GenericParameters&& other) :
+    _intMap(std::move(other._intMap)),
+    _floatMap(std::move(other._floatMap)),
+    _stringMap(std::move(other._stringMap)),
+    _doubleMap(std::move(other._doubleMap)) {
+}
+
+GenericParameters& GenericParameters::operator=(GenericParameters&& other) {
+  if (this != &other) {
+    _intMap = std::move(other._intMap);
+    _floatMap = std::move(other._floatMap);
+    _stringMap = std::move(other._stringMap);
+    _doubleMap = std::move(other._doubleMap);
+  }
+  return *this;
+}
+
 template <typename T>
 std::ostream& operator<<(std::ostream& os, const std::vector<T>& values) {
   os << "[";
@@ -32,7 +49,8 @@ std::ostream& operator<<(std::ostream& os, const std::vector<T>& values) {
 }
 
 template <typename MapType>
-void printMap(const MapType& map, std::ostream& os) {
+void printMap(const MapType& map, std::mutex& mtx, std::ostream& os) {
+  std::lock_guard lock{mtx};
   const auto osflags = os.flags();
   os << std::left << std::setw(30) << "Key "
      << "Value " << '\n';
@@ -46,13 +64,13 @@ void printMap(const MapType& map, std::ostream& os) {
 
 void GenericParameters::print(std::ostream& os, bool flush) const {
   os << "int parameters\n\n";
-  printMap(getMap<int>(), os);
+  printMap(getMap<int>(), getMutex<int>(), os);
   os << "\nfloat parameters\n";
-  printMap(getMap<float>(), os);
+  printMap(getMap<float>(), getMutex<float>(), os);
   os << "\ndouble parameters\n";
-  printMap(getMap<double>(), os);
+  printMap(getMap<double>(), getMutex<double>(), os);
   os << "\nstd::string parameters\n";
-  printMap(getMap<std::string>(), os);
+  printMap(getMap<std::string>(), getMutex<std::string>(), os);
 
   if (flush) {
     os.flush();
-- 
2.43.0


From bb115c6169d6c4afdca55dbfa7a712483416df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 14/52] fix: refuse member declarations with trailing text
 instead of ignoring it

---
 python/podio_gen/podio_config_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 928f5a3..c25f36a 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -57,8 +57,9 @@ class MemberParser:
     member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str} *{comment_str}")
 
     # For cases where we don't require a description
-    bare_member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str}")
-    bare_array_re = re.compile(rf" *{array_str} +{name_str} *{def_val_str} *{unit_str}")
+    # Make sure that nothing else follows, since that would otherwise be ignored
+    bare_member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str} *$")
+    bare_array_re = re.compile(rf" *{array_str} +{name_str} *{def_val_str} *{unit_str} *$")
 
     @staticmethod
     def _parse_with_regexps(string, regexps_callbacks):
-- 
2.43.0


From 078fd42ec278b59b139ba6f4cb4febe28b8eca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 15/52] fix: do not read parts of the description as default
 value

---
 python/podio_gen/podio_config_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index c25f36a..b9579df 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -47,8 +47,9 @@ class MemberParser:
     array_str = rf" *std::array *< *{type_str} *, *([0-9]+) *>"
 
     # Default values can be anything that in curly braces, but not the empty
-    # default initialization, since that is what we generate in any case
-    def_val_str = r"(?:{(.+)})?"
+    # default initialization, since that is what we generate in any case. They end
+    # before the description starts.
+    def_val_str = r"(?:{((?:(?!\/\/).)+)})?"
 
     array_re = re.compile(array_str)
     full_array_re = re.compile(
-- 
2.43.0


From d2ca59914e8e7a066c7d9789416f00f2791a648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 16/52] fix: do not read builtin types as names of members

---
 python/podio_gen/podio_config_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index b9579df..5f9ef12 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -32,8 +32,10 @@ class MemberParser:
     type_re = re.compile(type_str)
 
     # Names can be almost anything as long as it doesn't start with a digit and
-    # doesn't contain anything fancy
-    name_str = r"([a-zA-Z_]+\w*)"
+    # doesn't contain anything fancy. The words that make up the builtin types are
+    # not names, e.g. "unsigned int" is a type without a name.
+    type_words_str = r"|".join(sorted(set(" ".join(BUILTIN_TYPES).split())))
+    name_str = rf"((?!(?:{type_words_str})\b)[a-zA-Z_]+\w*)"
     name_re = re.compile(name_str)
 
     # Units are given in square brackets
-- 
2.43.0


From 7297c1d85cc340f16a63cd49b7d6cb49c1eee98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 17/52] fix: do not take types for fixed width integers because
 of how their name starts

---
 python/podio_gen/generator_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 327a158..50aed73 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -120,7 +120,7 @@ def _is_fixed_width_type(type_name):
     if type_name.startswith("std::"):
         type_name = type_name[5:]
 
-    if ALL_FIXED_WIDTH_TYPES_RGX.match(type_name):
+    if ALL_FIXED_WIDTH_TYPES_RGX.fullmatch(type_name):
         if type_name not in ALLOWED_FIXED_WIDTH_TYPES:
             raise DefinitionError(f"{type_name} is a fixed width integer type that is not allowed")
         return True
-- 
2.43.0


From ef3a316fb70889f018f014120e810ab6aaced545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 18/52] fix: julia types of unsigned members and of uint16_t
 arrays

---
 python/podio_gen/generator_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 50aed73..a8711db 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -40,6 +40,7 @@ def get_julia_type(cpp_type, is_array=False, array_type=None, array_size=None):
         "bool": "Bool",
         "long": "Int64",
         "unsigned int": "UInt32",
+        "unsigned": "UInt32",
         "unsigned long": "UInt64",
         "char": "Char",
         "short": "Int16",
@@ -61,10 +62,11 @@ def get_julia_type(cpp_type, is_array=False, array_type=None, array_size=None):
             return cpp_type
 
     else:
+        is_builtin = array_type in BUILTIN_TYPES or _is_fixed_width_type(array_type)
         array_type = get_julia_type(array_type)
         if "::" in array_type:
             array_type = array_type.split("::")[1]
-        if array_type not in builtin_types_map.values():
+        if not is_builtin:
             array_type = array_type + "Struct"
         return f"MVector{{{array_size}, {array_type}}}"
 
-- 
2.43.0


From f6ad305c592e4300637dced20dcb4c773cfac470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 19/52] fix: use upstream components as exposed members and
 upstream interfaces in relations

---
 python/podio_gen/cpp_generator.py       | 17 ++++++++++++++---
 python/podio_gen/podio_config_reader.py |  5 ++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 01c2b65..e81a4c2 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -436,11 +436,13 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for member in datatype["Members"]:
             if self.expose_pod_members and not member.is_builtin and not member.is_array:
-                member.sub_members = self.datamodel.components[member.full_type]["Members"]
+                member.sub_members = self._get_definition("components", member.full_type)["Members"]
 
         for relation in datatype["OneToOneRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
-                relation.interface_types = self.datamodel.interfaces[relation.full_type]["Types"]
+                relation.interface_types = self._get_definition("interfaces", relation.full_type)[
+                    "Types"
+                ]
             if self._needs_include(relation.full_type):
                 fwd_declarations[relation.namespace].append(relation.bare_type)
                 fwd_declarations[relation.namespace].append(f"Mutable{relation.bare_type}")
@@ -452,7 +454,9 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for relation in datatype["OneToManyRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
-                relation.interface_types = self.datamodel.interfaces[relation.full_type]["Types"]
+                relation.interface_types = self._get_definition("interfaces", relation.full_type)[
+                    "Types"
+                ]
             if self._needs_include(relation.full_type):
                 includes.add(self._build_include(relation))
 
@@ -1021,6 +1025,13 @@ have resolvable schema evolution incompatibilities:"
 
         return self._sort_includes(includes)
 
+    def _get_definition(self, category, classname):
+        """Get the definition of a type from this or the upstream datamodel"""
+        definitions = getattr(self.datamodel, category)
+        if classname not in definitions and self.upstream_edm:
+            definitions = getattr(self.upstream_edm, category)
+        return definitions[classname]
+
     def _needs_include(self, classname) -> IncludeFrom:
         """Check whether the member needs an include from within the datamodel"""
         if (
diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 5f9ef12..043950a 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -321,7 +321,10 @@ class ClassDefinitionValidator:
 
             all_members[member.name] = classname
             if expose_pod_members and not member.is_builtin and not member.is_array:
-                for sub_member in datamodel.components[member.full_type]["Members"]:
+                component = datamodel.components.get(member.full_type)
+                if component is None:
+                    component = upstream_edm.components[member.full_type]
+                for sub_member in component["Members"]:
                     if sub_member.name in all_members:
                         raise DefinitionError(
                             f"'{sub_member.name}' clashes with another member name in class "
-- 
2.43.0


From f2b317c148e9a632249fac34acab44e9ba066a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 20/52] fix: refuse type names that are used twice or not
 supported

---
 python/podio_gen/podio_config_reader.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 043950a..26ff99c 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -189,12 +189,27 @@ class ClassDefinitionValidator:
     @classmethod
     def validate(cls, datamodel, upstream_edm=None):
         """Validate the datamodel."""
+        cls._check_type_names(datamodel)
         cls._check_components(datamodel, upstream_edm)
         expose_pod_members = datamodel.options["exposePODMembers"]
         cls._check_datatypes(datamodel, expose_pod_members, upstream_edm)
         cls._check_interfaces(datamodel, upstream_edm)
         cls._check_links(datamodel, upstream_edm)
 
+    @classmethod
+    def _check_type_names(cls, datamodel):
+        """Check that the names of all types are usable and that none is used twice,
+        since the generated files and classes would overwrite each other."""
+        known_names = {}
+        for category in ("components", "datatypes", "interfaces", "links"):
+            for name in getattr(datamodel, category):
+                DataType(name)  # raises if the name is not supported
+                if name in known_names:
+                    raise DefinitionError(
+                        f"'{name}' is defined in '{category}' and in '{known_names[name]}'"
+                    )
+                known_names[name] = category
+
     @classmethod
     def _check_comp(cls, member, components, upstream_edm):
         """Check if the passed member is a component defined in either the datamodel
-- 
2.43.0


From fafab764d33672b44350d8f1f4ed64b14fb1a560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 21/52] fix: refuse member names that are used twice and
 components without members

---
 python/podio_gen/podio_config_reader.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 26ff99c..3740f15 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -238,7 +238,17 @@ class ClassDefinitionValidator:
                             "Only 'declaration', 'declarationFile' and 'includes' are allowed here"
                         )
 
+            if "Members" not in component:
+                raise DefinitionError(f"component '{name}' does not define 'Members'")
+
+            member_names = set()
             for member in component["Members"]:
+                if member.name in member_names:
+                    raise DefinitionError(
+                        f"component '{name}' has more than one member '{member.name}'"
+                    )
+                member_names.add(member.name)
+
                 is_builtin = member.is_builtin or member.is_builtin_array
                 is_component_array = member.is_array and cls._check_comp(
                     member.array_type, datamodel.components, upstream_edm
@@ -284,13 +294,21 @@ class ClassDefinitionValidator:
     @classmethod
     def _check_datatype(cls, classname, definition, expose_pod_members, datamodel, upstream_edm):
         """Check that a datatype only defines valid types and relations."""
-        cls._check_members(
+        all_members = cls._check_members(
             classname,
             definition.get("Members", []),
             expose_pod_members,
             datamodel,
             upstream_edm,
         )
+        for category in ("VectorMembers", "OneToOneRelations", "OneToManyRelations"):
+            for member in definition.get(category, []):
+                if member.name in all_members:
+                    raise DefinitionError(
+                        f"'{member.name}' in '{category}' of class '{classname}' clashes with "
+                        f"another member, previously defined in '{all_members[member.name]}'"
+                    )
+                all_members[member.name] = category
         cls._check_relations(classname, definition, datamodel, upstream_edm)
 
     @classmethod
@@ -349,6 +367,8 @@ class ClassDefinitionValidator:
 
                     all_members[sub_member.name] = f"member '{member.name}'"
 
+        return all_members
+
     @classmethod
     def _check_relations(cls, classname, definition, datamodel, upstream_edm):
         """Check the relations of a class."""
-- 
2.43.0


From f996ae56b86b3567b0be61d24bfd6a4d48aa7ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 22/52] fix: refuse unknown categories in MutableExtraCode

---
 python/podio_gen/podio_config_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 3740f15..57e4188 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -430,12 +430,12 @@ class ClassDefinitionValidator:
             if key not in definition:
                 raise DefinitionError(f"'{classname}' does not define '{key}'")
 
-        if "ExtraCode" in definition:
-            extracode = definition["ExtraCode"]
+        for category in cls.valid_extra_datatype_keys:
+            extracode = definition.get(category, {})
             invalid_keys = [k for k in extracode if k not in cls.valid_extra_code_keys]
             if invalid_keys:
                 raise DefinitionError(
-                    f"{classname} defines invalid 'ExtraCode' categories: " f"{invalid_keys}"
+                    f"{classname} defines invalid '{category}' categories: " f"{invalid_keys}"
                 )
 
     @classmethod
-- 
2.43.0


From a6985d516672d5e25003d995a65b7f41802c43b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 23/52] fix: keep empty descriptions of members in the embedded
 definition

---
 python/podio_gen/generator_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index a8711db..c3ef360 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -160,6 +160,8 @@ class MemberVariable:
     def __init__(self, name, **kwargs):
         self.name = name
         self.full_type = kwargs.pop("type", "")
+        # an empty description is a description
+        self.has_description = "description" in kwargs
         self.description = kwargs.pop("description", "")
         self.default_val = kwargs.pop("default_val", None)
         self.unit = kwargs.pop("unit", None)
@@ -333,7 +335,7 @@ class MemberVariable:
         # The __str__ method is geared towards c++ too much, so we have to build
         # things again here from available information
         def_val = f"{{{self.default_val}}}" if self.default_val else ""
-        description = f" // {self.description}" if self.description else ""
+        description = f" // {self.description}" if self.has_description else ""
         unit = f"[{self.unit}]" if self.unit else ""
         return f"{self.full_type} {self.name}{def_val}{unit}{description}"
 
-- 
2.43.0


From b00911af659f26d690a980cfafd67741376942d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 24/52] fix: report potential renames of components

---
 python/podio_schema_evolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 55f0c14..c474cd0 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -442,7 +442,9 @@ class SchemaEvolutionJudge:
             for added in added_components:
                 added_members = {member.name: member for member in added.component["Members"]}
                 if set(dropped_members.keys()) == set(added_members.keys()):
-                    warnings.append(f"Potential rename of '{dropped.name}' into '{added.name}'.")
+                    warnings.append(
+                        f"Potential rename of '{dropped.klassname}' into '{added.klassname}'."
+                    )
 
         return schema_changes, warnings, errors
 
-- 
2.43.0


From 7aa8ee401f24f7c53e7e31074d4d04feea7ed2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 25/52] fix: do not consider members with a known rename for
 other renames

---
 python/podio_schema_evolution.py | 34 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index c474cd0..7ce4337 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -316,19 +316,29 @@ class SchemaEvolutionJudge:
         same_type_adds_drops = self.filter_types_with_adds_and_drops(
             added_members, dropped_members
         )
+        resolved = []
+        potential_renames = []
         for added_member, dropped_member in same_type_adds_drops:
-            if (
-                self.check_rename(
-                    added_member, dropped_member, schema_changes, read_schema_changes
-                )
-                == self.RenameResult.UNHANDLED
-            ):
-                warnings.append(
-                    f"Definition '{dropped_member.klassname}' has a potential "
-                    f"rename: '{dropped_member.member.name}' -> "
-                    f"'{added_member.member.name}' of type "
-                    f"'{dropped_member.member.full_type}'."
-                )
+            if added_member in resolved or dropped_member in resolved:
+                continue
+            result = self.check_rename(
+                added_member, dropped_member, schema_changes, read_schema_changes
+            )
+            if result == self.RenameResult.HANDLED:
+                resolved.extend((added_member, dropped_member))
+            elif result == self.RenameResult.UNHANDLED:
+                potential_renames.append((added_member, dropped_member))
+
+        for added_member, dropped_member in potential_renames:
+            # Members for which the evolution is known are not ambiguous any more
+            if added_member in resolved or dropped_member in resolved:
+                continue
+            warnings.append(
+                f"Definition '{dropped_member.klassname}' has a potential "
+                f"rename: '{dropped_member.member.name}' -> "
+                f"'{added_member.member.name}' of type "
+                f"'{dropped_member.member.full_type}'."
+            )
 
         return warnings
 
-- 
2.43.0


From 15a85c767b1ac07618de7c644eb18613efe8ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 26/52] fix: a datatype with other kinds of members is not a
 renamed datatype

---
 python/podio_schema_evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 7ce4337..9124754 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -412,11 +412,11 @@ class SchemaEvolutionJudge:
         )
 
         def _member_signature(datatype_definition):
-            """Build a set of (name, full_type) tuples for all member fields of a datatype"""
+            """Build a set of (field, name, full_type) tuples for all members of a datatype"""
             sig = set()
             for field in _MEMBER_FIELDS:
                 for member in datatype_definition.get(field, []):
-                    sig.add((member.name, member.full_type))
+                    sig.add((field, member.name, member.full_type))
             return sig
 
         for dropped in dropped_datatypes:
-- 
2.43.0


From 0d60cd3e7ad7da4742c6ff3e153f7a058c05c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 27/52] fix: do not fail for several datatypes that could be
 renamed

---
 python/podio_schema_evolution.py | 48 +++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 9124754..5fdca58 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -419,25 +419,35 @@ class SchemaEvolutionJudge:
                     sig.add((field, member.name, member.full_type))
             return sig
 
-        for dropped in dropped_datatypes:
-            dropped_sig = _member_signature(dropped.datatype)
-            is_known_evolution = False
-            for added in added_datatypes:
-                if dropped_sig == _member_signature(added.datatype):
-                    for schema_change in read_schema_changes:
-                        if isinstance(schema_change, RenamedDataType) and (
-                            schema_change.name_old == dropped.klassname
-                            and schema_change.name_new == added.klassname
-                        ):
-                            schema_changes.remove(dropped)
-                            schema_changes.remove(added)
-                            schema_changes.append(schema_change)
-                            is_known_evolution = True
-                    if not is_known_evolution:
-                        renamed = RenamedDataType(dropped.klassname, added.klassname)
-                        schema_changes.remove(dropped)
-                        schema_changes.remove(added)
-                        schema_changes.append(renamed)
+        def _is_same_type(dropped, added):
+            return _member_signature(dropped.datatype) == _member_signature(added.datatype)
+
+        def _rename_datatype(dropped, added, renamed):
+            """Replace the dropping/adding by the rename"""
+            for changes, change in (
+                (schema_changes, dropped),
+                (schema_changes, added),
+                (dropped_datatypes, dropped),
+                (added_datatypes, added),
+            ):
+                changes.remove(change)
+            schema_changes.append(renamed)
+
+        # First handle the renames that we know of
+        for known in (c for c in read_schema_changes if isinstance(c, RenamedDataType)):
+            dropped = next((d for d in dropped_datatypes if d.klassname == known.name_old), None)
+            added = next((a for a in added_datatypes if a.klassname == known.name_new), None)
+            if dropped and added and _is_same_type(dropped, added):
+                _rename_datatype(dropped, added, known)
+
+        # All others are only renames if they are not ambiguous
+        for dropped in list(dropped_datatypes):
+            candidates = [a for a in added_datatypes if _is_same_type(dropped, a)]
+            if len(candidates) != 1:
+                continue
+            if [d for d in dropped_datatypes if _is_same_type(d, candidates[0])] == [dropped]:
+                renamed = RenamedDataType(dropped.klassname, candidates[0].klassname)
+                _rename_datatype(dropped, candidates[0], renamed)
 
         # are there dropped/added component pairs that could be interpreted as rename?
         dropped_components = [
-- 
2.43.0


From 8bf248d9161bfd85b7b897ef17e3580b93b2e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 28/52] fix: changing a member from a builtin type to a
 component is not supported

---
 python/podio_schema_evolution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 5fdca58..ded1254 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -386,8 +386,11 @@ class SchemaEvolutionJudge:
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
                     f" to '{change.new_member.full_type}'"
                 )
-            # changing from one component type to another component type is forbidden
-            elif change.old_member.full_type in old_datamodel.components:
+            # changing from or to a component type is forbidden
+            elif (
+                change.old_member.full_type in old_datamodel.components
+                or change.new_member.full_type in self.datamodel_new.components
+            ):
                 errors.append(
                     f"Forbidden schema change in '{change.klassname}' for "
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
-- 
2.43.0


From 0513a20b23bdf2a3ea181506386d3367573b504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 29/52] fix: generate the same code for different hash seeds
 with old schema versions

---
 python/podio_gen/cpp_generator.py | 8 +++-----
 python/podio_schema_evolution.py  | 9 +++++----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index e81a4c2..dfb08b4 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -616,11 +616,9 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         These need to be generated outside the main loop. Additionally, the
         necessary includes have to be present for the Data classes
         """
-        current_components = set(self.datamodel.components.keys())
-        previous_components = set(self.old_components.keys())
-        dropped_components = previous_components.difference(current_components)
-
-        for name in dropped_components:
+        for name in self.old_components:
+            if name in self.datamodel.components:
+                continue
             comps = sorted(self.old_components[name], key=lambda x: x["version"], reverse=True)
             most_recent_comp = comps[0]["definition"]
             most_recent_comp["class"] = DataType(name)
diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index ded1254..d8644e6 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -632,10 +632,11 @@ class DataModelComparator:
 
     @staticmethod
     def _compare_keys(keys1, keys2):
-        """compare keys of two given dicts. return added, dropped and overlapping keys"""
-        added = set(keys1).difference(keys2)
-        dropped = set(keys2).difference(keys1)
-        kept = set(keys1).intersection(keys2)
+        """compare keys of two given dicts. return added, dropped and overlapping keys
+        in the order in which they are defined"""
+        added = [key for key in keys1 if key not in keys2]
+        dropped = [key for key in keys2 if key not in keys1]
+        kept = [key for key in keys1 if key in keys2]
         return added, dropped, kept
 
     def get_changed_schemata(self, results, schema_filter=None):
-- 
2.43.0


From 99950dfea0fdd42fa3ea6eb8786392cc091b5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 30/52] fix: do not write the list of generated files in dry
 runs

---
 python/podio_gen/cpp_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index dfb08b4..123562f 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -848,6 +848,9 @@ have resolvable schema evolution incompatibilities:"
 
     def _write_cmake_lists_file(self):
         """Write the names of all generated header and src files into cmake lists"""
+        if self.dryrun:
+            return
+
         header_files = list(f for f in self.generated_files if f.endswith(".h"))
         src_files = (f for f in self.generated_files if f.endswith(".cc"))
         xml_files = (f for f in self.generated_files if f.endswith(".xml"))
-- 
2.43.0


From 7a967652d97aad637e468ed31a6b772b4a6f4e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 31/52] fix: include julia structs in the same order for
 different hash seeds

---
 python/podio_gen/julia_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/julia_generator.py b/python/podio_gen/julia_generator.py
index e96ceb0..e706ee1 100644
--- a/python/podio_gen/julia_generator.py
+++ b/python/podio_gen/julia_generator.py
@@ -131,7 +131,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
         # Perform topological sorting using Kahn's algorithm
         sorted_components = []
         while dependencies:
-            ready = {component for component, deps in dependencies.items() if not deps}
+            ready = [component for component, deps in dependencies.items() if not deps]
             if not ready:
                 sorted_components.extend(
                     bare_types_mapping[component] for component in dependencies
@@ -143,7 +143,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
                 sorted_components.append(bare_types_mapping[component])
 
             for deps in dependencies.values():
-                deps -= ready
+                deps.difference_update(ready)
 
         # Return the Sorted Components (bare_types)
         return sorted_components
-- 
2.43.0


From 6330aebcd48bd6d01de21a60decafd8408214e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 32/52] fix: do not show filtered types as ends of associations

---
 tools/podio-vis | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/podio-vis b/tools/podio-vis
index 8374a4a..d4a1b62 100755
--- a/tools/podio-vis
+++ b/tools/podio-vis
@@ -52,6 +52,8 @@ class ModelToGraphviz:
             if name in self.remove:
                 continue
             if "Association" in name:
+                if any(rel.full_type in self.remove for rel in datatype["OneToOneRelations"][:2]):
+                    continue
                 with_association = True
                 self.graph.edge(
                     datatype["OneToOneRelations"][0].full_type.replace("::", "_"),
-- 
2.43.0


From 98eaab6e7ecace9a9591f3b4990a4d11cef87f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 33/52] fix: show types with similar names as different nodes
 with their names

---
 tools/podio-vis | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/tools/podio-vis b/tools/podio-vis
index d4a1b62..4e2efe4 100755
--- a/tools/podio-vis
+++ b/tools/podio-vis
@@ -14,6 +14,11 @@ except ImportError:
     sys.exit(1)
 
 
+def node_name(type_name):
+    """Get the name of the node for a type. Graphviz gets confused with C++ '::'"""
+    return type_name.replace("::", ".")
+
+
 class ModelToGraphviz:
     """Class to transform a data model description into a graphical representation"""
 
@@ -33,6 +38,13 @@ class ModelToGraphviz:
         if "Filter" in self.graph_conf:
             self.remove = set(self.graph_conf["Filter"])
 
+    def _target_node(self, rel):
+        """Get the name of the node for the target of a relation"""
+        if rel.full_type not in self.datamodel.datatypes:
+            # Interfaces and upstream types have no node with a label otherwise
+            self.graph.node(node_name(rel.full_type), label=rel.full_type)
+        return node_name(rel.full_type)
+
     def make_viz(self):
         """Make the graph and render it in the chosen format"""
 
@@ -45,7 +57,7 @@ class ModelToGraphviz:
                 for name in group:
                     if name in self.remove:
                         continue
-                    subgraph.node(name.replace("::", "_"), label=name)
+                    subgraph.node(node_name(name), label=name)
 
         with_association = False
         for name, datatype in self.datamodel.datatypes.items():
@@ -56,43 +68,38 @@ class ModelToGraphviz:
                     continue
                 with_association = True
                 self.graph.edge(
-                    datatype["OneToOneRelations"][0].full_type.replace("::", "_"),
-                    datatype["OneToOneRelations"][1].full_type.replace("::", "_"),
+                    self._target_node(datatype["OneToOneRelations"][0]),
+                    self._target_node(datatype["OneToOneRelations"][1]),
                     label=name.replace("edm4hep::", ""),
                     color="black",
                     dir="both",
                 )
                 continue
 
-            compatible_name = name.replace(
-                "::", "_"
-            )  # graphviz gets confused with C++ '::' and formatting strings
-            self.graph.node(compatible_name, label=name)
+            self.graph.node(node_name(name), label=name)
             self.graph.attr("edge", color="blue")
             for rel in datatype["OneToOneRelations"]:
                 if rel.full_type in self.remove:
                     continue
-                compatible_type = rel.full_type.replace("::", "_")
-                self.graph.edge(compatible_name, compatible_type)
+                self.graph.edge(node_name(name), self._target_node(rel))
             self.graph.attr("edge", color="red")
             for rel in datatype["OneToManyRelations"]:
                 if rel.full_type in self.remove:
                     continue
-                compatible_type = rel.full_type.replace("::", "_")
-                self.graph.edge(compatible_name, compatible_type)
+                self.graph.edge(node_name(name), self._target_node(rel))
 
         with self.graph.subgraph(name="cluster0") as subg:
             subg.attr("node", shape="plaintext")
-            subg.node("l1", "")
-            subg.node("r1", "One to One Relation")
-            subg.edge("l1", "r1", color="blue")
-            subg.node("l2", "")
-            subg.node("r2", "One to Many Relation")
-            subg.edge("l2", "r2", color="red")
+            subg.node(".l1", "")
+            subg.node(".r1", "One to One Relation")
+            subg.edge(".l1", ".r1", color="blue")
+            subg.node(".l2", "")
+            subg.node(".r2", "One to Many Relation")
+            subg.edge(".l2", ".r2", color="red")
             if with_association:
-                subg.node("r3", "Association")
-                subg.node("l3", "")
-                subg.edge("l3", "r3", color="black", dir="both")
+                subg.node(".r3", "Association")
+                subg.node(".l3", "")
+                subg.edge(".l3", ".r3", color="black", dir="both")
 
         if self.use_dot:
             self.graph.save()
-- 
2.43.0


From 9921df228b01e75b6f96c3dcebf9305aff4d3d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 34/52] fix: Keep includes of generated headers without
 includeSubfolder

Without the includeSubfolder option the includes of the components, datatypes
and interfaces do not contain the package name, so all of them (and all quoted
includes of extra code) were dropped and the generated code did not compile.
---
 python/podio_gen/cpp_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 123562f..9ae7f43 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -1086,6 +1086,10 @@ have resolvable schema evolution incompatibilities:"
                 stl_includes.append(include)
             elif self.upstream_edm and self.upstream_edm.options["includeSubfolder"] in include:
                 upstream_includes.append(include)
+            elif '"' in include:
+                # headers of this package if they are not in a subfolder, or
+                # headers that are necessary for extra code
+                package_includes.append(include)
             else:
                 print(f"Warning: unable to include '{include}'")
 
-- 
2.43.0


From 70f57f78a23cfa66be7682fd5bbeda2636e57862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 35/52] fix: Make exposed members of components usable with
 getSyntax

The declarations of their accessors used a misspelled variable and therefore
were always generated without the get and set prefix, so that the generated code
did not compile with getSyntax and exposePODMembers.
---
 python/templates/macros/declarations.jinja2    | 6 +++---
 python/templates/macros/implementations.jinja2 | 2 +-
 python/templates/macros/interface.jinja2       | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/templates/macros/declarations.jinja2 b/python/templates/macros/declarations.jinja2
index 75058f5..06c3596 100644
--- a/python/templates/macros/declarations.jinja2
+++ b/python/templates/macros/declarations.jinja2
@@ -17,7 +17,7 @@
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
   /// Access the member of {{ member.docstring }}
-  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const;
+  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const;
 {% endfor %}
 {% endif %}
 
@@ -41,9 +41,9 @@
   void {{ sub_member.setter_name(get_syntax) }}({{ sub_member.full_type }} value);
 {% else %}
   /// Get reference to the member of {{ member.docstring }}
-  {{ sub_member.full_type }}& {{ sub_member.name }}();
+  {{ sub_member.full_type }}& {{ sub_member.getter_name(get_syntax) }}();
   /// Set the member of  {{ member.docstring }}
-  void {{ sub_member.setter_name(get_sytnax) }}({{ sub_member.full_type }} value);
+  void {{ sub_member.setter_name(get_syntax) }}({{ sub_member.full_type }} value);
 {% endif %}
 {% endfor %}
 {% endif %}
diff --git a/python/templates/macros/implementations.jinja2 b/python/templates/macros/implementations.jinja2
index 0f9cb4c..af629a8 100644
--- a/python/templates/macros/implementations.jinja2
+++ b/python/templates/macros/implementations.jinja2
@@ -84,7 +84,7 @@ void {{ class_type }}::{{ member.setter_name(get_syntax) }}(size_t i, {{ member.
 {% for sub_member in member.sub_members %}
 void {{ class_type }}::{{ sub_member.setter_name(get_syntax) }}({{ sub_member.full_type }} value) { m_obj->data.{{ member.name }}.{{ sub_member.name }} = value; }
 {% if not sub_member.is_builtin %}
-{{ sub_member.full_type }}& {{ class_type }}::{{ sub_member.name }}() { return m_obj->data.{{ member.name }}.{{ sub_member.name }}; }
+{{ sub_member.full_type }}& {{ class_type }}::{{ sub_member.getter_name(get_syntax) }}() { return m_obj->data.{{ member.name }}.{{ sub_member.name }}; }
 {% endif %}
 {% endfor %}
 {% endif %}
diff --git a/python/templates/macros/interface.jinja2 b/python/templates/macros/interface.jinja2
index 44e9ad0..675f4c6 100644
--- a/python/templates/macros/interface.jinja2
+++ b/python/templates/macros/interface.jinja2
@@ -6,7 +6,7 @@
 {%- endif %}
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
-    virtual {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const = 0;
+    virtual {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const = 0;
 {% endfor %}
 {% endif %}
 
@@ -22,7 +22,7 @@
 {%- endif %}
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
-    {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const final { return m_value.{{ sub_member.getter_name(get_syntax) }}(); }
+    {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const final { return m_value.{{ sub_member.getter_name(get_syntax) }}(); }
 {% endfor %}
 {% endif %}
 
@@ -40,7 +40,7 @@
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
   /// Access the member of {{ member.docstring }}
-  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const { return m_self->{{ sub_member.getter_name(get_syntax) }}(); }
+  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const { return m_self->{{ sub_member.getter_name(get_syntax) }}(); }
 {% endfor %}
 {% endif %}
 
-- 
2.43.0


From e9fb23d21a8976544c8a8ba1a3eaef76197990a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 36/52] fix: Make generated code with cyclic one-to-many
 relations compile

Forward declare the related types and only include them where they are needed,
since the include guards otherwise leave them undeclared.
---
 python/podio_gen/cpp_generator.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 9ae7f43..8f83987 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -458,6 +458,8 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
                     "Types"
                 ]
             if self._needs_include(relation.full_type):
+                # In case of cyclic relations the include alone is not enough
+                fwd_declarations[relation.namespace].append(relation.bare_type)
                 includes.add(self._build_include(relation))
 
         for vectormember in datatype["VectorMembers"]:
@@ -493,7 +495,7 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         """Do the preprocessing that is necessary for the Obj classes"""
         fwd_declarations = defaultdict(list)
         includes, includes_cc = set(), set()
-        for relation in datatype["OneToOneRelations"]:
+        for relation in datatype["OneToOneRelations"] + datatype["OneToManyRelations"]:
             if relation.full_type != datatype["class"].full_type:
                 fwd_declarations[relation.namespace].append(relation.bare_type)
             includes_cc.add(self._build_include(relation))
@@ -501,12 +503,9 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         if datatype["VectorMembers"] or datatype["OneToManyRelations"]:
             includes.add("#include <vector>")
 
-        for relation in datatype["VectorMembers"] + datatype["OneToManyRelations"]:
-            if not relation.is_builtin:
-                if relation.full_type == datatype["class"].full_type:
-                    includes_cc.add(self._build_include(datatype["class"]))
-                else:
-                    includes.add(self._build_include(relation))
+        for member in datatype["VectorMembers"]:
+            if not member.is_builtin:
+                includes.add(self._build_include(member))
 
         datatype["forward_declarations_obj"] = fwd_declarations
         datatype["includes_obj"] = self._sort_includes(includes)
-- 
2.43.0


From 0f010df0aeb64db19120e376aec969f8ce6c1540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:16 +0000
Subject: [PATCH 37/52] fix: Keep generated comments closed and in one line for
 unusual descriptions

---
 python/podio_gen/generator_utils.py         | 3 ++-
 python/templates/macros/declarations.jinja2 | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index c3ef360..6f09cbf 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -229,7 +229,8 @@ class MemberVariable:
             docstring = rf"{self.description} [{self.unit}]"
         else:
             docstring = self.description
-        return docstring
+        # A trailing backslash would make the next line part of the comment
+        return docstring.rstrip("\\ ")
 
     def __str__(self):
         """string representation"""
diff --git a/python/templates/macros/declarations.jinja2 b/python/templates/macros/declarations.jinja2
index 06c3596..3d3ba13 100644
--- a/python/templates/macros/declarations.jinja2
+++ b/python/templates/macros/declarations.jinja2
@@ -1,7 +1,7 @@
 {% macro class_description(type, description, author, prefix='', postfix='') %}
 /** @class {{ prefix }}{{ type }}{{ postfix }}
- *  {{ description }}
- *  @author: {{ author }}
+ *  {{ description | replace('*/', '* /') }}
+ *  @author: {{ author | replace('*/', '* /') }}
  */
 {%- endmacro %}
 
@@ -110,7 +110,7 @@
 
 {% macro single_relation_getters(relations, get_syntax) %}
 {% for relation in relations %}
-  /// Access the {{ relation.description }}
+  /// Access the {{ relation.docstring }}
   const {{ relation.full_type }} {{ relation.getter_name(get_syntax) }}() const;
 {% endfor %}
 {%- endmacro %}
@@ -118,7 +118,7 @@
 
 {% macro single_relation_setters(relations, get_syntax) %}
 {% for relation in relations %}
-  /// Set the {{ relation.description }}
+  /// Set the {{ relation.docstring }}
   void {{ relation.setter_name(get_syntax) }}(const {{ relation.full_type }}& value);
 {% endfor %}
 {%- endmacro %}
-- 
2.43.0


From 028f16f1bb593f6b88ccf73c3d8070e87a89f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 38/52] fix: Make generated code for interfaces and types that
 refer to each other compile

---
 python/podio_gen/cpp_generator.py         | 6 +++++-
 python/templates/CollectionData.cc.jinja2 | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 8f83987..ebefec6 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -460,7 +460,11 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
             if self._needs_include(relation.full_type):
                 # In case of cyclic relations the include alone is not enough
                 fwd_declarations[relation.namespace].append(relation.bare_type)
-                includes.add(self._build_include(relation))
+                if datatype["class"].full_type in [t.full_type for t in relation.interface_types]:
+                    # The interface needs the complete type that is generated here
+                    includes_cc.add(self._build_include(relation))
+                else:
+                    includes.add(self._build_include(relation))
 
         for vectormember in datatype["VectorMembers"]:
             if vectormember.full_type in self.datamodel.components:
diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index 069b541..a97755a 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -2,8 +2,8 @@
 {% import "macros/collections.jinja2" as macros %}
 // AUTOMATICALLY GENERATED FILE - DO NOT EDIT
 
-#include "{{ incfolder }}{{ class.bare_type }}CollectionData.h"
 #include "{{ incfolder }}{{ class.bare_type }}Collection.h"
+#include "{{ incfolder }}{{ class.bare_type }}CollectionData.h"
 
 {% for include in includes_coll_cc %}
 {{ include }}
-- 
2.43.0


From 180bcb261b6625d4a83896acd72892599fa84cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 39/52] fix: refuse interfaces with the name of an interface of
 the upstream datamodel

---
 python/podio_gen/podio_config_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 57e4188..36aee50 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -282,11 +282,13 @@ class ClassDefinitionValidator:
         ext_types = upstream_edm.datatypes.keys() if upstream_edm else []
         all_types.extend(ext_types)
 
+        ext_interfaces = upstream_edm.interfaces.keys() if upstream_edm else []
+
         for name, definition in datamodel.interfaces.items():
-            if name in all_types:
+            if name in all_types or name in ext_interfaces:
                 raise DefinitionError(
                     f"'{name}' defines an interface type with the same name "
-                    "as an existing datatype"
+                    "as an existing datatype or interface"
                 )
             cls._check_required_fields(name, definition, cls.required_interface_keys, "interface")
             cls._check_interface_types(name, definition, all_types)
-- 
2.43.0


From 9d143e8fac3d57cb9a4604e3e8845de49ad605d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 40/52] fix: include interfaces in the header that lists all
 types of a datamodel

---
 python/podio_gen/cpp_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index ebefec6..80eaeca 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -913,17 +913,18 @@ have resolvable schema evolution incompatibilities:"
         )
 
     def _write_all_collections_header(self):
-        """Write a header file that includes all collection headers"""
-        collection_files = (
+        """Write a header file that includes all collection and interface headers"""
+        collection_files = [
             x.split("::")[-1] + "Collection.h"
             for x in list(self.datamodel.datatypes.keys()) + list(self.datamodel.links.keys())
-        )
+        ]
+        interface_files = [x.split("::")[-1] + ".h" for x in self.datamodel.interfaces]
         self._write_file(
             f"{self.package_name}.h",
             self._eval_template(
                 "datamodel.h.jinja2",
                 {
-                    "includes": collection_files,
+                    "includes": collection_files + interface_files,
                     "incfolder": self.incfolder,
                     "package_name": self.package_name,
                     "datatypes": self.datamodel.datatypes,
-- 
2.43.0


From e148e9edfad8e0cc0c69b088265260ecf2951473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 41/52] fix: show the members of upstream components in the
 header of printed collections

---
 python/podio_gen/cpp_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 80eaeca..97e0c09 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -560,9 +560,9 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         header_contents = []
         for member in datatype["Members"]:
             header = {"name": member.name}
-            if member.full_type in self.datamodel.components:
-                comps = [c.name for c in self.datamodel.components[member.full_type]["Members"]]
-                header["components"] = comps
+            if not member.is_builtin and not member.is_array:
+                component = self._get_definition("components", member.full_type)
+                header["components"] = [c.name for c in component["Members"]]
             header_contents.append(header)
 
         def ostream_collection_header(member_header, col_width=12):
-- 
2.43.0


From ebf0e51f56bdd693cb7539bf2f7d0c6285755f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 42/52] fix: define old versions of components with the
 components of that version

---
 python/podio_gen/cpp_generator.py   | 3 ++-
 python/templates/Component.h.jinja2 | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 97e0c09..fd72dea 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -648,7 +648,6 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         versions of it"""
         includes = set(self._get_member_includes(component["Members"]))
         includes.update(component.get("ExtraCode", {}).get("includes", "").split("\n"))
-        component["includes"] = self._sort_includes(includes)
 
         # Add old versions **even if they are identical**
         component["old_versions"] = old_comp_versions
@@ -656,6 +655,8 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         for old_comp in old_comp_versions:
             includes.update(self._get_member_includes(old_comp["definition"]["Members"]))
 
+        component["includes"] = self._sort_includes(includes)
+
         self._fill_templates("Component", component)
 
         return component
diff --git a/python/templates/Component.h.jinja2 b/python/templates/Component.h.jinja2
index 19a9e7b..7d044e0 100644
--- a/python/templates/Component.h.jinja2
+++ b/python/templates/Component.h.jinja2
@@ -49,7 +49,7 @@ namespace v{{ old_version.version }} {
 class {{ class.bare_type }} {
 public:
 {% for member in old_version.definition.Members %}
-  {{ member }}
+  {{ member.qualified_as_version(old_version.version) }}
 {% endfor %}
 };
 
-- 
2.43.0


From f2e740aa70cfc150d637c7afa0c520212c95121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 43/52] fix: read all old versions of renamed datatypes as the
 new datatype

---
 python/podio_gen/cpp_generator.py     | 21 +++++++++++----------
 python/templates/Collection.cc.jinja2 |  8 ++++----
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index fd72dea..31c638a 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -632,16 +632,17 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         """Generate code for datatypes that have been renamed, so that their old
         versioned data classes are available in the new dictionary for ROOT"""
         for name, changes in self.changed_datatypes.items():
-            for change in changes:
-                if isinstance(change["schema_change"], RenamedDataType):
-                    old_def = change["definition"].copy()
-                    old_def["renamed_to"] = change["schema_change"].name_new
-                    old_def["renamed_to_collection"] = (
-                        str(DataType(change["schema_change"].name_new)) + "Collection"
-                    )
-                    old_def["renamed_from_version"] = change["version"]
-                    self._process_datatype(name, old_def)
-                    break
+            renames = [c for c in changes if isinstance(c["schema_change"], RenamedDataType)]
+            if renames:
+                old_def = renames[0]["definition"].copy()
+                old_def["renames"] = [
+                    {
+                        "version": change["version"],
+                        "collection": change["schema_change"].name_new + "Collection",
+                    }
+                    for change in renames
+                ]
+                self._process_datatype(name, old_def)
 
     def _generate_component_code(self, component, old_comp_versions):
         """Generate the component code for a given component definition and old
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index ef74ce8..bf0e1d1 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -239,15 +239,15 @@ bool register{{ class.bare_type }}Collection() {
 
 
 {% endif %}
-{% if renamed_to_collection is defined %}
+{% for rename in renames %}
     // Schema Evolution for renamed datatypes: register old type buffers as new type
-    factory.registerCreationFunc("{{ class.full_type }}Collection", {{ renamed_from_version }},
+    factory.registerCreationFunc("{{ class.full_type }}Collection", {{ rename.version }},
       [](bool isSubset) {
         return *podio::CollectionBufferFactory::instance().createBuffers(
-           "{{ renamed_to_collection }}", 1, isSubset);
+           "{{ rename.collection }}", 1, isSubset);
       }
     );
-{% endif %}
+{% endfor %}
 
     return true;
   }();
-- 
2.43.0


From f4dcbac0bae82760813797439be63496c27ad554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 44/52] fix: accept old versions of datamodels that extend
 other datamodels

---
 python/podio_gen/cpp_generator.py   | 27 +++++++++++++++++++++++----
 python/podio_gen/generator_utils.py | 28 +++++++++++++++-------------
 python/templates/Component.h.jinja2 |  2 +-
 python/templates/Data.h.jinja2      |  2 +-
 4 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 31c638a..4a016e9 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -608,10 +608,22 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         """
         for version, old_model in old_datamodels.items():
             for name, comp_def in old_model.components.items():
-                self.old_components[name].append({"version": version, "definition": comp_def})
+                self.old_components[name].append(
+                    {
+                        "version": version,
+                        "definition": comp_def,
+                        "components": old_model.components,
+                    }
+                )
 
             for name, datatype_def in old_model.datatypes.items():
-                self.old_datatypes[name].append({"version": version, "definition": datatype_def})
+                self.old_datatypes[name].append(
+                    {
+                        "version": version,
+                        "definition": datatype_def,
+                        "components": old_model.components,
+                    }
+                )
 
     def _identify_dropped_components(self):
         """Identify components that have been dropped
@@ -671,13 +683,20 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         reader = PodioConfigReader()
         # Read the current model again into a "new" namespace to have it more
         # easily discerned from the "old" model
-        datamodel_new = reader.read(self.yamlfile, package_name="new")
+        datamodel_new = reader.read(
+            self.yamlfile, package_name="new", upstream_edm=self.upstream_edm
+        )
         comparator = DataModelComparator(datamodel_new)
         judge = SchemaEvolutionJudge(comparator.datamodel_new, evolution_file=self.evolution_file)
 
         # Process each old schema version
         for old_yamlfile in self.old_yamlfiles:
-            datamodel_old = reader.read(old_yamlfile, package_name="old", ignore_extracode=True)
+            datamodel_old = reader.read(
+                old_yamlfile,
+                package_name="old",
+                upstream_edm=self.upstream_edm,
+                ignore_extracode=True,
+            )
             detected_changes = comparator.compare(datamodel_old)
             comparison_results = judge.judge(datamodel_old, detected_changes)
 
diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 6f09cbf..63c1739 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -259,26 +259,28 @@ class MemberVariable:
             return self.name
         return _prefix_name(self.name, "get")
 
-    def qualified_as_version(self, version):
+    def qualified_as_version(self, version, components=None):
         """String representation with a potential intermediate version namespace
         Only applies in case the member is a component, as builtin variables are
-        considered not versionable
+        considered not versionable. If components are passed, all others (e.g.
+        the ones of an upstream datamodel) are not considered versionable.
         """
-        if self.is_builtin:
+        if self.is_builtin or self.is_builtin_array:
+            return str(self)
+
+        component = self.array_type if self.is_array else self.full_type
+        if components is not None and component not in components:
             return str(self)
 
         if self.is_array:
-            if self.is_builtin_array:
-                scoped_type = self.full_type
+            if self.array_namespace:
+                versioned_array_type = (
+                    f"::{self.array_namespace}::v{version}::{self.array_bare_type}"
+                )
             else:
-                if self.array_namespace:
-                    versioned_array_type = (
-                        f"::{self.array_namespace}::v{version}::{self.array_bare_type}"
-                    )
-                else:
-                    versioned_array_type = f"::v{version}::{self.array_bare_type}"
-
-                scoped_type = f"std::array<{versioned_array_type}, {self.array_size}>"
+                versioned_array_type = f"::v{version}::{self.array_bare_type}"
+
+            scoped_type = f"std::array<{versioned_array_type}, {self.array_size}>"
         else:
             if self.namespace:
                 scoped_type = f"::{self.namespace}::v{version}::{self.bare_type}"
diff --git a/python/templates/Component.h.jinja2 b/python/templates/Component.h.jinja2
index 7d044e0..df47488 100644
--- a/python/templates/Component.h.jinja2
+++ b/python/templates/Component.h.jinja2
@@ -49,7 +49,7 @@ namespace v{{ old_version.version }} {
 class {{ class.bare_type }} {
 public:
 {% for member in old_version.definition.Members %}
-  {{ member.qualified_as_version(old_version.version) }}
+  {{ member.qualified_as_version(old_version.version, old_version.components) }}
 {% endfor %}
 };
 
diff --git a/python/templates/Data.h.jinja2 b/python/templates/Data.h.jinja2
index 18f409f..19c4817 100644
--- a/python/templates/Data.h.jinja2
+++ b/python/templates/Data.h.jinja2
@@ -37,7 +37,7 @@ namespace v{{ old_version.version }} {
 class {{ class.bare_type }}Data {
 public:
 {% for member in old_version.definition.Members %}
-  {{ member.qualified_as_version(old_version.version) }}
+  {{ member.qualified_as_version(old_version.version, old_version.components) }}
 {% endfor %}
 
 {% for member in old_version.definition.VectorMembers + old_version.definition.OneToManyRelations %}
-- 
2.43.0


From 99afd87441db5f1f151267ce9b7b468ee7504009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 45/52] fix: end printing of objects with relations that lead
 back to them

---
 python/podio_gen/cpp_generator.py             | 23 +++++++++++++++++++
 python/podio_gen/generator_utils.py           |  1 +
 .../templates/macros/implementations.jinja2   |  2 +-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 4a016e9..a7d0819 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -425,6 +425,27 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
             print(summaryline)
         print()
 
+    def _can_refer_to(self, relation, classname):
+        """Check whether objects of a OneToManyRelation can (via the
+        OneToManyRelations of their own) refer to objects of type classname"""
+        visited = set()
+        to_visit = [relation.full_type]
+        while to_visit:
+            name = to_visit.pop()
+            if name == classname:
+                return True
+            if name in visited:
+                continue
+            visited.add(name)
+            if self._is_in(name, "interfaces"):
+                definition = self._get_definition("interfaces", name)
+                to_visit.extend(t.full_type for t in definition["Types"])
+            elif self._is_in(name, "datatypes"):
+                definition = self._get_definition("datatypes", name)
+                to_visit.extend(r.full_type for r in definition["OneToManyRelations"])
+
+        return False
+
     def _preprocess_for_class(self, datatype):
         """Do the preprocessing that is necessary for the classes and Mutable classes"""
         includes = set(datatype["includes_data"])
@@ -453,6 +474,8 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
             includes.add('#include "podio/RelationRange.h"')
 
         for relation in datatype["OneToManyRelations"]:
+            # Printing these with all their content might never end
+            relation.print_id = self._can_refer_to(relation, datatype["class"].full_type)
             if self._is_in(relation.full_type, "interfaces"):
                 relation.interface_types = self._get_definition("interfaces", relation.full_type)[
                     "Types"
diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 63c1739..6b997b8 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -179,6 +179,7 @@ class MemberVariable:
         self.includes = set()
         self.jl_imports = set()
         self.interface_types = []  # populated in the generator script if necessary
+        self.print_id = False  # populated in the generator script if necessary
 
         if kwargs:
             raise ValueError(f"Unused kwargs in MemberVariable: {list(kwargs.keys())}")
diff --git a/python/templates/macros/implementations.jinja2 b/python/templates/macros/implementations.jinja2
index af629a8..eaba00d 100644
--- a/python/templates/macros/implementations.jinja2
+++ b/python/templates/macros/implementations.jinja2
@@ -207,7 +207,7 @@ std::ostream& operator<<(std::ostream& o, const {{ type }}& value) {
 {% for relation in multi_relations %}
   o << " {{ relation.name }} : ";
   for (unsigned i = 0; i < value.{{ relation.name }}_size(); ++i) {
-{% if type == relation.bare_type %}
+{% if relation.print_id %}
     o << value.{{ relation.getter_name(get_syntax) }}(i).id() << " ";
 {% else %}
     o << value.{{ relation.getter_name(get_syntax) }}(i) << " ";
-- 
2.43.0


From 8819cb38d7a8893ba199b21c306b4d98ea207dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 46/52] fix: find the operator to print links

The template parameters of the operator could not be deduced, since Link is
an alias that involves a trait, so no link could be printed.
---
 include/podio/detail/Link.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/Link.h b/include/podio/detail/Link.h
index 9193f80..5639b86 100644
--- a/include/podio/detail/Link.h
+++ b/include/podio/detail/Link.h
@@ -348,8 +348,8 @@ private:
   podio::utils::MaybeSharedPtr<LinkObjT> m_obj{nullptr};
 };
 
-template <typename FromT, typename ToT>
-std::ostream& operator<<(std::ostream& os, const Link<FromT, ToT>& link) {
+template <typename FromT, typename ToT, bool Mutable>
+std::ostream& operator<<(std::ostream& os, const LinkT<FromT, ToT, Mutable>& link) {
   if (!link.isAvailable()) {
     return os << "[not available]";
   }
-- 
2.43.0


From 83348c01d1415c825c5b7b5e67a09e7b1f62fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 47/52] fix: do not access the first element of empty vectors
 in SIO blocks

operator[] with an index beyond the end is undefined, and aborts with the
assertions of the standard library, when empty user data collections or vector
members are written.
---
 include/podio/SIOBlockUserData.h         | 4 ++--
 python/templates/macros/sioblocks.jinja2 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/podio/SIOBlockUserData.h b/include/podio/SIOBlockUserData.h
index 0c47c9b..7816282 100644
--- a/include/podio/SIOBlockUserData.h
+++ b/include/podio/SIOBlockUserData.h
@@ -50,14 +50,14 @@ public:
     unsigned size(0);
     device.data(size);
     dataVec->resize(size);
-    podio::handlePODDataSIO(device, &(*dataVec)[0], size);
+    podio::handlePODDataSIO(device, dataVec->data(), size);
   }
 
   void write(sio::write_device& device) override {
     auto* dataVec = m_writeBuffers.template dataAsVector<BasicType>();
     unsigned size = dataVec->size();
     device.data(size);
-    podio::handlePODDataSIO(device, &(*dataVec)[0], size);
+    podio::handlePODDataSIO(device, dataVec->data(), size);
   }
 
   SIOBlock* create(const std::string& name) const override {
diff --git a/python/templates/macros/sioblocks.jinja2 b/python/templates/macros/sioblocks.jinja2
index e3893b1..66e99ca 100644
--- a/python/templates/macros/sioblocks.jinja2
+++ b/python/templates/macros/sioblocks.jinja2
@@ -2,7 +2,7 @@
     auto* vec{{ index }} = *reinterpret_cast<std::vector<{{ member.full_type }}>**>(vecMemInfo->at({{ index }}).second);
     size = vec{{ index }}->size();
     device.data(size);
-    podio::handlePODDataSIO(device, &(*vec{{ index }})[0], size);
+    podio::handlePODDataSIO(device, vec{{ index }}->data(), size);
 
 {% endmacro %}
 
-- 
2.43.0


From 55478d22be4acae89059d6fec84c04473c35f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 48/52] fix: refuse to write collections that are not in the
 frame to SIO files

---
 src/SIOWriter.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SIOWriter.cc b/src/SIOWriter.cc
index 87e50e6..fb968e5 100644
--- a/src/SIOWriter.cc
+++ b/src/SIOWriter.cc
@@ -6,6 +6,7 @@
 #include "sioUtils.h"
 
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 namespace podio {
@@ -37,7 +38,12 @@ void SIOWriter::writeFrame(const podio::Frame& frame, std::string_view category,
   std::vector<sio_utils::StoreCollection> collections;
   collections.reserve(collsToWrite.size());
   for (const auto& name : collsToWrite) {
-    collections.emplace_back(name, frame.getCollectionForWrite(name));
+    const auto* coll = frame.getCollectionForWrite(name);
+    if (!coll) {
+      throw std::runtime_error("Collection '" + name + "' in category '" + std::string(category) +
+                               "' is not available in Frame");
+    }
+    collections.emplace_back(name, coll);
     m_datamodelCollector.registerDatamodelDefinition(collections.back().second, name);
   }
 
-- 
2.43.0


From 870c537275e19671acada782ec2132e3c6d085e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 49/52] fix: read entries of legacy SIO files by index after
 the end has been reached

---
 src/SIOLegacyReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SIOLegacyReader.cc b/src/SIOLegacyReader.cc
index 8d857c9..09c7bd5 100644
--- a/src/SIOLegacyReader.cc
+++ b/src/SIOLegacyReader.cc
@@ -61,6 +61,8 @@ std::unique_ptr<podio::SIOFrameData> SIOLegacyReader::readEntry(std::string_view
   if (recordPos == 0) {
     return nullptr;
   }
+  // A previous attempt to read beyond the last entry leaves the stream in a failed state
+  m_stream.clear();
   m_stream.seekg(recordPos);
 
   return readNextEntry(name);
-- 
2.43.0


From aa2af8f48bbb18b86ad29093560de9f59949c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 50/52] fix: convert nested arrays and arrays of components to
 and from Arrow correctly

Loops over the elements of arrays inside of arrays used the same variable, and
the elements of arrays were looked up with the index of the object, without
the offset of the slice for the row that is read.
---
 python/templates/ArrowMapper.cc.jinja2 | 13 ++++++++-----
 python/templates/macros/arrow.jinja2   |  7 ++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/python/templates/ArrowMapper.cc.jinja2 b/python/templates/ArrowMapper.cc.jinja2
index 154a617..59b31b2 100644
--- a/python/templates/ArrowMapper.cc.jinja2
+++ b/python/templates/ArrowMapper.cc.jinja2
@@ -54,14 +54,17 @@ auto arr_{{ path_prefix }}{{ member.name }} = std::static_pointer_cast<{{ array_
 
 {% macro read_member(member, obj_expr, path_prefix, index_var='i') -%}
 {% if member.is_array -%}
-for (size_t arr_i = 0; arr_i < {{ member.array_size }}; ++arr_i) {
+{% set idx = 'idx_' + path_prefix + member.name -%}
+{% set elem = 'elem_' + path_prefix + member.name -%}
+for (size_t {{ idx }} = 0; {{ idx }} < {{ member.array_size }}; ++{{ idx }}) {
+  // Index of the element in the flat values array
+  const auto {{ elem }} = arr_{{ path_prefix }}{{ member.name }}->value_offset({{ index_var }}) + {{ idx }};
+{% set sub_obj = (obj_expr + '.' + member.name + '[' + idx + ']') -%}
 {% if member.value_builder.is_primitive -%}
-{% set value = (obj_expr + '.' + member.name + '[arr_i]') -%}
-  {{ value }} = arr_{{ path_prefix }}{{ member.name }}_val->Value({{ index_var }} * {{ member.array_size }} + arr_i);
+  {{ sub_obj }} = arr_{{ path_prefix }}{{ member.name }}_val->Value({{ elem }});
 {% else -%}
-{% set sub_obj = (obj_expr + '.' + member.name + '[arr_i]') -%}
 {% for child in member.value_builder.children -%}
-{{ read_member(child, sub_obj, path_prefix + member.name + '_val_', index_var) | indent(2, first=True) }}
+{{ read_member(child, sub_obj, path_prefix + member.name + '_val_', elem) | indent(2, first=True) }}
 {% endfor -%}
 {% endif -%}
 }
diff --git a/python/templates/macros/arrow.jinja2 b/python/templates/macros/arrow.jinja2
index 516caea..4f1da84 100644
--- a/python/templates/macros/arrow.jinja2
+++ b/python/templates/macros/arrow.jinja2
@@ -67,13 +67,14 @@ auto* builder_{{ relation.name }}_index = static_cast<arrow::Int32Builder*>(buil
 {% macro append_member(member, obj_expr, path_prefix, is_direct=true) -%}
 {% if member.is_array -%}
 checkStatus(builder_{{ path_prefix }}{{ member.name }}->Append(), "Failed to append fixed_size_list");
-for (size_t arr_i = 0; arr_i < {{ member.array_size }}; ++arr_i) {
+{% set idx = 'idx_' + path_prefix + member.name -%}
+for (size_t {{ idx }} = 0; {{ idx }} < {{ member.array_size }}; ++{{ idx }}) {
 {% if member.value_builder.is_primitive -%}
-{% set value = (obj_expr + '.' + member.getter + '(arr_i)') if is_direct else (obj_expr + '.' + member.name + '[arr_i]') -%}
+{% set value = (obj_expr + '.' + member.getter + '(' + idx + ')') if is_direct else (obj_expr + '.' + member.name + '[' + idx + ']') -%}
   checkStatus(builder_{{ path_prefix }}{{ member.name }}_val->Append({{ value }}), "Failed to append array element");
 {% else -%}
   checkStatus(builder_{{ path_prefix }}{{ member.name }}_val->Append(), "Failed to append struct in array");
-{% set sub_obj = (obj_expr + '.' + member.getter + '(arr_i)') if is_direct else (obj_expr + '.' + member.name + '[arr_i]') -%}
+{% set sub_obj = (obj_expr + '.' + member.getter + '(' + idx + ')') if is_direct else (obj_expr + '.' + member.name + '[' + idx + ']') -%}
 {% for child in member.value_builder.children -%}
 {{ append_member(child, sub_obj, path_prefix + member.name + '_val_', is_direct=false) | indent(2, first=True) }}
 {% endfor -%}
-- 
2.43.0


From 95f3c334bc1583eba480fdc9ec158b0ca7170ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 51/52] fix: do not treat the parameters of an Arrow table as a
 collection

---
 src/ArrowFrameData.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ArrowFrameData.cc b/src/ArrowFrameData.cc
index 8848a9c..74d1a00 100644
--- a/src/ArrowFrameData.cc
+++ b/src/ArrowFrameData.cc
@@ -100,6 +100,11 @@ ArrowFrameData::ArrowFrameData(std::shared_ptr<arrow::Table> table, int64_t rowI
 }
 
 std::optional<podio::CollectionReadBuffers> ArrowFrameData::getCollectionBuffers(const std::string& name) {
+  // Not every column is a collection (e.g. frame_parameters)
+  if (std::find(m_availableCollections.begin(), m_availableCollections.end(), name) == m_availableCollections.end()) {
+    return std::nullopt;
+  }
+
   auto chunked_array = m_table->GetColumnByName(name);
   if (!chunked_array) {
     return std::nullopt;
-- 
2.43.0


From 92fde609ba04c1add47b7228bfdd6b7b54804734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 52/52] fix: refuse to convert collections with the name of the
 parameter column to Arrow

---
 src/ArrowFrameConverter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArrowFrameConverter.cc b/src/ArrowFrameConverter.cc
index c6edbdd..6714b7b 100644
--- a/src/ArrowFrameConverter.cc
+++ b/src/ArrowFrameConverter.cc
@@ -110,6 +110,9 @@ std::shared_ptr<arrow::Table> convertFrameToTable(const podio::Frame& frame,
   arrays.reserve(collsToWrite.size() + 1);
 
   for (const auto& collName : collsToWrite) {
+    if (collName == "frame_parameters") {
+      throw std::runtime_error("Collection name 'frame_parameters' is reserved for the parameters of the Frame");
+    }
     const auto* coll = frame.getCollectionForWrite(collName);
     if (!coll) {
       throw std::runtime_error("Collection '" + collName + "' not found in Frame");
-- 
2.43.0

