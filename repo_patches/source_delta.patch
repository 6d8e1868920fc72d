From 3aa412026a13ef1c6900a5505513d1f1925bc0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 01/40] fix: guard all GenericParameters map accesses with
 their mutex

getKeys read the size of the map before taking the lock, and print, clear
and empty did not lock at all, racing with concurrent calls to set.
---
 include/podio/GenericParameters.h |  4 +++-
 src/GenericParameters.cc          | 11 ++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/podio/GenericParameters.h b/include/podio/GenericParameters.h
index f21e15d..d10500f 100644
--- a/include/podio/GenericParameters.h
+++ b/include/podio/GenericParameters.h
@@ -107,6 +107,7 @@ public:
 
   /// erase all elements
   void clear() {
+    std::scoped_lock lock(*m_intMtx, *m_floatMtx, *m_stringMtx, *m_doubleMtx);
     _intMap.clear();
     _floatMap.clear();
     _doubleMap.clear();
@@ -117,6 +118,7 @@ public:
 
   /// Check if no parameter is stored (i.e. if all internal maps are empty)
   bool empty() const {
+    std::scoped_lock lock(*m_intMtx, *m_floatMtx, *m_stringMtx, *m_doubleMtx);
     return _intMap.empty() && _floatMap.empty() && _doubleMap.empty() && _stringMap.empty();
   }
 
@@ -232,10 +234,10 @@ template <ValidGenericDataType T>
 std::vector<std::string> GenericParameters::getKeys() const {
   std::vector<std::string> keys;
   const auto& map = getMap<T>();
-  keys.reserve(map.size());
   {
     auto& mtx = getMutex<T>();
     std::lock_guard lock{mtx};
+    keys.reserve(map.size());
     std::transform(map.begin(), map.end(), std::back_inserter(keys), [](const auto& pair) { return pair.first; });
   }
 
diff --git a/src/GenericParameters.cc b/src/GenericParameters.cc
index 6befeb2..6889b8b 100644
--- a/src/GenericParameters.cc
+++ b/src/GenericParameters.cc
@@ -32,7 +32,8 @@ std::ostream& operator<<(std::ostream& os, const std::vector<T>& values) {
 }
 
 template <typename MapType>
-void printMap(const MapType& map, std::ostream& os) {
+void printMap(const MapType& map, std::mutex& mtx, std::ostream& os) {
+  std::lock_guard lock{mtx};
   const auto osflags = os.flags();
   os << std::left << std::setw(30) << "Key "
      << "Value " << '\n';
@@ -46,13 +47,13 @@ void printMap(const MapType& map, std::ostream& os) {
 
 void GenericParameters::print(std::ostream& os, bool flush) const {
   os << "int parameters\n\n";
-  printMap(getMap<int>(), os);
+  printMap(getMap<int>(), getMutex<int>(), os);
   os << "\nfloat parameters\n";
-  printMap(getMap<float>(), os);
+  printMap(getMap<float>(), getMutex<float>(), os);
   os << "\ndouble parameters\n";
-  printMap(getMap<double>(), os);
+  printMap(getMap<double>(), getMutex<double>(), os);
   os << "\nstd::string parameters\n";
-  printMap(getMap<std::string>(), os);
+  printMap(getMap<std::string>(), getMutex<std::string>(), os);
 
   if (flush) {
     os.flush();
-- 
2.43.0


From 4c7fd2fa60bde20fa79da88b6265a398adced6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 02/40] fix: make unpacking and putting collections of a Frame
 atomic

Concurrent gets could find a collection in neither the raw data nor the map,
or get one whose relations were not resolved yet; the set of requested IDs was
used without a lock; put accepted the name of a collection that was not
unpacked yet; and the ID table could be copied in the middle of an insertion.
---
 include/podio/Frame.h | 187 +++++++++++++++++++++++-------------------
 1 file changed, 103 insertions(+), 84 deletions(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 1f83030..9efdfbe 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -9,12 +9,12 @@
 #include "podio/SchemaEvolution.h"
 #include "podio/utilities/TypeHelpers.h"
 
+#include <algorithm>
 #include <concepts>
 #include <initializer_list>
 #include <memory>
 #include <mutex>
 #include <optional>
-#include <set>
 #include <stdexcept>
 #include <string>
 #include <type_traits>
@@ -134,25 +134,35 @@ class Frame {
     bool get(uint32_t collectionID, podio::CollectionBase*& collection) const override;
 
     podio::CollectionIDTable getIDTable() const override {
-      // Make a copy
+      // Make a copy. New entries are only added while the map mutex is held, so
+      // that holding it makes the IDs and the names a consistent pair
+      std::lock_guard lock{*m_mapMtx};
       return {m_idTable.ids(), m_idTable.names()};
     }
 
     std::vector<std::string> availableCollections() const override;
 
   private:
-    podio::CollectionBase* doGet(const std::string& name, bool setReferences = true) const;
+    podio::CollectionBase* doGet(const std::string& name) const;
+
+    /// Unpack a collection and (recursively) everything it refers to from the
+    /// raw data. Has to be called with the raw data mutex held
+    podio::CollectionBase* unpackCollection(const std::string& name) const;
 
     using CollectionMapT = std::unordered_map<std::string, std::unique_ptr<podio::CollectionBase>>;
 
-    mutable CollectionMapT m_collections{};                 ///< The internal map for storing unpacked collections
-    mutable std::unique_ptr<std::mutex> m_mapMtx{nullptr};  ///< The mutex for guarding the internal collection map
-    std::unique_ptr<FrameDataT> m_data{nullptr};            ///< The raw data read from file
-    mutable std::unique_ptr<std::mutex> m_dataMtx{nullptr}; ///< The mutex for guarding the raw data
-    podio::CollectionIDTable m_idTable{};                   ///< The collection ID table
+    mutable CollectionMapT m_collections{};                ///< The internal map for storing unpacked collections
+    mutable std::unique_ptr<std::mutex> m_mapMtx{nullptr}; ///< The mutex for guarding the internal collection map
+    std::unique_ptr<FrameDataT> m_data{nullptr};           ///< The raw data read from file
+    /// The mutex for guarding the raw data and the process of unpacking it.
+    /// Always locked before the map mutex if both are necessary. Recursive,
+    /// because resolving the relations of a collection unpacks others.
+    mutable std::unique_ptr<std::recursive_mutex> m_dataMtx{nullptr};
+    podio::CollectionIDTable m_idTable{};                            ///< The collection ID table
     std::unique_ptr<podio::GenericParameters> m_parameters{nullptr}; ///< The generic parameter store for this frame
-    mutable std::set<uint32_t> m_retrievedIDs{}; ///< The IDs of the collections that we have already read (but not yet
-                                                 ///< put into the map)
+    /// The collections that are taken from the raw data already, but for which
+    /// the relations are still being resolved. Guarded by the raw data mutex
+    mutable CollectionMapT m_unpacking{};
   };
 
   std::unique_ptr<FrameConcept> m_self; ///< The internal concept pointer through which all the work is done
@@ -424,7 +434,7 @@ const CollT& Frame::put(CollT&& coll, const std::string& name) {
 
 template <typename FrameDataT>
 Frame::FrameModel<FrameDataT>::FrameModel(std::unique_ptr<FrameDataT> data) :
-    m_mapMtx(std::make_unique<std::mutex>()), m_dataMtx(std::make_unique<std::mutex>()) {
+    m_mapMtx(std::make_unique<std::mutex>()), m_dataMtx(std::make_unique<std::recursive_mutex>()) {
   if (!data) {
     throw std::invalid_argument(
         "FrameData is a nullptr. If you are reading from a file it may be corrupted or you may reading beyond the end "
@@ -441,56 +451,76 @@ const podio::CollectionBase* Frame::FrameModel<FrameDataT>::get(const std::strin
 }
 
 template <typename FrameDataT>
-podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& name, bool setReferences) const {
-  {
-    // First check whether the collection is in the map already
-    //
-    // Collections only land here if they are fully unpacked, i.e.
-    // prepareAfterRead has been called or it has been put into the Frame
+podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& name) const {
+  const auto findInMap = [&]() -> podio::CollectionBase* {
     std::lock_guard lock{*m_mapMtx};
-    if (const auto it = m_collections.find(name); it != m_collections.end()) {
-      return it->second.get();
-    }
+    const auto it = m_collections.find(name);
+    return it != m_collections.end() ? it->second.get() : nullptr;
+  };
+
+  // First check whether the collection is in the map already
+  //
+  // Collections only land here if they are fully unpacked, i.e.
+  // prepareAfterRead has been called and their relations have been resolved, or
+  // if they have been put into the Frame
+  if (auto* coll = findInMap()) {
+    return coll;
   }
 
-  podio::CollectionBase* retColl = nullptr;
+  // Now try to get it from the raw data. The raw data lock is held until the
+  // collection can be found in the map, so that it is always in (at least) one
+  // of the two places for everybody else.
+  std::lock_guard dataLock{*m_dataMtx};
+  if (const auto it = m_unpacking.find(name); it != m_unpacking.end()) {
+    // Resolving the relations of this collection has led back to it
+    return it->second.get();
+  }
+  // Somebody else might have been faster
+  if (auto* coll = findInMap()) {
+    return coll;
+  }
+
+  return unpackCollection(name);
+}
+
+template <typename FrameDataT>
+podio::CollectionBase* Frame::FrameModel<FrameDataT>::unpackCollection(const std::string& name) const {
+  auto buffers = unpack(m_data.get(), name);
+  if (!buffers) {
+    return nullptr;
+  }
 
-  // Now try to get it from the raw data if we have the possibility
-  if (m_data) {
-    // Have the buffers in the outer scope here to hold the raw data lock as
-    // briefly as possible
-    std::optional<podio::CollectionReadBuffers> buffers;
-    {
-      std::lock_guard lock{*m_dataMtx};
-      buffers = unpack(m_data.get(), name);
+  std::unique_ptr<podio::CollectionBase> coll{nullptr};
+  // Subset collections do not need schema evolution (by definition)
+  if (buffers->data == nullptr) {
+    coll = buffers->createCollection(std::move(buffers.value()), true);
+  } else {
+    const auto version = buffers->schemaVersion;
+    const std::string collType{buffers->type};
+    auto evolvedBuffers =
+        podio::SchemaEvolution::instance().evolveBuffers(std::move(buffers.value()), version, collType);
+    coll = evolvedBuffers.createCollection(std::move(evolvedBuffers), false);
+  }
+
+  coll->prepareAfterRead();
+  coll->setID(m_idTable.collectionID(name).value());
+
+  // The collections become visible to others only once all the relations of all
+  // the collections that are reachable from the first one are resolved
+  const bool isFirst = m_unpacking.empty();
+  auto* retColl = m_unpacking.emplace(name, std::move(coll)).first->second.get();
+  try {
+    retColl->setReferences(this);
+    if (isFirst) {
+      std::lock_guard mapLock{*m_mapMtx};
+      m_collections.reserve(m_collections.size() + m_unpacking.size());
+      m_collections.merge(m_unpacking);
     }
-    if (buffers) {
-      std::unique_ptr<podio::CollectionBase> coll{nullptr};
-      // Subset collections do not need schema evolution (by definition)
-      if (buffers->data == nullptr) {
-        coll = buffers->createCollection(std::move(buffers.value()), true);
-      } else {
-        const auto version = buffers->schemaVersion;
-        const std::string collType{buffers->type};
-        auto evolvedBuffers =
-            podio::SchemaEvolution::instance().evolveBuffers(std::move(buffers.value()), version, collType);
-        coll = evolvedBuffers.createCollection(std::move(evolvedBuffers), false);
-      }
-
-      coll->prepareAfterRead();
-      coll->setID(m_idTable.collectionID(name).value());
-      {
-        std::lock_guard mapLock{*m_mapMtx};
-        auto [it, success] = m_collections.emplace(name, std::move(coll));
-        // TODO: Check success? Or simply assume that everything is fine at this point?
-        // TODO: Collision handling?
-        retColl = it->second.get();
-      }
-
-      if (setReferences) {
-        retColl->setReferences(this);
-      }
+  } catch (...) {
+    if (isFirst) {
+      m_unpacking.clear();
     }
+    throw;
   }
 
   return retColl;
@@ -502,20 +532,9 @@ bool Frame::FrameModel<FrameDataT>::get(uint32_t collectionID, CollectionBase*&
   if (!name) {
     return false;
   }
-  const auto& [_, inserted] = m_retrievedIDs.insert(collectionID);
-
-  if (inserted) {
-    auto coll = doGet(name.value());
-    if (coll) {
-      collection = coll;
-      return true;
-    }
-  } else {
-    auto coll = doGet(name.value(), false);
-    if (coll) {
-      collection = coll;
-      return true;
-    }
+  if (auto* coll = doGet(name.value())) {
+    collection = coll;
+    return true;
   }
 
   return false;
@@ -524,22 +543,22 @@ bool Frame::FrameModel<FrameDataT>::get(uint32_t collectionID, CollectionBase*&
 template <typename FrameDataT>
 const podio::CollectionBase* Frame::FrameModel<FrameDataT>::put(std::unique_ptr<podio::CollectionBase> coll,
                                                                 const std::string& name) {
-  {
-    std::lock_guard lock{*m_mapMtx};
-    auto [it, success] = m_collections.try_emplace(name, std::move(coll));
-    if (success) {
-      // TODO: Check whether this collection is already known to the idTable
-      // -> What to do on collision?
-      // -> Check before we emplace it into the internal map to prevent possible
-      //    collisions from collections that are potentially present from rawdata?
-      it->second->setID(m_idTable.add(name));
-      return it->second.get();
-    } else {
-      throw std::invalid_argument("An object with key " + name + " already exists in the frame");
-    }
+  std::scoped_lock lock{*m_dataMtx, *m_mapMtx};
+  // Names are also taken by the collections that have not been unpacked yet
+  const auto rawCollections = m_data->getAvailableCollections();
+  const bool inRawData = std::ranges::find(rawCollections, name) != rawCollections.end();
+  if (inRawData || m_collections.contains(name)) {
+    throw std::invalid_argument("An object with key " + name + " already exists in the frame");
   }
 
-  return nullptr;
+  const auto it = m_collections.emplace(name, std::move(coll)).first;
+  try {
+    it->second->setID(m_idTable.add(name));
+  } catch (...) {
+    m_collections.erase(it);
+    throw;
+  }
+  return it->second.get();
 }
 
 template <typename FrameDataT>
@@ -551,7 +570,7 @@ std::vector<std::string> Frame::FrameModel<FrameDataT>::availableCollections() c
   // in the raw data as well as things that have been put into the frame
 
   // Lock both the internal map and the rawdata for this
-  std::scoped_lock lock{*m_mapMtx, *m_dataMtx};
+  std::scoped_lock lock{*m_dataMtx, *m_mapMtx};
 
   auto collections = m_data->getAvailableCollections();
   collections.reserve(collections.size() + m_collections.size());
-- 
2.43.0


From ef3938ecfe3d3cc7225ff6ded7812bfb141d8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 03/40] fix: keep names and IDs of a CollectionIDTable in step
 if adding fails

---
 src/CollectionIDTable.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CollectionIDTable.cc b/src/CollectionIDTable.cc
index aeb7b3a..1f4a256 100644
--- a/src/CollectionIDTable.cc
+++ b/src/CollectionIDTable.cc
@@ -57,9 +57,15 @@ uint32_t CollectionIDTable::add(const std::string& name) {
   const auto result = std::ranges::find(m_names, name);
   uint32_t ID = 0;
   if (result == m_names.end()) {
-    m_names.emplace_back(name);
     MurmurHash3_x86_32(name.c_str(), name.size(), 0, &ID);
     m_collectionIDs.emplace_back(ID);
+    try {
+      m_names.emplace_back(name);
+    } catch (...) {
+      // Keep the names and the IDs in step
+      m_collectionIDs.pop_back();
+      throw;
+    }
   } else {
     const auto index = std::distance(m_names.begin(), result);
     ID = m_collectionIDs[index];
-- 
2.43.0


From b62f33b31a3c42eb857a86d9c30d4562fa0c5792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 04/40] fix: lock the CollectionIDTable in empty()

---
 include/podio/CollectionIDTable.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/podio/CollectionIDTable.h b/include/podio/CollectionIDTable.h
index 6c554fa..3ef2737 100644
--- a/include/podio/CollectionIDTable.h
+++ b/include/podio/CollectionIDTable.h
@@ -58,6 +58,7 @@ public:
 
   /// Does this table hold any information?
   bool empty() const {
+    std::lock_guard<std::mutex> lock{*m_mutex};
     return m_names.empty();
   }
 
-- 
2.43.0


From 3ba48046d236e36b2af650dc4c6b6120e1585387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 05/40] fix: never replace a user defined evolution function by
 a generated one

---
 include/podio/SchemaEvolution.h | 21 ++++++++++++++-------
 src/SchemaEvolution.cc          | 10 ++++++----
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/podio/SchemaEvolution.h b/include/podio/SchemaEvolution.h
index 5eb82c6..89d2359 100644
--- a/include/podio/SchemaEvolution.h
+++ b/include/podio/SchemaEvolution.h
@@ -30,11 +30,6 @@ class SchemaEvolution {
   /// The interface of any evolution function takes buffers and a version and
   /// returns buffers.
   using EvolutionFuncT = std::function<podio::CollectionReadBuffers(podio::CollectionReadBuffers&&, SchemaVersionT)>;
-  /// Each datatype gets its own version "map" where the index defines the
-  /// version from which the schema evolution has to start to end up in the
-  /// current version
-  using EvolFuncVersionMapT = std::vector<EvolutionFuncT>;
-
   /// Helper struct combining the current schema version of each type and an
   /// index into the schema evolution "map" below
   struct MapIndex {
@@ -47,14 +42,26 @@ class SchemaEvolution {
   /// The map that holds the current version for each type that is known to
   /// the schema evolution
   using VersionMapT = std::unordered_map<std::string, MapIndex>;
-  /// The "map" that holds all evolution functions
-  using EvolutionMapT = std::vector<EvolFuncVersionMapT>;
 
 public:
   /// Enum to make it possible to prioritize evolution functions during
   /// registration, making AutoGenerated lower priority than UserDefined
   enum class Priority { AutoGenerated = 0, UserDefined = 1 };
 
+private:
+  /// An evolution function together with the priority it was registered with
+  struct PrioritizedFunc {
+    EvolutionFuncT func{};
+    Priority priority{Priority::AutoGenerated};
+  };
+  /// Each datatype gets its own version "map" where the index defines the
+  /// version from which the schema evolution has to start to end up in the
+  /// current version
+  using EvolFuncVersionMapT = std::vector<PrioritizedFunc>;
+  /// The "map" that holds all evolution functions
+  using EvolutionMapT = std::vector<EvolFuncVersionMapT>;
+
+public:
   /// The SchemaEvolution is a singleton so we disable all copy and move
   /// constructors explicitly
   SchemaEvolution(const SchemaEvolution&) = delete;
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index f21bb4f..3cc94e6 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -27,7 +27,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     if (fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
-      return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);
+      return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
     }
   }
 
@@ -62,10 +62,12 @@ void SchemaEvolution::registerEvolutionFunc(const std::string& collType, SchemaV
     versionMap.resize(currentVersion);
   }
 
-  versionMap[fromVersion - 1] = evolutionFunc;
-  if (priority != Priority::UserDefined) {
-    //  std::cerr << "Not updating evolution function because priority is not UserDefined" << std::endl;
+  auto& registered = versionMap[fromVersion - 1];
+  if (registered.func && registered.priority > priority) {
+    // Auto generated functions never replace user defined ones
+    return;
   }
+  registered = {evolutionFunc, priority};
 }
 
 podio::CollectionReadBuffers SchemaEvolution::noOpSchemaEvolution(podio::CollectionReadBuffers&& buffers,
-- 
2.43.0


From a68d395de23f1678063589c1920245de1dbb9109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 06/40] fix: do not look up buffers for schema version 0

---
 src/CollectionBufferFactory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CollectionBufferFactory.cc b/src/CollectionBufferFactory.cc
index 8c48ea0..33ee245 100644
--- a/src/CollectionBufferFactory.cc
+++ b/src/CollectionBufferFactory.cc
@@ -15,7 +15,7 @@ std::optional<podio::CollectionReadBuffers>
 CollectionBufferFactory::createBuffers(const std::string& collType, SchemaVersionT version, bool subsetColl) const {
   if (const auto typeIt = m_funcMap.find(collType); typeIt != m_funcMap.end()) {
     const auto& [_, versionMap] = *typeIt;
-    if (versionMap.size() >= version) {
+    if (version > 0 && versionMap.size() >= version) {
       return versionMap[version - 1](subsetColl);
     }
   }
-- 
2.43.0


From d0228b870ed96f30e10e67adeb727ceb6a61fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 07/40] fix: start from empty buffers when preparing a
 collection again

---
 include/podio/detail/LinkCollectionData.h | 2 ++
 python/templates/CollectionData.cc.jinja2 | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/podio/detail/LinkCollectionData.h b/include/podio/detail/LinkCollectionData.h
index 19ec19d..1a176ee 100644
--- a/include/podio/detail/LinkCollectionData.h
+++ b/include/podio/detail/LinkCollectionData.h
@@ -104,6 +104,8 @@ public:
       return;
     }
 
+    // A previous attempt may have failed half way, so start from an empty buffer
+    m_data->clear();
     m_data->reserve(entries.size());
     for (const auto obj : entries) {
       m_data->push_back(obj->data);
diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index 0452da5..3a0010e 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -141,7 +141,12 @@ void {{ class_type }}::prepareForWrite(bool isSubsetColl) {
     return;
   }
 
-  // Normal collections have to store the data and all the relations
+  // Normal collections have to store the data and all the relations. A previous
+  // attempt may have failed half way, so always start from empty buffers
+  m_data->clear();
+{% for member in VectorMembers %}
+  m_vec_{{ member.name }}->clear();
+{% endfor %}
   m_data->reserve(entries.size());
   for (const auto& obj : entries) { m_data->push_back(obj->data); }
 
-- 
2.43.0


From 1ea318991ad353124dfc8cbfac97bc6eb96b782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:43 +0000
Subject: [PATCH 08/40] fix: destroy the elements a collection has before
 moving another one into it

---
 include/podio/detail/LinkCollectionImpl.h | 14 +++++++++++++-
 python/templates/Collection.cc.jinja2     | 14 ++++++++++++++
 python/templates/Collection.h.jinja2      |  2 +-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index cf498c3..af2b7e6 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -69,7 +69,19 @@ public:
   LinkCollection(const LinkCollection&) = delete;
   LinkCollection& operator=(const LinkCollection&) = delete;
   LinkCollection(LinkCollection&&) = default;
-  LinkCollection& operator=(LinkCollection&&) = default;
+  LinkCollection& operator=(LinkCollection&& other) noexcept {
+    if (this != &other) {
+      // Need to tell the storage how to clean up before it is replaced
+      m_storage.clear(m_isSubsetColl);
+      CollectionBase::operator=(std::move(other));
+      m_isPrepared = other.m_isPrepared;
+      m_isSubsetColl = other.m_isSubsetColl;
+      m_collectionID = other.m_collectionID;
+      m_storageMtx = std::move(other.m_storageMtx);
+      m_storage = std::move(other.m_storage);
+    }
+    return *this;
+  }
 #if defined(__cpp_lib_containers_ranges)
   /// Constructor from range in order to enable the use of std::ranges::to see
   /// @ref from.
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 0acc2e7..9f3c0cc 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -37,6 +37,20 @@
   m_storage.clear(m_isSubsetColl);
 }
 
+{{ collection_type }}& {{ collection_type }}::operator=({{ collection_type }}&& other) noexcept {
+  if (this != &other) {
+    // Need to tell the storage how to clean-up before it is replaced
+    m_storage.clear(m_isSubsetColl);
+    CollectionBase::operator=(std::move(other));
+    m_isPrepared = other.m_isPrepared;
+    m_isSubsetColl = other.m_isSubsetColl;
+    m_collectionID = other.m_collectionID;
+    m_storageMtx = std::move(other.m_storageMtx);
+    m_storage = std::move(other.m_storage);
+  }
+  return *this;
+}
+
 {{ class.bare_type }} {{ collection_type }}::operator[](std::size_t index) const {
   return {{ class.bare_type }}(m_storage.entries[index]);
 }
diff --git a/python/templates/Collection.h.jinja2 b/python/templates/Collection.h.jinja2
index c74a50d..7363176 100644
--- a/python/templates/Collection.h.jinja2
+++ b/python/templates/Collection.h.jinja2
@@ -61,7 +61,7 @@ public:
   {{ class.bare_type }}Collection(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection& operator=(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection({{ class.bare_type }}Collection&&) = default;
-  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&&) = default;
+  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&& other) noexcept;
 
   ~{{ class.bare_type }}Collection() override;
 #if defined(__cpp_lib_containers_ranges)
-- 
2.43.0


From d00a2d4258aa1465c14bcfdb724e7d5210173fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:48 +0000
Subject: [PATCH 09/40] fix: set up the buffers of a collection that stops
 being a subset collection

---
 include/podio/detail/LinkCollectionImpl.h | 3 +++
 python/templates/Collection.cc.jinja2     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index af2b7e6..fe57f77 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -319,6 +319,9 @@ public:
 
     if (setSubset) {
       m_storage.makeSubsetCollection();
+    } else if (m_isSubsetColl) {
+      // Need all the data buffers again that subset collections go without
+      m_storage = CollectionDataT();
     }
     m_isSubsetColl = setSubset;
   }
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 9f3c0cc..f3f76a5 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -92,6 +92,9 @@ void {{ collection_type }}::setSubsetCollection(bool setSubset) {
 
   if (setSubset) {
     m_storage.makeSubsetCollection();
+  } else if (m_isSubsetColl) {
+    // Need all the data buffers again that subset collections go without
+    m_storage = {{ collection_type }}Data();
   }
   m_isSubsetColl = setSubset;
 }
-- 
2.43.0


From c03ce165919bf9a952103c93f3df1f3b72b5d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 10/40] fix: clone only its own slice of the vectors of an
 object that was read

---
 python/templates/Obj.cc.jinja2 | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/templates/Obj.cc.jinja2 b/python/templates/Obj.cc.jinja2
index f7e9330..0cd3de1 100644
--- a/python/templates/Obj.cc.jinja2
+++ b/python/templates/Obj.cc.jinja2
@@ -31,10 +31,17 @@
 {{ obj_type }}::{{ obj_type }}(const {{ obj_type }}& other) :
   data(other.data){{ single_relations_initialize(OneToOneRelations) }}
 {%- for relation in OneToManyRelations + VectorMembers %},
-  m_{{ relation.name }}(new std::vector<{{ relation.full_type }}>(*(other.m_{{ relation.name }})))
+  // If the other object has been read, it has only a slice of the vector
+  m_{{ relation.name }}(new std::vector<{{ relation.full_type }}>(
+    other.m_{{ relation.name }}->begin() + other.data.{{ relation.name }}_begin,
+    other.m_{{ relation.name }}->begin() + other.data.{{ relation.name }}_end))
 {%- endfor %}
 
 {
+{% for relation in OneToManyRelations + VectorMembers %}
+  data.{{ relation.name }}_begin = 0;
+  data.{{ relation.name }}_end = m_{{ relation.name }}->size();
+{% endfor %}
 {% for relation in OneToOneRelations %}
   if (other.m_{{ relation.name }}) {
     m_{{ relation.name }} = std::make_unique<{{ relation.full_type }}>(*(other.m_{{ relation.name }}));
-- 
2.43.0


From 95b35e678403e65fc4174d853844711d8ae8eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:51 +0000
Subject: [PATCH 11/40] fix: do not leak objects if an allocation fails while
 making or cloning them

---
 include/podio/detail/Link.h                   |  5 +--
 include/podio/utilities/MaybeSharedPtr.h      |  7 +++--
 python/templates/MutableObject.cc.jinja2      |  2 ++
 python/templates/Obj.cc.jinja2                | 31 ++++++-------------
 python/templates/Object.cc.jinja2             |  1 +
 .../templates/macros/implementations.jinja2   |  8 ++---
 6 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/include/podio/detail/Link.h b/include/podio/detail/Link.h
index 9193f80..65dfaa3 100644
--- a/include/podio/detail/Link.h
+++ b/include/podio/detail/Link.h
@@ -13,6 +13,7 @@
 #endif
 
 #include <functional>
+#include <memory>
 #include <ostream>
 #include <type_traits>
 #include <utility> // std::swap
@@ -100,7 +101,7 @@ public:
   template <typename FromU = FromT, typename ToU = ToT>
     requires sameTypes<FromU, ToU>
   MutableLink<FromU, ToU> clone(bool cloneRelations = true) const {
-    auto tmp = new LinkObjT(podio::ObjectID{}, m_obj->data);
+    auto tmp = std::make_unique<LinkObjT>(podio::ObjectID{}, m_obj->data);
     if (cloneRelations) {
       if (m_obj->m_from) {
         tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);
@@ -109,7 +110,7 @@ public:
         tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);
       }
     }
-    return MutableLink<FromU, ToU>(podio::utils::MaybeSharedPtr(tmp, podio::utils::MarkOwned));
+    return MutableLink<FromU, ToU>(podio::utils::MaybeSharedPtr(tmp.release(), podio::utils::MarkOwned));
   }
 
   /// Create an empty Link handle
diff --git a/include/podio/utilities/MaybeSharedPtr.h b/include/podio/utilities/MaybeSharedPtr.h
index 9804440..0af7914 100644
--- a/include/podio/utilities/MaybeSharedPtr.h
+++ b/include/podio/utilities/MaybeSharedPtr.h
@@ -36,8 +36,11 @@ public:
   explicit MaybeSharedPtr(T* p) : m_ptr(p) {
   }
 
-  /// Constructor from a raw pointer assuming ownership in the process
-  explicit MaybeSharedPtr(T* p, detail::MarkOwnedTag) : m_ptr(p), m_ctrlBlock(new ControlBlock()) {
+  /// Constructor from a raw pointer assuming ownership in the process (also in
+  /// case of an exception)
+  explicit MaybeSharedPtr(T* p, detail::MarkOwnedTag) try : m_ptr(p), m_ctrlBlock(new ControlBlock()) {
+  } catch (...) {
+    delete p;
   }
 
   /// Copy constructor
diff --git a/python/templates/MutableObject.cc.jinja2 b/python/templates/MutableObject.cc.jinja2
index 329a0f8..350e564 100644
--- a/python/templates/MutableObject.cc.jinja2
+++ b/python/templates/MutableObject.cc.jinja2
@@ -12,6 +12,8 @@
 #include "nlohmann/json.hpp"
 #endif
 
+#include <memory>
+
 {{ utils.namespace_open(class.namespace) }}
 
 {{ macros.constructors_destructors(class.bare_type, Members, multi_relations=OneToManyRelations + VectorMembers, prefix='Mutable') }}
diff --git a/python/templates/Obj.cc.jinja2 b/python/templates/Obj.cc.jinja2
index 0cd3de1..8618881 100644
--- a/python/templates/Obj.cc.jinja2
+++ b/python/templates/Obj.cc.jinja2
@@ -6,39 +6,26 @@
 {{ include }}
 {% endfor %}
 
-{%- macro single_relations_initialize(relations) -%}
-{%- for relation in relations %},
-  m_{{ relation.name }}(nullptr)
-{%- endfor %}
-{%- endmacro -%}
-
 #include "podio/ObjectID.h"
 
 {{ utils.namespace_open(class.namespace) }}
 {% with obj_type = class.bare_type + 'Obj' %}
-{{ obj_type }}::{{ obj_type }}() :
-  data(){{ single_relations_initialize(OneToOneRelations) }}
-{%- for relation in OneToManyRelations + VectorMembers %},
-  m_{{ relation.name }}(new std::vector<{{ relation.full_type }}>())
-{%- endfor %}
-
-{  }
+{{ obj_type }}::{{ obj_type }}() : {{ obj_type }}(podio::ObjectID{}, {{ class.bare_type }}Data{}) {
+{% for relation in OneToManyRelations + VectorMembers %}
+  m_{{ relation.name }} = new std::vector<{{ relation.full_type }}>();
+{% endfor %}
+}
 
 {{ obj_type }}::{{ obj_type }}(const podio::ObjectID& id_, const {{ class.bare_type }}Data& data_) :
   id(id_), data(data_)
 {  }
 
-{{ obj_type }}::{{ obj_type }}(const {{ obj_type }}& other) :
-  data(other.data){{ single_relations_initialize(OneToOneRelations) }}
-{%- for relation in OneToManyRelations + VectorMembers %},
+{{ obj_type }}::{{ obj_type }}(const {{ obj_type }}& other) : {{ obj_type }}(podio::ObjectID{}, other.data) {
+{% for relation in OneToManyRelations + VectorMembers %}
   // If the other object has been read, it has only a slice of the vector
-  m_{{ relation.name }}(new std::vector<{{ relation.full_type }}>(
+  m_{{ relation.name }} = new std::vector<{{ relation.full_type }}>(
     other.m_{{ relation.name }}->begin() + other.data.{{ relation.name }}_begin,
-    other.m_{{ relation.name }}->begin() + other.data.{{ relation.name }}_end))
-{%- endfor %}
-
-{
-{% for relation in OneToManyRelations + VectorMembers %}
+    other.m_{{ relation.name }}->begin() + other.data.{{ relation.name }}_end);
   data.{{ relation.name }}_begin = 0;
   data.{{ relation.name }}_end = m_{{ relation.name }}->size();
 {% endfor %}
diff --git a/python/templates/Object.cc.jinja2 b/python/templates/Object.cc.jinja2
index 3e4fb95..0e1b341 100644
--- a/python/templates/Object.cc.jinja2
+++ b/python/templates/Object.cc.jinja2
@@ -12,6 +12,7 @@
 #include "nlohmann/json.hpp"
 #endif
 
+#include <memory>
 #include <ostream>
 
 {{ utils.namespace_open(class.namespace) }}
diff --git a/python/templates/macros/implementations.jinja2 b/python/templates/macros/implementations.jinja2
index 9653c4f..584d3aa 100644
--- a/python/templates/macros/implementations.jinja2
+++ b/python/templates/macros/implementations.jinja2
@@ -17,17 +17,17 @@
 Mutable{{ type }} {{ full_type }}::clone(bool cloneRelations) const {
 {% if prefix %}
   if (!cloneRelations) {
-    auto tmp = new {{ type }}Obj(podio::ObjectID{}, m_obj->data);
+    auto tmp = std::make_unique<{{ type }}Obj>(podio::ObjectID{}, m_obj->data);
 {% for relation in multi_relations %}
     tmp->m_{{ relation.name }} = new std::vector<{{ relation.full_type }}>();
     tmp->data.{{ relation.name }}_begin = 0;
     tmp->data.{{ relation.name }}_end = 0;
 {% endfor %}
-    return Mutable{{ type }}(podio::utils::MaybeSharedPtr(tmp, podio::utils::MarkOwned));
+    return Mutable{{ type }}(podio::utils::MaybeSharedPtr(tmp.release(), podio::utils::MarkOwned));
   }
   return Mutable{{ type }}(podio::utils::MaybeSharedPtr(new {{ type }}Obj(*m_obj), podio::utils::MarkOwned));
 {% else %}
-  auto tmp = new {{ type }}Obj(podio::ObjectID{}, m_obj->data);
+  auto tmp = std::make_unique<{{ type }}Obj>(podio::ObjectID{}, m_obj->data);
 {% for relation in multi_relations %}
   tmp->m_{{ relation.name }} = new std::vector<{{ relation.full_type }}>();
 {% endfor %}
@@ -54,7 +54,7 @@ Mutable{{ type }} {{ full_type }}::clone(bool cloneRelations) const {
     tmp->data.{{ relation.name }}_end = 0;
 {% endfor %}
   }
-  return Mutable{{ type }}(podio::utils::MaybeSharedPtr(tmp, podio::utils::MarkOwned));
+  return Mutable{{ type }}(podio::utils::MaybeSharedPtr(tmp.release(), podio::utils::MarkOwned));
 {% endif %}
 }
 
-- 
2.43.0


From 0c1ad86707050429a71a5ddb95aa0d6463c61203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:51 +0000
Subject: [PATCH 12/40] fix: leave collections as they were if an allocation
 fails while adding or moving

---
 include/podio/detail/LinkCollectionData.h |  5 +++--
 include/podio/detail/LinkCollectionImpl.h | 13 ++++++++-----
 include/podio/detail/RelationIOHelpers.h  |  9 +++++++++
 python/templates/Collection.cc.jinja2     | 16 ++++++----------
 python/templates/Collection.h.jinja2      | 12 +++++++-----
 python/templates/CollectionData.cc.jinja2 | 19 ++++++++++++++-----
 python/templates/CollectionData.h.jinja2  |  8 +++++---
 7 files changed, 52 insertions(+), 30 deletions(-)

diff --git a/include/podio/detail/LinkCollectionData.h b/include/podio/detail/LinkCollectionData.h
index 1a176ee..2e659b0 100644
--- a/include/podio/detail/LinkCollectionData.h
+++ b/include/podio/detail/LinkCollectionData.h
@@ -127,8 +127,9 @@ public:
   void prepareAfterRead(uint32_t collectionID) {
     int index = 0;
     for (const auto data : *m_data) {
-      auto obj = new LinkObj<FromT, ToT>({index++, collectionID}, data);
-      entries.emplace_back(obj);
+      auto obj = std::make_unique<LinkObj<FromT, ToT>>(podio::ObjectID{index++, collectionID}, data);
+      entries.push_back(obj.get());
+      obj.release();
     }
 
     // Keep the I/O data buffer to keep the preparedForWrite state intact
diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index fe57f77..f6c80c5 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -142,9 +142,10 @@ public:
       throw std::logic_error("Cannot create new elements on a subset collection");
     }
 
-    auto obj = m_storage.entries.emplace_back(new LinkObj<FromT, ToT>());
+    auto obj = std::make_unique<LinkObj<FromT, ToT>>();
+    m_storage.entries.push_back(obj.get());
     obj->id = {int(m_storage.entries.size() - 1), m_collectionID};
-    return mutable_type(podio::utils::MaybeSharedPtr(obj));
+    return mutable_type(podio::utils::MaybeSharedPtr(obj.release()));
   }
 
   /// Returns the immutable object of given index
@@ -172,8 +173,9 @@ public:
     if (!m_isSubsetColl) {
       auto obj = object.m_obj;
       if (obj->id.index == podio::ObjectID::untracked) {
-        obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};
-        m_storage.entries.push_back(obj.release());
+        m_storage.entries.push_back(obj.get());
+        obj.release();
+        obj->id = {static_cast<int>(m_storage.entries.size() - 1), m_collectionID};
       } else {
         throw std::invalid_argument("Object already in a collection. Cannot add it to a second collection");
       }
@@ -386,8 +388,9 @@ private:
   mutable bool m_isPrepared{false};
   bool m_isSubsetColl{false};
   uint32_t m_collectionID{0};
-  mutable std::unique_ptr<std::mutex> m_storageMtx{std::make_unique<std::mutex>()};
+  // The storage comes first, as moving from it can fail
   mutable CollectionDataT m_storage{};
+  mutable std::unique_ptr<std::mutex> m_storageMtx{std::make_unique<std::mutex>()};
 };
 
 template <typename FromT, typename ToT>
diff --git a/include/podio/detail/RelationIOHelpers.h b/include/podio/detail/RelationIOHelpers.h
index 8a51cec..9a871cd 100644
--- a/include/podio/detail/RelationIOHelpers.h
+++ b/include/podio/detail/RelationIOHelpers.h
@@ -10,6 +10,15 @@
 
 namespace podio::detail {
 
+/// Make sure that adding one more element to the vector does not need to
+/// allocate any memory, such that it can also not fail
+template <typename T>
+void reserveOneMore(std::vector<T>& vec) {
+  if (vec.size() == vec.capacity()) {
+    vec.reserve(vec.empty() ? 4 : 2 * vec.size());
+  }
+}
+
 /// Function template for handling interface types in OneToMultiRelations
 ///
 /// Effectively this function checks whether the passed collection can be
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index f3f76a5..1722d66 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -104,13 +104,11 @@ Mutable{{ class.bare_type }} {{ collection_type }}::create() {
     throw std::logic_error("Cannot create new elements on a subset collection");
   }
 
-  auto obj = m_storage.entries.emplace_back(new {{ class.bare_type }}Obj());
-{% if OneToManyRelations or VectorMembers %}
-  m_storage.createRelations(obj);
-{% endif %}
+  auto obj = std::make_unique<{{ class.bare_type }}Obj>();
+  m_storage.addEntry(obj.get());
 
   obj->id = {int(m_storage.entries.size() - 1), m_collectionID};
-  return Mutable{{ class.bare_type }}(podio::utils::MaybeSharedPtr(obj));
+  return Mutable{{ class.bare_type }}(podio::utils::MaybeSharedPtr(obj.release()));
 }
 
 void {{ collection_type }}::clear() {
@@ -154,11 +152,9 @@ void {{ collection_type }}::push_back(const Mutable{{ class.bare_type }}& object
   if (!m_isSubsetColl) {
     auto obj = object.m_obj;
     if (obj->id.index == podio::ObjectID::untracked) {
-      obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};
-      m_storage.entries.push_back(obj.release());
-{% if OneToManyRelations or VectorMembers %}
-      m_storage.createRelations(obj.get());
-{% endif %}
+      m_storage.addEntry(obj.get());
+      obj.release();
+      obj->id = {static_cast<int>(m_storage.entries.size() - 1), m_collectionID};
     } else {
       throw std::invalid_argument("Object already in a collection. Cannot add it to a second collection");
     }
diff --git a/python/templates/Collection.h.jinja2 b/python/templates/Collection.h.jinja2
index 7363176..a0b51f8 100644
--- a/python/templates/Collection.h.jinja2
+++ b/python/templates/Collection.h.jinja2
@@ -222,8 +222,9 @@ private:
   mutable bool m_isPrepared{false};
   bool m_isSubsetColl{false};
   uint32_t m_collectionID{static_cast<uint32_t>(podio::ObjectID::untracked)};
-  mutable std::unique_ptr<std::mutex> m_storageMtx{std::make_unique<std::mutex>()};
+  // The storage comes first, as moving from it can fail
   mutable {{ class.bare_type }}CollectionData m_storage{};
+  mutable std::unique_ptr<std::mutex> m_storageMtx{std::make_unique<std::mutex>()};
 };
 
 std::ostream& operator<<(std::ostream& o, const {{ class.bare_type }}Collection& v);
@@ -233,17 +234,18 @@ Mutable{{ class.bare_type }} {{ class.bare_type }}Collection::create(Args&&... a
   if (m_isSubsetColl) {
     throw std::logic_error("Cannot create new elements on a subset collection");
   }
-  auto obj = new {{ class.bare_type }}Obj({static_cast<int>(m_storage.entries.size()), m_collectionID}, {std::forward<Args>(args)...});
-  m_storage.entries.push_back(obj);
+  auto obj = std::make_unique<{{ class.bare_type }}Obj>(podio::ObjectID{}, {{ class.bare_type }}Data{std::forward<Args>(args)...});
 
 {% if OneToManyRelations or VectorMembers %}
   // Need to initialize the relation vectors manually for the {ObjectID, {{class.bare_type}}Data} constructor
 {% for relation in OneToManyRelations + VectorMembers %}
   obj->m_{{ relation.name }} = new std::vector<{{ relation.full_type }}>();
 {% endfor %}
-  m_storage.createRelations(obj);
 {% endif %}
-  return Mutable{{ class.bare_type }}(podio::utils::MaybeSharedPtr(obj));
+  m_storage.addEntry(obj.get());
+
+  obj->id = {static_cast<int>(m_storage.entries.size() - 1), m_collectionID};
+  return Mutable{{ class.bare_type }}(podio::utils::MaybeSharedPtr(obj.release()));
 }
 
 
diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index 3a0010e..1b817b3 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -179,7 +179,7 @@ const auto {{ member.name }}_size = std::accumulate(entries.begin(), entries.end
 void {{ class_type }}::prepareAfterRead(uint32_t collectionID) {
   int index = 0;
   for (const auto& data : *m_data) {
-    auto obj = new {{ class.bare_type }}Obj({index, collectionID}, data);
+    auto obj = std::make_unique<{{ class.bare_type }}Obj>(podio::ObjectID{index, collectionID}, data);
 
 {% for relation in OneToManyRelations %}
     obj->m_{{ relation.name }} = m_rel_{{ relation.name }}.get();
@@ -187,7 +187,8 @@ void {{ class_type }}::prepareAfterRead(uint32_t collectionID) {
 {% for member in VectorMembers %}
     obj->m_{{ member.name }} = m_vec_{{ member.name }}.get();
 {% endfor %}
-    entries.emplace_back(obj);
+    entries.push_back(obj.get());
+    obj.release();
     ++index;
   }
 
@@ -196,9 +197,18 @@ void {{ class_type }}::prepareAfterRead(uint32_t collectionID) {
 }
 
 
+void {{ class_type }}::addEntry({{ class.bare_type }}Obj* obj) {
 {% if OneToManyRelations or VectorMembers %}
-void {{ class_type }}::createRelations({{ class.bare_type }}Obj* obj) {
- {% for relation in OneToManyRelations %}
+  // Make room for everything first, such that taking ownership cannot fail
+{% for relation in OneToManyRelations %}
+  podio::detail::reserveOneMore(m_rel_{{ relation.name }}_tmp);
+{% endfor %}
+{% for member in VectorMembers %}
+  podio::detail::reserveOneMore(m_vecs_{{ member.name }});
+{% endfor %}
+{% endif %}
+  entries.push_back(obj);
+{% for relation in OneToManyRelations %}
   // We take ownership of these here
   m_rel_{{ relation.name }}_tmp.emplace_back(obj->m_{{ relation.name }});
 {% endfor %}
@@ -207,7 +217,6 @@ void {{ class_type }}::createRelations({{ class.bare_type }}Obj* obj) {
   m_vecs_{{ member.name }}.emplace_back(obj->m_{{ member.name }});
 {% endfor %}
 }
-{% endif %}
 
 bool {{ class_type }}::setReferences(const podio::ICollectionProvider* collectionProvider, bool isSubsetColl) {
   if (isSubsetColl) {
diff --git a/python/templates/CollectionData.h.jinja2 b/python/templates/CollectionData.h.jinja2
index 5585e92..bb9bc77 100644
--- a/python/templates/CollectionData.h.jinja2
+++ b/python/templates/CollectionData.h.jinja2
@@ -75,9 +75,11 @@ public:
 
   void makeSubsetCollection();
 
-{% if OneToManyRelations or VectorMembers %}
-  void createRelations({{ class.bare_type }}Obj* obj);
-{% endif %}
+  /**
+   * Add an Obj that is not part of any collection yet, and take ownership of it
+   * and of its relations. If this throws nothing has changed
+   */
+  void addEntry({{ class.bare_type }}Obj* obj);
 
   bool setReferences(const podio::ICollectionProvider* collectionProvider, bool isSubsetColl);
 
-- 
2.43.0


From f88c501f62fdbddb06599f5a74744bd890db64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 13/40] fix: report collections that a Frame does not have when
 writing SIO files

---
 src/SIOWriter.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SIOWriter.cc b/src/SIOWriter.cc
index 87e50e6..ad50188 100644
--- a/src/SIOWriter.cc
+++ b/src/SIOWriter.cc
@@ -6,6 +6,7 @@
 #include "sioUtils.h"
 
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 namespace podio {
@@ -37,7 +38,13 @@ void SIOWriter::writeFrame(const podio::Frame& frame, std::string_view category,
   std::vector<sio_utils::StoreCollection> collections;
   collections.reserve(collsToWrite.size());
   for (const auto& name : collsToWrite) {
-    collections.emplace_back(name, frame.getCollectionForWrite(name));
+    const auto* coll = frame.getCollectionForWrite(name);
+    if (!coll) {
+      // Make sure all collections that we want to write are actually available
+      throw std::runtime_error("Collection '" + name + "' in category '" + std::string(category) +
+                               "' is not available in Frame");
+    }
+    collections.emplace_back(name, coll);
     m_datamodelCollector.registerDatamodelDefinition(collections.back().second, name);
   }
 
-- 
2.43.0


From 63ae4651c9a828521f5d960da15a2c21a032e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 14/40] fix: list an entry of an SIO file only after it has
 been written completely

---
 src/SIOWriter.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SIOWriter.cc b/src/SIOWriter.cc
index ad50188..255bd29 100644
--- a/src/SIOWriter.cc
+++ b/src/SIOWriter.cc
@@ -54,10 +54,13 @@ void SIOWriter::writeFrame(const podio::Frame& frame, std::string_view category,
   const std::string catStr(category);
   sio::block_list tableBlocks;
   tableBlocks.emplace_back(sio_utils::createCollIDBlock(collections, frame.getCollectionIDTableForWrite()));
-  m_tocRecord.addRecord(catStr, sio_utils::writeRecord(tableBlocks, catStr + "_HEADER", m_stream));
-
   const auto blocks = sio_utils::createBlocks(collections, frame.getParameters());
+
+  const auto startPos = sio_utils::writeRecord(tableBlocks, catStr + "_HEADER", m_stream);
   sio_utils::writeRecord(blocks, catStr, m_stream);
+
+  // Only add this to the table of contents once everything has been written
+  m_tocRecord.addRecord(catStr, startPos);
 }
 
 void SIOWriter::finish() {
-- 
2.43.0


From 1c7cd3ffbb23fa1ada75e547e82507b2c43f6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 15/40] fix: report errors when finishing an SIO file, but not
 from the destructor

---
 src/SIOWriter.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/SIOWriter.cc b/src/SIOWriter.cc
index 255bd29..32fd16a 100644
--- a/src/SIOWriter.cc
+++ b/src/SIOWriter.cc
@@ -5,6 +5,7 @@
 #include "podio/utilities/DatamodelRegistryIOHelpers.h"
 #include "sioUtils.h"
 
+#include <iostream>
 #include <memory>
 #include <stdexcept>
 #include <string>
@@ -26,7 +27,12 @@ SIOWriter::SIOWriter(const std::string& filename) {
 }
 
 SIOWriter::~SIOWriter() {
-  finish();
+  try {
+    finish();
+  } catch (const std::exception& ex) {
+    // Destructors must not throw. Call finish explicitly to handle errors
+    std::cerr << "ERROR while finishing SIO file: " << ex.what() << std::endl;
+  }
 }
 
 void SIOWriter::writeFrame(const podio::Frame& frame, std::string_view category) {
@@ -98,7 +104,11 @@ void SIOWriter::finish() {
   uint64_t finalWords = (((uint64_t)sio_helpers::SIOTocMarker) << 32) | ((uint64_t)tocStartPos & 0xffffffff);
   m_stream.write(reinterpret_cast<char*>(&finalWords), sizeof(finalWords));
 
+  // Closing also writes everything that is still buffered
   m_stream.close();
+  if (!m_stream) {
+    throw std::runtime_error("Could not write all data when finishing the SIO file");
+  }
 }
 
 } // namespace podio
-- 
2.43.0


From 530a43ab90a3c699959c67dbf1aa5681606ae312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 16/40] fix: do not hand out SIO buffers that could not be
 unpacked

---
 src/SIOFrameData.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/SIOFrameData.cc b/src/SIOFrameData.cc
index 06bf0c9..8a288b5 100644
--- a/src/SIOFrameData.cc
+++ b/src/SIOFrameData.cc
@@ -78,12 +78,19 @@ void SIOFrameData::unpackBuffers() {
     return;
   }
 
-  createBlocks();
-
   sio::zlib_compression compressor;
   sio::buffer uncBuffer{m_dataSize};
   compressor.uncompress(m_recBuffer.span(), uncBuffer);
-  sio::api::read_blocks(uncBuffer.span(), m_blocks);
+
+  try {
+    createBlocks();
+    sio::api::read_blocks(uncBuffer.span(), m_blocks);
+  } catch (...) {
+    // Do not pretend to have unpacked anything
+    m_blocks.clear();
+    m_availableBlocks.clear();
+    throw;
+  }
 
   if (m_limitColls.empty()) {
     return;
-- 
2.43.0


From fe6209b7d4c0ce63d7e1c57c0ed6db7db7784400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 17/40] fix: forget the previous file when opening another one
 with an SIOReader

---
 src/SIOReader.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/SIOReader.cc b/src/SIOReader.cc
index cac3d3a..c8bc38e 100644
--- a/src/SIOReader.cc
+++ b/src/SIOReader.cc
@@ -15,6 +15,17 @@ SIOReader::SIOReader() {
 }
 
 void SIOReader::openFile(const std::string& filename) {
+  // Start from a clean slate in case another file has been opened before
+  if (m_stream.is_open()) {
+    m_stream.close();
+  }
+  m_stream.clear();
+  m_nameCtr.clear();
+  m_tocRecord = {};
+  m_availableCategories.clear();
+  m_fileVersion = {};
+  m_datamodelHolder = {};
+
   m_stream.open(filename, std::ios::binary);
   if (!m_stream.is_open()) {
     throw std::runtime_error("File " + filename + " couldn't be opened");
@@ -25,7 +36,6 @@ void SIOReader::openFile(const std::string& filename) {
   // Filter the available records from the TOC to remove records that are
   // stored, but use reserved record names for podio meta data
   const auto recordNames = m_tocRecord.getRecordNames();
-  m_availableCategories.clear();
   m_availableCategories.reserve(recordNames.size());
   for (const auto recordName : recordNames) {
     if (recordName != sio_helpers::SIOEDMDefinitionName) {
-- 
2.43.0


From bb610191d0f8cf7cb9d91bbb78a3697dc6f2a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 18/40] fix: report types without SIO block instead of using a
 null block

---
 src/SIOFrameData.cc | 6 ++++++
 src/sioUtils.h      | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/SIOFrameData.cc b/src/SIOFrameData.cc
index 8a288b5..ef53745 100644
--- a/src/SIOFrameData.cc
+++ b/src/SIOFrameData.cc
@@ -5,6 +5,8 @@
 
 #include <algorithm>
 #include <iterator>
+#include <stdexcept>
+#include <string>
 
 namespace podio {
 
@@ -117,6 +119,10 @@ void SIOFrameData::createBlocks() {
   for (size_t i = 0; i < m_typeNames.size(); ++i) {
     const bool subsetColl = !m_subsetCollectionBits.empty() && m_subsetCollectionBits[i];
     auto blk = podio::SIOBlockFactory::instance().createBlock(m_typeNames[i], m_idTable.names()[i], subsetColl);
+    if (!blk) {
+      throw std::runtime_error("No SIOBlock available for reading collection '" + m_idTable.names()[i] +
+                               "' with elements of type '" + m_typeNames[i] + "'");
+    }
     m_blocks.push_back(blk);
   }
 
diff --git a/src/sioUtils.h b/src/sioUtils.h
index 352a338..05eb0e1 100644
--- a/src/sioUtils.h
+++ b/src/sioUtils.h
@@ -9,6 +9,8 @@
 #include <sio/compression/zlib.h>
 #include <sio/definitions.h>
 
+#include <stdexcept>
+#include <string>
 #include <string_view>
 #include <utility>
 
@@ -72,7 +74,12 @@ namespace sio_utils {
     blocks.emplace_back(std::move(paramBlock));
 
     for (const auto& [name, col] : collections) {
-      blocks.emplace_back(podio::SIOBlockFactory::instance().createBlock(col, name));
+      auto block = podio::SIOBlockFactory::instance().createBlock(col, name);
+      if (!block) {
+        throw std::runtime_error("No SIOBlock available for writing collection '" + name + "' with elements of type '" +
+                                 std::string(col->getValueTypeName()) + "'");
+      }
+      blocks.emplace_back(std::move(block));
     }
 
     return blocks;
-- 
2.43.0


From e90f57d2f03afe2f2ead88013c1013addd2ae414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 19/40] fix: let several threads get the write buffers of a
 collection

---
 include/podio/UserDataCollection.h        | 25 ++++++++++++++++-------
 python/templates/Collection.cc.jinja2     |  1 +
 python/templates/CollectionData.cc.jinja2 |  7 +++++--
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/podio/UserDataCollection.h b/include/podio/UserDataCollection.h
index 361bb00..c03960f 100644
--- a/include/podio/UserDataCollection.h
+++ b/include/podio/UserDataCollection.h
@@ -67,10 +67,9 @@ class UserDataCollection : public CollectionBase {
 
 private:
   std::vector<BasicType> _vec{};
-  // Pointer to the actual storage, necessary for I/O. In order to have
-  // simpler move-semantics this will be set and properly initialized on
-  // demand during the call to getBuffers
-  std::vector<BasicType>* _vecPtr{nullptr};
+  // Pointer to the actual storage, necessary for I/O. This always points to the
+  // vector of this collection, so that several threads can get the buffers
+  std::vector<BasicType>* _vecPtr{&_vec};
   uint32_t m_collectionID{0};
   CollRefCollection m_refCollections{};
   VectorMembersInfo m_vecmem_info{};
@@ -91,8 +90,21 @@ public:
   }
   UserDataCollection(const UserDataCollection&) = delete;
   UserDataCollection& operator=(const UserDataCollection&) = delete;
-  UserDataCollection(UserDataCollection&&) = default;
-  UserDataCollection& operator=(UserDataCollection&&) = default;
+  UserDataCollection(UserDataCollection&& other) noexcept :
+      CollectionBase(std::move(other)),
+      _vec(std::move(other._vec)),
+      m_collectionID(other.m_collectionID),
+      m_refCollections(std::move(other.m_refCollections)),
+      m_vecmem_info(std::move(other.m_vecmem_info)) {
+  }
+  UserDataCollection& operator=(UserDataCollection&& other) noexcept {
+    CollectionBase::operator=(std::move(other));
+    _vec = std::move(other._vec);
+    m_collectionID = other.m_collectionID;
+    m_refCollections = std::move(other.m_refCollections);
+    m_vecmem_info = std::move(other.m_vecmem_info);
+    return *this;
+  }
   ~UserDataCollection() override = default;
 #if defined(__cpp_lib_containers_ranges)
   /// Constructor to enable construction via std::ranges::to. See @ref from
@@ -147,7 +159,6 @@ public:
 
   /// Get the collection buffers for this collection
   podio::CollectionWriteBuffers getBuffers() override {
-    _vecPtr = &_vec; // Set the pointer to the correct internal vector
     return {&_vecPtr, _vecPtr, &m_refCollections, &m_vecmem_info};
   }
 
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 1722d66..80e824e 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -177,6 +177,7 @@ void {{ collection_type }}::push_back(const {{ class.bare_type }}& object) {
 }
 
 podio::CollectionWriteBuffers {{ collection_type }}::getBuffers() {
+  std::lock_guard lock{*m_storageMtx};
   return m_storage.getCollectionBuffers(m_isSubsetColl);
 }
 
diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index 1b817b3..e0484bb 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -114,9 +114,12 @@ podio::CollectionWriteBuffers {{ class_type }}::getCollectionBuffers(bool isSubs
 {% if VectorMembers %}
   if (!isSubsetColl) {
     // Make sure these point to the right place, even if a collection has been
-    // moved since it has been created
+    // moved since it has been created. Leave them alone if they already do,
+    // because somebody else might be using them
 {% for member in VectorMembers %}
-    m_vecmem_info[{{ loop.index0 }}].second = &m_vec_{{ member.name }};
+    if (m_vecmem_info[{{ loop.index0 }}].second != &m_vec_{{ member.name }}) {
+      m_vecmem_info[{{ loop.index0 }}].second = &m_vec_{{ member.name }};
+    }
 {% endfor %}
   }
 {% endif -%}
-- 
2.43.0


From 429c849dedeb116d250b009036f54fa7ed5b129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 20/40] fix: report collections in SIO files that have a newer
 schema version

Reading a block whose schema version the buffer factory does not know ended
in a null pointer dereference, because default constructed buffers were used
instead.
---
 python/templates/SIOBlock.cc.jinja2 | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/templates/SIOBlock.cc.jinja2 b/python/templates/SIOBlock.cc.jinja2
index fcbb072..086318f 100644
--- a/python/templates/SIOBlock.cc.jinja2
+++ b/python/templates/SIOBlock.cc.jinja2
@@ -12,15 +12,19 @@
 #include <sio/io_device.h>
 #include <sio/version.h>
 
+#include <stdexcept>
+#include <string>
+
 {{ utils.namespace_open(class.namespace) }}
 {% with block_class = class.bare_type + 'SIOBlock' %}
 
 void {{ block_class }}::read(sio::read_device& device, sio::version_type version) {
   const auto& bufferFactory = podio::CollectionBufferFactory::instance();
-  // TODO:
-  // - Error handling of empty optional
   auto maybeBuffers = bufferFactory.createBuffers("{{ class.full_type }}Collection", sio::version::major_version(version), m_subsetColl);
-  m_readBuffers = std::move(maybeBuffers).value_or(podio::CollectionReadBuffers{});
+  if (!maybeBuffers) {
+    throw std::runtime_error("No buffers available for reading collection '" + name() + "' of type '{{ class.full_type }}Collection' with schema version " + std::to_string(sio::version::major_version(version)));
+  }
+  m_readBuffers = std::move(maybeBuffers.value());
 
   if (not m_subsetColl) {
     unsigned size(0);
-- 
2.43.0


From 0b37e63ddc7bbc8838fa47ef9b2a82722341eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 21/40] fix: do not look up an evolution function for schema
 version 0

The index of the function is the version minus one, so version 0 (the default
of CollectionReadBuffers) accessed memory before the begin of the vector.
It is now treated like any other version without evolution function.
---
 src/SchemaEvolution.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index 3cc94e6..7bca49a 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -24,7 +24,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     }
 
     const auto& typeEvolFuncs = m_evolutionFuncs[mapIndex];
-    if (fromVersion < typeEvolFuncs.size()) {
+    if (fromVersion > 0 && fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
       return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
-- 
2.43.0


From e188a326b9b46185978934e91cb0d58c961ee779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:54 +0000
Subject: [PATCH 22/40] fix: let an SIOLegacyReader open another file and go
 back after the end

Opening another file with the same reader went on with the first file without
any error, and once the end of the file had been reached, readEntry did not
find any entry any more.
---
 src/SIOLegacyReader.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/SIOLegacyReader.cc b/src/SIOLegacyReader.cc
index 8d857c9..434430b 100644
--- a/src/SIOLegacyReader.cc
+++ b/src/SIOLegacyReader.cc
@@ -13,6 +13,14 @@ SIOLegacyReader::SIOLegacyReader() {
 }
 
 void SIOLegacyReader::openFile(const std::string& filename) {
+  // Start from a clean slate in case another file has been opened before
+  if (m_stream.is_open()) {
+    m_stream.close();
+  }
+  m_stream.clear();
+  m_tocRecord = {};
+  m_eventNumber = 0;
+
   m_stream.open(filename, std::ios::binary);
   if (!m_stream.is_open()) {
     throw std::runtime_error("File " + filename + " couldn't be opened");
@@ -61,6 +69,8 @@ std::unique_ptr<podio::SIOFrameData> SIOLegacyReader::readEntry(std::string_view
   if (recordPos == 0) {
     return nullptr;
   }
+  // Having read until the end before should not prevent us from going back
+  m_stream.clear();
   m_stream.seekg(recordPos);
 
   return readNextEntry(name);
-- 
2.43.0


From 0b2fe1841a85b175cee48917d21966da936ff5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 23/40] fix: let an SIOReader go on after a failure to read

After reading an entry had failed once, the stream stayed in a bad state and
no other entry of the file could be read any more.
---
 src/SIOReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SIOReader.cc b/src/SIOReader.cc
index c8bc38e..71486c3 100644
--- a/src/SIOReader.cc
+++ b/src/SIOReader.cc
@@ -58,6 +58,8 @@ std::unique_ptr<SIOFrameData> SIOReader::readNextEntry(std::string_view name,
   if (recordPos == 0) {
     return nullptr;
   }
+  // A previous failure to read should not affect the reading of this entry
+  m_stream.clear();
   m_stream.seekg(recordPos);
 
   auto [tableBuffer, tableInfo] = sio_utils::readRecord(m_stream, false);
-- 
2.43.0


From 723f072070d00bb92039e7c528d30130045c3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 24/40] fix: replace generated files that are not valid UTF-8

---
 python/podio_gen/generator_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_base.py b/python/podio_gen/generator_base.py
index e70b5fc..b9412f5 100644
--- a/python/podio_gen/generator_base.py
+++ b/python/podio_gen/generator_base.py
@@ -42,7 +42,8 @@ def write_file_if_changed(filename, content, force_write=False):
         with open(filename, "r", encoding="utf-8") as infile:
             existing_content = infile.read()
             changed = existing_content != content
-    except FileNotFoundError:
+    except (FileNotFoundError, UnicodeDecodeError):
+        # Also replace what is no text at all, e.g. after an interrupted run
         changed = True
 
     if changed or force_write:
-- 
2.43.0


From eff49c4cba23910e3a39f589821260890e91e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 25/40] fix: list dropped components in an order that does not
 depend on the hash seed

---
 python/podio_gen/cpp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 01c2b65..fdd05de 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -616,7 +616,7 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         previous_components = set(self.old_components.keys())
         dropped_components = previous_components.difference(current_components)
 
-        for name in dropped_components:
+        for name in sorted(dropped_components):
             comps = sorted(self.old_components[name], key=lambda x: x["version"], reverse=True)
             most_recent_comp = comps[0]["definition"]
             most_recent_comp["class"] = DataType(name)
-- 
2.43.0


From d18142b4a111131bcbed94aeb5208133ce033ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 26/40] fix: order the includes of Julia modules independently
 of the hash seed

---
 python/podio_gen/julia_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/julia_generator.py b/python/podio_gen/julia_generator.py
index e96ceb0..e706ee1 100644
--- a/python/podio_gen/julia_generator.py
+++ b/python/podio_gen/julia_generator.py
@@ -131,7 +131,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
         # Perform topological sorting using Kahn's algorithm
         sorted_components = []
         while dependencies:
-            ready = {component for component, deps in dependencies.items() if not deps}
+            ready = [component for component, deps in dependencies.items() if not deps]
             if not ready:
                 sorted_components.extend(
                     bare_types_mapping[component] for component in dependencies
@@ -143,7 +143,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
                 sorted_components.append(bare_types_mapping[component])
 
             for deps in dependencies.values():
-                deps -= ready
+                deps.difference_update(ready)
 
         # Return the Sorted Components (bare_types)
         return sorted_components
-- 
2.43.0


From 5fd3c2411f32c460359ae4762943d65be2b0c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 27/40] fix: do not write what a failing clang-format left of
 generated code

---
 python/podio_class_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/podio_class_generator.py b/python/podio_class_generator.py
index 7b082dd..81168be 100755
--- a/python/podio_class_generator.py
+++ b/python/podio_class_generator.py
@@ -45,7 +45,10 @@ def clang_format_file(content, name):
 
     clang_format = ["clang-format", "-style=file", "-fallback-style=llvm"]
     with subprocess.Popen(clang_format, stdin=subprocess.PIPE, stdout=subprocess.PIPE) as cfproc:
-        return cfproc.communicate(input=content.encode())[0].decode()
+        formatted = cfproc.communicate(input=content.encode())[0]
+    if cfproc.returncode != 0:
+        raise subprocess.CalledProcessError(cfproc.returncode, clang_format)
+    return formatted.decode()
 
 
 def read_upstream_edm(name_path):
-- 
2.43.0


From c43217b38ff2a424daf0acc050f6d0d2fde93088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 28/40] fix: leave the list of generated files alone in dry
 runs

---
 python/podio_gen/cpp_generator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index fdd05de..1037278 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -898,11 +898,12 @@ have resolvable schema evolution incompatibilities:"
             )
         )
 
-        write_file_if_changed(
-            f"{self.install_dir}/podio_generated_files.cmake",
-            "\n".join(full_contents),
-            self.any_changes,
-        )
+        if not self.dryrun:
+            write_file_if_changed(
+                f"{self.install_dir}/podio_generated_files.cmake",
+                "\n".join(full_contents),
+                self.any_changes,
+            )
 
     def _write_all_collections_header(self):
         """Write a header file that includes all collection headers"""
-- 
2.43.0


From 2e155c3b058efef2e0e1c9073f5b8dae152d4d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 29/40] fix: do not take generated files with other line ends
 for unchanged

---
 python/podio_gen/generator_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/generator_base.py b/python/podio_gen/generator_base.py
index b9412f5..bb9441a 100644
--- a/python/podio_gen/generator_base.py
+++ b/python/podio_gen/generator_base.py
@@ -39,7 +39,7 @@ def write_file_if_changed(filename, content, force_write=False):
     """Write the file contents only if it has changed or if the file does not exist
     yet. Return whether the file has been written or not"""
     try:
-        with open(filename, "r", encoding="utf-8") as infile:
+        with open(filename, "r", encoding="utf-8", newline="") as infile:
             existing_content = infile.read()
             changed = existing_content != content
     except (FileNotFoundError, UnicodeDecodeError):
@@ -47,7 +47,7 @@ def write_file_if_changed(filename, content, force_write=False):
         changed = True
 
     if changed or force_write:
-        with open(filename, "w", encoding="utf-8") as outfile:
+        with open(filename, "w", encoding="utf-8", newline="") as outfile:
             outfile.write(content)
         return True
 
-- 
2.43.0


From 7a80ef1ffba149e243818bc10454a18cb1107b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 30/40] fix: do not let an entry number wrap around in
 Reader::readFrame

---
 include/podio/Reader.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/podio/Reader.h b/include/podio/Reader.h
index 7d1f458..68e023c 100644
--- a/include/podio/Reader.h
+++ b/include/podio/Reader.h
@@ -5,6 +5,8 @@
 #include "podio/podioVersion.h"
 #include "podio/utilities/ReaderUtils.h"
 
+#include <limits>
+
 namespace podio {
 
 /// Generic (type erased) reader class that can handle different I/O backends
@@ -55,9 +57,13 @@ private:
     }
 
     podio::Frame readFrame(std::string_view name, size_t index, const std::vector<std::string>& collsToRead) override {
-      auto maybeFrame = m_reader->readEntry(name, index, collsToRead);
-      if (maybeFrame) {
-        return maybeFrame;
+      // The low level readers take an unsigned index; make sure that larger ones
+      // do not wrap around to an existing entry
+      if (index <= std::numeric_limits<unsigned>::max()) {
+        auto maybeFrame = m_reader->readEntry(name, index, collsToRead);
+        if (maybeFrame) {
+          return maybeFrame;
+        }
       }
       throw std::runtime_error("Failed reading category " + std::string(name) + " at frame " + std::to_string(index) +
                                " (reading beyond bounds?)");
-- 
2.43.0


From c8976325fdd7daf3fe36bb7a414534fd11539051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 31/40] fix: let the file suffix decide about the backend in
 makeWriter

---
 src/Writer.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Writer.cc b/src/Writer.cc
index 84bd82a..b197696 100644
--- a/src/Writer.cc
+++ b/src/Writer.cc
@@ -32,14 +32,17 @@ Writer makeWriter(const std::string& filename, const std::string& type) {
     defaultTypeRNTuple = true;
   }
 
-  if ((type == "default" && !defaultTypeRNTuple && endsWith(filename, ".root")) || lower(type) == "root") {
-    return Writer{std::make_unique<ROOTWriter>(filename)};
-  } else if ((type == "default" && defaultTypeRNTuple && endsWith(filename, ".root")) || lower(type) == "rntuple") {
+  // The suffix decides first, the type only picks one of the ROOT based backends
+  if (endsWith(filename, ".root")) {
+    if ((type == "default" && !defaultTypeRNTuple) || lower(type) == "root") {
+      return Writer{std::make_unique<ROOTWriter>(filename)};
+    } else if ((type == "default" && defaultTypeRNTuple) || lower(type) == "rntuple") {
 #if PODIO_ENABLE_RNTUPLE
-    return Writer{std::make_unique<RNTupleWriter>(filename)};
+      return Writer{std::make_unique<RNTupleWriter>(filename)};
 #else
-    throw std::runtime_error("ROOT RNTuple writer not available. Please recompile with ROOT RNTuple support.");
+      throw std::runtime_error("ROOT RNTuple writer not available. Please recompile with ROOT RNTuple support.");
 #endif
+    }
   } else if (endsWith(filename, ".sio")) {
 #if PODIO_ENABLE_SIO
     return Writer{std::make_unique<SIOWriter>(filename)};
-- 
2.43.0


From 2c8ac27c2207a556390c38d4d2bb8c5c5b3fd562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 32/40] fix: leave a collection as it was if turning it into a
 subset collection runs out of memory

---
 include/podio/detail/LinkCollectionData.h | 10 ++++++----
 python/templates/CollectionData.cc.jinja2 | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/podio/detail/LinkCollectionData.h b/include/podio/detail/LinkCollectionData.h
index 2e659b0..b93b383 100644
--- a/include/podio/detail/LinkCollectionData.h
+++ b/include/podio/detail/LinkCollectionData.h
@@ -182,16 +182,18 @@ public:
   }
 
   void makeSubsetCollection() {
+    // Subset collections need one vector of ObjectIDs for I/O purposes. Get it
+    // first, so that nothing has changed yet if there is no memory for it
+    auto refs = std::make_unique<std::vector<podio::ObjectID>>();
+    m_refCollections.resize(1);
+    m_refCollections[0] = std::move(refs);
+
     // Subset collections do not need all the data buffers that normal
     // collections need, so we can free them here
     m_data.reset(nullptr);
 
     m_rel_from.reset(nullptr);
     m_rel_to.reset(nullptr);
-
-    // Subset collections need one vector of ObjectIDs for I/O purposes.
-    m_refCollections.resize(1);
-    m_refCollections[0] = std::make_unique<std::vector<podio::ObjectID>>();
   }
 
 private:
diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index e0484bb..3f9c6ce 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -242,6 +242,12 @@ bool {{ class_type }}::setReferences(const podio::ICollectionProvider* collectio
 }
 
 void {{ class_type }}::makeSubsetCollection() {
+  // Subset collections need one vector of ObjectIDs for I/O purposes. Get it
+  // first, so that nothing has changed yet if there is no memory for it
+  auto refs = std::make_unique<std::vector<podio::ObjectID>>();
+  m_refCollections.resize(1);
+  m_refCollections[0] = std::move(refs);
+
   // Subset collections do not need all the data buffers that normal
   // collections need, so we can free them here
   m_vecmem_info.clear();
@@ -254,10 +260,6 @@ void {{ class_type }}::makeSubsetCollection() {
 {% for member in VectorMembers %}
   m_vec_{{ member.name }}.reset(nullptr);
 {% endfor %}
-
-  // Subset collections need one vector of ObjectIDs for I/O purposes.
-  m_refCollections.resize(1);
-  m_refCollections[0] = std::make_unique<std::vector<podio::ObjectID>>();
 }
 
 {% endwith %}
-- 
2.43.0


From a4f311f2594235e3ba726ba335dfa9027a1d9dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 33/40] fix: write a collection only once if it is selected
 twice for an SIO file

---
 src/SIOWriter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SIOWriter.cc b/src/SIOWriter.cc
index 32fd16a..a7f646a 100644
--- a/src/SIOWriter.cc
+++ b/src/SIOWriter.cc
@@ -5,6 +5,7 @@
 #include "podio/utilities/DatamodelRegistryIOHelpers.h"
 #include "sioUtils.h"
 
+#include <algorithm>
 #include <iostream>
 #include <memory>
 #include <stdexcept>
@@ -44,6 +45,10 @@ void SIOWriter::writeFrame(const podio::Frame& frame, std::string_view category,
   std::vector<sio_utils::StoreCollection> collections;
   collections.reserve(collsToWrite.size());
   for (const auto& name : collsToWrite) {
+    // Write every collection only once, even if it is listed several times
+    if (std::ranges::any_of(collections, [&name](const auto& c) { return c.first == name; })) {
+      continue;
+    }
     const auto* coll = frame.getCollectionForWrite(name);
     if (!coll) {
       // Make sure all collections that we want to write are actually available
-- 
2.43.0


From 8098ffdef49bb6f8b82008d9214f460bbbe46539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 34/40] fix: make the stream operator of Links usable

The template parameters of an alias template cannot be deduced, so the operator was never found.
---
 include/podio/detail/Link.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/Link.h b/include/podio/detail/Link.h
index 65dfaa3..2c5fc1b 100644
--- a/include/podio/detail/Link.h
+++ b/include/podio/detail/Link.h
@@ -349,8 +349,8 @@ private:
   podio::utils::MaybeSharedPtr<LinkObjT> m_obj{nullptr};
 };
 
-template <typename FromT, typename ToT>
-std::ostream& operator<<(std::ostream& os, const Link<FromT, ToT>& link) {
+template <typename FromT, typename ToT, bool Mutable>
+std::ostream& operator<<(std::ostream& os, const LinkT<FromT, ToT, Mutable>& link) {
   if (!link.isAvailable()) {
     return os << "[not available]";
   }
-- 
2.43.0


From 7b337a862aa4700ed9e25bec1abb32a7744361ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 35/40] fix: print subset collections with elements that are
 not available

Reading the members of such elements used a null pointer.
---
 include/podio/detail/LinkCollectionImpl.h  | 5 +++++
 python/templates/macros/collections.jinja2 | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index f6c80c5..969807d 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -398,6 +398,11 @@ std::ostream& operator<<(std::ostream& o, const LinkCollection<FromT, ToT>& v) {
   const auto old_flags = o.flags();
   o << "          id:      weight:" << '\n';
   for (const auto&& el : v) {
+    if (!el.isAvailable()) {
+      // Elements of a subset collection can come from a collection that is not available
+      o << std::setw(12) << el.id() << " [not available]" << std::endl;
+      continue;
+    }
     o << std::scientific << std::showpos << std::setw(12) << el.id() << " " << std::setw(12) << " " << el.getWeight()
       << '\n';
 
diff --git a/python/templates/macros/collections.jinja2 b/python/templates/macros/collections.jinja2
index 87a72dc..a6fc6bd 100644
--- a/python/templates/macros/collections.jinja2
+++ b/python/templates/macros/collections.jinja2
@@ -107,6 +107,11 @@ std::ostream& operator<<(std::ostream& o, const {{ class.bare_type }}Collection&
 {%- endfor -%}" << '\n';
 
   for (const auto&& el : v) {
+    if (!el.isAvailable()) {
+      // Elements of a subset collection can come from a collection that is not available
+      o << std::setw({{ col_width }}) << el.id() << " [not available]" << std::endl;
+      continue;
+    }
     o << std::scientific << std::showpos << std::setw({{ col_width }}) << el.id() << " "
 {% for member in members %}
 {% if not member.is_array %}
-- 
2.43.0


From 8859bc522ac44a5aee331cc4821318c7166227a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 36/40] fix: do not finish SIO files whose positions do not fit
 the table of contents

Positions of records beyond 4 GB were cut to 32 bits without any notice, leaving
a file that is finished but cannot be read. Throw instead.
---
 src/SIOWriter.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/SIOWriter.cc b/src/SIOWriter.cc
index a7f646a..5236d77 100644
--- a/src/SIOWriter.cc
+++ b/src/SIOWriter.cc
@@ -6,13 +6,27 @@
 #include "sioUtils.h"
 
 #include <algorithm>
+#include <cstdint>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <stdexcept>
 #include <string>
 
 namespace podio {
 
+namespace {
+  /// The table of contents stores positions in 32 bits. Make sure to not silently
+  /// produce files that can no longer be read if they become too large for that
+  SIOFileTOCRecord::PositionType toTOCPosition(const sio::ifstream::pos_type pos) {
+    const auto offset = static_cast<std::uint64_t>(static_cast<std::streamoff>(pos));
+    if (offset > std::numeric_limits<SIOFileTOCRecord::PositionType>::max()) {
+      throw std::runtime_error("SIO files larger than 4 GB are not supported");
+    }
+    return static_cast<SIOFileTOCRecord::PositionType>(offset);
+  }
+} // namespace
+
 SIOWriter::SIOWriter(const std::string& filename) {
   m_stream.open(filename, std::ios::binary);
   if (!m_stream.is_open()) {
@@ -71,7 +85,7 @@ void SIOWriter::writeFrame(const podio::Frame& frame, std::string_view category,
   sio_utils::writeRecord(blocks, catStr, m_stream);
 
   // Only add this to the table of contents once everything has been written
-  m_tocRecord.addRecord(catStr, startPos);
+  m_tocRecord.addRecord(catStr, toTOCPosition(startPos));
 }
 
 void SIOWriter::finish() {
@@ -96,17 +110,18 @@ void SIOWriter::finish() {
       std::make_shared<podio::SIOMapBlock<std::string, podio::version::Version>>(std::move(edmVersions));
   blocks.push_back(edmVersionMap);
 
-  m_tocRecord.addRecord(sio_helpers::SIOEDMDefinitionName, sio_utils::writeRecord(blocks, "EDMDefinitions", m_stream));
+  m_tocRecord.addRecord(sio_helpers::SIOEDMDefinitionName,
+                        toTOCPosition(sio_utils::writeRecord(blocks, "EDMDefinitions", m_stream)));
 
   blocks.clear();
   blocks.emplace_back(std::make_shared<SIOFileTOCRecordBlock>(&m_tocRecord));
 
-  auto tocStartPos = sio_utils::writeRecord(blocks, sio_helpers::SIOTocRecordName, m_stream);
+  const auto tocStartPos = toTOCPosition(sio_utils::writeRecord(blocks, sio_helpers::SIOTocRecordName, m_stream));
 
   // Now that we know the position of the TOC Record, put this information
   // into a final marker that can be identified and interpreted when reading
   // again
-  uint64_t finalWords = (((uint64_t)sio_helpers::SIOTocMarker) << 32) | ((uint64_t)tocStartPos & 0xffffffff);
+  uint64_t finalWords = (((uint64_t)sio_helpers::SIOTocMarker) << 32) | tocStartPos;
   m_stream.write(reinterpret_cast<char*>(&finalWords), sizeof(finalWords));
 
   // Closing also writes everything that is still buffered
-- 
2.43.0


From 90bccc55c3ba7e196993d26318c903d4597a30fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 37/40] fix: convert objects and links that are not available
 to JSON

Reading their members used a null pointer. Give null for them instead, in the same
way as printing them gives [not available].
---
 include/podio/detail/Link.h                    | 5 +++++
 python/templates/macros/implementations.jinja2 | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/podio/detail/Link.h b/include/podio/detail/Link.h
index 2c5fc1b..7cc08f1 100644
--- a/include/podio/detail/Link.h
+++ b/include/podio/detail/Link.h
@@ -364,6 +364,11 @@ std::ostream& operator<<(std::ostream& os, const LinkT<FromT, ToT, Mutable>& lin
 #if defined(PODIO_JSON_OUTPUT) && !defined(__CLING__)
 template <typename FromT, typename ToT>
 void to_json(nlohmann::json& j, const podio::LinkT<FromT, ToT, false>& link) {
+  if (!link.isAvailable()) {
+    j = nullptr;
+    return;
+  }
+
   j = nlohmann::json{{"weight", link.getWeight()}};
 
   j["from"] = nlohmann::json{{"collectionID", link.getFrom().getObjectID().collectionID},
diff --git a/python/templates/macros/implementations.jinja2 b/python/templates/macros/implementations.jinja2
index 584d3aa..418fde9 100644
--- a/python/templates/macros/implementations.jinja2
+++ b/python/templates/macros/implementations.jinja2
@@ -230,6 +230,11 @@ std::ostream& operator<<(std::ostream& o, const {{ type }}& value) {
 {% macro json_output(class, members, single_relations, multi_relations, vector_members, get_syntax, prefix='') %}
 #if defined(PODIO_JSON_OUTPUT) && !defined(__CLING__)
 void to_json(nlohmann::json& j, const {{ prefix }}{{ class.bare_type }}& value) {
+  if (!value.isAvailable()) {
+    j = nullptr;
+    return;
+  }
+
   j = nlohmann::json{
 {% set comma = joiner(",") %}
 {% for member in members %}
-- 
2.43.0


From 315801acb8a51e5665bb50a64366508fd700b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 38/40] fix: do not take SIO files whose end could not be read
 for files without entries

A file without a table of contents is opened as one without entries. If reading the
end of the file, where it is looked for, fails this is an error instead.
---
 src/SIOReader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SIOReader.cc b/src/SIOReader.cc
index 71486c3..002624e 100644
--- a/src/SIOReader.cc
+++ b/src/SIOReader.cc
@@ -89,6 +89,10 @@ bool SIOReader::readFileTOCRecord() {
   m_stream.seekg(-sio_helpers::SIOTocInfoSize, std::ios_base::end);
   uint64_t firstWords{0};
   m_stream.read(reinterpret_cast<char*>(&firstWords), sizeof(firstWords));
+  // A file without a TOC is not an error, but not being able to look for it is
+  if (m_stream.bad()) {
+    throw std::runtime_error("Failed to read the end of the file");
+  }
 
   const uint32_t marker = (firstWords >> 32) & 0xffffffff;
   if (marker == sio_helpers::SIOTocMarker) {
-- 
2.43.0


From f96fefde970381d8b55d706eaf2e15fcfd2e9e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 39/40] fix: free the matches of a glob pattern if copying them
 fails

---
 src/Glob.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Glob.cc b/src/Glob.cc
index 25d634b..f833593 100644
--- a/src/Glob.cc
+++ b/src/Glob.cc
@@ -1,5 +1,6 @@
 #include "podio/utilities/Glob.h"
 #include <iostream>
+#include <memory>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -41,12 +42,13 @@ std::vector<std::string> expand_glob(const std::string& pattern) {
     globfree(&glob_result);
     throw std::runtime_error("Glob expansion error");
   }
+  // Also free the matches if copying them fails
+  const std::unique_ptr<glob_t, decltype(&globfree)> guard(&glob_result, globfree);
   std::vector<std::string> results;
   results.reserve(glob_result.gl_pathc);
   for (size_t i = 0; i < glob_result.gl_pathc; ++i) {
     results.emplace_back(glob_result.gl_pathv[i]);
   }
-  globfree(&glob_result);
   return results;
 }
 
-- 
2.43.0


From 96c3ac1dbac245e70bf4ac19bc2694dd2724a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 40/40] fix: let podio-dump fail if its output could not be
 written

Output that is still buffered at the end was lost without any notice if, for example,
the disk was full.
---
 tools/src/podio-dump-tool.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tools/src/podio-dump-tool.cpp b/tools/src/podio-dump-tool.cpp
index 3349c08..c25d733 100644
--- a/tools/src/podio-dump-tool.cpp
+++ b/tools/src/podio-dump-tool.cpp
@@ -12,6 +12,7 @@
 #include <fmt/ranges.h>
 
 #include <algorithm>
+#include <cstdio>
 #include <iterator>
 #include <numeric>
 #include <ranges>
@@ -55,6 +56,16 @@ void printUsageAndExit() {
   std::exit(1);
 }
 
+/// Make sure that all of the output has been written, and get the status to exit
+/// with (which has to be an error if that is not the case)
+int flushOutput(int status) {
+  if (std::fflush(stdout) != 0 || std::ferror(stdout) != 0) {
+    fmt::println(stderr, "ERROR: failed to write the output");
+    return 1;
+  }
+  return status;
+}
+
 auto getArgumentValueOrExit(const std::vector<std::string>& argv, std::vector<std::string>::const_iterator it) {
   const int argc = argv.size();
   const auto index = std::distance(argv.begin(), it);
@@ -126,7 +137,7 @@ ParsedArgs parseArgs(std::vector<std::string> argv) {
     } else {
       fmt::print("{}\n{}", usageMsg, helpMsg);
     }
-    std::exit(0);
+    std::exit(flushOutput(0));
   }
 
   ParsedArgs args;
@@ -284,7 +295,7 @@ int main(int argc, char* argv[]) {
 
   auto reader = podio::makeReader(args.inputFile);
   if (!args.dumpEDM.empty()) {
-    return dumpEDMDefinition(reader, args.dumpEDM);
+    return flushOutput(dumpEDMDefinition(reader, args.dumpEDM));
   }
 
   printGeneralInfo(reader, args.inputFile);
@@ -304,5 +315,5 @@ int main(int argc, char* argv[]) {
     }
   }
 
-  return 0;
+  return flushOutput(0);
 }
-- 
2.43.0

