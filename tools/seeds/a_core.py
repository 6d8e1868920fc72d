seed("idtable-name-lock", "C04",
 [("src/CollectionIDTable.cc", '''  std::lock_guard<std::mutex> lock{*m_mutex};
  const auto result = std::ranges::find(m_collectionIDs, ID);
  const auto index = std::distance(m_collectionIDs.begin(), result);
''', '''  const auto result = std::ranges::find(m_collectionIDs, ID);
  const auto index = std::distance(m_collectionIDs.begin(), result);
  std::lock_guard<std::mutex> lock{*m_mutex};
''')],
 "a look up of an ID overlapping with add() from another thread",
 "CollectionIDTable::name searches the IDs without the mutex",
 r'''
#include "podio/CollectionIDTable.h"
#include <thread>
int main() {
  podio::CollectionIDTable t;
  std::thread a([&] { for (int i = 0; i < 300; ++i) t.add("c" + std::to_string(i)); });
  std::thread b([&] { for (int i = 0; i < 300; ++i) (void)t.name(i * 7u); });
  a.join();
  b.join();
  return 0;
}
''', "core-tsan")

seed("params-copy-one-by-one", "C03",
 [("src/GenericParameters.cc", '''  // acquire all locks at once to make sure all internal maps are
  // copied at the same "state" of the GenericParameters
  auto& intMtx = other.getMutex<int>();
  auto& floatMtx = other.getMutex<float>();
  auto& stringMtx = other.getMutex<std::string>();
  auto& doubleMtx = other.getMutex<double>();
  std::scoped_lock lock(intMtx, floatMtx, stringMtx, doubleMtx);
  _intMap = other._intMap;
  _floatMap = other._floatMap;
  _stringMap = other._stringMap;
  _doubleMap = other._doubleMap;
''', '''  // hold each lock only as long as the map it guards is copied
  const auto copyMap = [](auto& to, const auto& from, std::mutex& mtx) {
    std::lock_guard lock{mtx};
    to = from;
  };
  copyMap(_intMap, other._intMap, other.getMutex<int>());
  copyMap(_floatMap, other._floatMap, other.getMutex<float>());
  copyMap(_stringMap, other._stringMap, other.getMutex<std::string>());
  copyMap(_doubleMap, other._doubleMap, other.getMutex<double>());
''')],
 "two sets of parameters of different types between the copying of their maps",
 "a copy of the parameters mixes states of two instants",
 r'''
#include "podio/GenericParameters.h"
#include <atomic>
#include <chrono>
#include <dlfcn.h>
#include <pthread.h>
#include <thread>
// at the third mutex that the copying thread takes, another thread sets two
// parameters, unless that has to wait for the copy
static thread_local bool copying = false;
static std::atomic<int> locks{0};
static podio::GenericParameters* P;
static std::thread* setter;
static std::atomic<bool> done{false};
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (copying && ++locks == 3) {
    copying = false;
    setter = new std::thread([] {
      P->set("k", 2);
      P->set("k", std::string("2"));
      done = true;
    });
    for (int i = 0; i < 100 && !done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
  }
  return real(m);
}
int main() {
  podio::GenericParameters p;
  P = &p;
  p.set("k", 1);
  p.set("k", std::string("1"));
  copying = true;
  podio::GenericParameters c(p);
  copying = false;
  if (setter) setter->join();
  // the int is set first: a copy never has the new string with the old int
  return *c.get<int>("k") == 1 && *c.get<std::string>("k") == "2";
}
''', "core")

seed("params-assign-unlocked", "C03",
 [("include/podio/GenericParameters.h", '''    // Wrap the value into a vector with exactly one entry and store that
    std::vector<T> v = {std::move(value)};
    std::lock_guard lock{mtx};
    map.insert_or_assign(key, std::move(v));
''', '''    // Create the entry if necessary and reuse its storage otherwise
    auto& v = [&]() -> std::vector<T>& {
      std::lock_guard lock{mtx};
      return map[key];
    }();
    v.assign(1, std::move(value));
''')],
 "setting a scalar parameter while another thread uses the same key",
 "the value of a parameter is assigned after the mutex was released",
 r'''
#include "podio/GenericParameters.h"
#include <thread>
int main() {
  podio::GenericParameters p;
  p.set("k", std::string("a string that needs an allocation"));
  std::thread a([&] { for (int i = 0; i < 2000; ++i) p.set("k", std::string("another string that needs an allocation")); });
  std::thread b([&] { for (int i = 0; i < 2000; ++i) (void)p.get<std::string>("k"); });
  a.join();
  b.join();
  return 0;
}
''', "core-tsan")

seed("frame-available-from-table", "C01",
 [("include/podio/Frame.h", '''  auto collections = m_data->getAvailableCollections();
  collections.reserve(collections.size() + m_collections.size());

  for (const auto& [name, _] : m_collections) {
    collections.push_back(name);
  }

  return collections;
''', '''  // The table knows everything that is in the raw data as well as everything
  // that has been put into the frame
  return m_idTable.names();
''')],
 "a rejected or partial set of collections: the table knows names for which there is no collection",
 "getAvailableCollections lists collections that cannot be retrieved",
 r'''
#include "podio/Frame.h"
struct Data {
  podio::CollectionIDTable getIDTable() const { podio::CollectionIDTable t; t.add("not here"); return t; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string&) { return std::nullopt; }
  std::vector<std::string> getAvailableCollections() const { return {}; }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(); }
};
int main() {
  podio::Frame f(std::make_unique<Data>());
  for (auto& n : f.getAvailableCollections())
    if (!f.get(n)) return 1;
  return 0;
}
''', "core")

seed("factory-range-off-by-one", "C06",
 [("src/CollectionBufferFactory.cc", '''      for (auto i = prevSize; i < version; ++i) {
''', '''      for (auto i = prevSize ? prevSize - 1 : prevSize; i < version; ++i) {
''')],
 "registering a buffer function for a version, then one for a newer version, then asking for the first",
 "the function registered for the newest old version is replaced",
 r'''
#include "podio/CollectionBufferFactory.h"
#include "podio/CollectionBuffers.h"
int main() {
  auto& f = podio::CollectionBufferFactory::mutInstance();
  auto mk = [](unsigned v) { return [v](bool) { podio::CollectionReadBuffers b{}; b.schemaVersion = v; return b; }; };
  f.registerCreationFunc("TCollection", 2, mk(2));
  f.registerCreationFunc("TCollection", 4, mk(4));
  return !(f.createBuffers("TCollection", 2, false)->schemaVersion == 2 && f.createBuffers("TCollection", 1, false)->schemaVersion == 2 &&
           f.createBuffers("TCollection", 3, false)->schemaVersion == 4 && f.createBuffers("TCollection", 4, false)->schemaVersion == 4);
}
''', "core")

seed("datamodel-version-replaced", "C06",
 [("src/DatamodelRegistry.cc", '''  m_datamodelVersions.emplace(std::move(name), version);
''', '''  m_datamodelVersions[std::move(name)] = version;
''')],
 "registering a data model a second time under the same name with another version",
 "a second registration changes the version of a known data model",
 r'''
#include "podio/DatamodelRegistry.h"
int main() {
  auto& r = podio::DatamodelRegistry::mutInstance();
  podio::RelationNameMapping rel{};
  auto a = r.registerDatamodel("m", "{}", rel, podio::version::Version{1, 2, 3});
  auto b = r.registerDatamodel("m", "{}", rel, podio::version::Version{2, 0, 0});
  return !(a == b && *r.getDatamodelVersion("m") == podio::version::Version{1, 2, 3});
}
''', "core")
