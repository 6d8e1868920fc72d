seed("ptr-count-two-steps", "O01",
 [("include/podio/utilities/MaybeSharedPtr.h", '''    if (m_ctrlBlock && --m_ctrlBlock->count == 0) {
''', '''    if (m_ctrlBlock) {
      --m_ctrlBlock->count;
    }
    if (m_ctrlBlock && m_ctrlBlock->count == 0) {
''')],
 "two threads dropping the last two handles of an object at the same time",
 "the counter of handles is decremented and compared in two steps, so that both threads, or none that may still look at it, clean up",
 r'''
#include "podio/utilities/MaybeSharedPtr.h"
#include <thread>
#include <optional>
#include <vector>
using P = podio::utils::MaybeSharedPtr<int>;
int main() {
  for (int round = 0; round < 300; ++round) {
    std::optional<P> a(std::in_place, new int(1), podio::utils::MarkOwned);
    std::optional<P> b(*a), c(*a);
    std::thread x([&] { a.reset(); });
    std::thread y([&] { b.reset(); });
    c.reset();
    x.join();
    y.join();
  }
  return 0;
}
''', "core-tsan")

seed("userdata-grow-first", "O02",
 [("include/podio/UserDataCollection.h", '''    _vec.push_back(value);
''', '''    // Use all the memory there is before asking for more
    if (_vec.size() == _vec.capacity()) {
      _vec.reserve(_vec.empty() ? 8 : 2 * _vec.size());
    }
    _vec.push_back(value);
''')],
 "pushing an element of the collection to the collection itself while its vector is full",
 "the vector is enlarged before the value is copied, so that a value from the collection itself is read after it has been freed",
 r'''
#include "podio/UserDataCollection.h"
#include <cstdint>
// freed memory is overwritten
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
void operator delete(void* p) noexcept { if (p) std::memset(p, 0xee, malloc_usable_size(p)); std::free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
int main() {
  podio::UserDataCollection<int64_t> c;
  c.push_back(42);
  for (int i = 0; i < 300; ++i) c.push_back(c[0]);
  for (auto v : c) if (v != 42) return 1;
  return 0;
}
''', "core")

seed("link-clone-both-ends", "O03",
 [("include/podio/detail/Link.h", '''    if (cloneRelations) {
      if (m_obj->m_from) {
        tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);
      }
      if (m_obj->m_to) {
        tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);
      }
    }
''', '''    if (cloneRelations && m_obj->m_from && m_obj->m_to) {
      tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);
      tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);
    }
''')],
 "cloning a link of which only one end is set",
 "a clone of a link with one end loses that end",
 r'''
#include "mini/CellNodeCollection.h"
#include "mini/CellCollection.h"
#include "mini/NodeCollection.h"
int main() {
  mini::CellCollection cells;
  auto cell = cells.create();
  cell.setN(3);
  mini::CellNodeCollection links;
  auto l = links.create();
  l.setFrom(mini::Cell(cell));
  auto k = l.clone();
  return !(k.getFrom().isAvailable() && k.getFrom() == cell && !k.getTo().isAvailable());
}
''', "model")

seed("navigator-unique-pairs", "O05",
 [("include/podio/LinkNavigator.h", '''    m_from2to.emplace(std::piecewise_construct, std::forward_as_tuple(from), std::forward_as_tuple(to, weight));
''', '''    // Links may be part of a collection several times
    const auto [first, last] = m_from2to.equal_range(from);
    bool known = false;
    for (auto it = first; it != last; ++it) {
      known = known || it->second.o == to;
    }
    if (known) {
      continue;
    }
    m_from2to.emplace(std::piecewise_construct, std::forward_as_tuple(from), std::forward_as_tuple(to, weight));
''')],
 "two links between the same two objects",
 "the navigator reports only one of several links between the same pair of objects",
 r'''
#include "mini/CellNodeCollection.h"
#include "mini/CellCollection.h"
#include "mini/NodeCollection.h"
#include "podio/LinkNavigator.h"
int main() {
  mini::CellCollection cells;
  mini::NodeCollection nodes;
  mini::CellNodeCollection links;
  auto c = cells.create();
  auto n = nodes.create();
  for (float w : {0.25f, 0.75f}) {
    auto l = links.create();
    l.setFrom(mini::Cell(c));
    l.setTo(mini::Node(n));
    l.setWeight(w);
  }
  podio::LinkNavigator nav(links);
  return nav.getLinkedTo(mini::Cell(c)).size() != 2 || nav.getLinkedFrom(mini::Node(n)).size() != 2;
}
''', "model")

seed("evolution-lookup-remembered", "S07",
 [("src/SchemaEvolution.cc", '''  if (const auto typeIt = m_versionMapIndices.find(collType); typeIt != m_versionMapIndices.end()) {
    const auto [currentVersion, mapIndex] = typeIt->second;
''', '''  // Events have the same collections over and over again
  static std::unordered_map<std::string, VersionMapT::const_iterator> lookups;
  static std::mutex lookupsMtx;
  const auto typeIt = [&] {
    std::lock_guard lock{lookupsMtx};
    return lookups.try_emplace(collType, m_versionMapIndices.find(collType)).first->second;
  }();
  if (typeIt != m_versionMapIndices.end()) {
    const auto [currentVersion, mapIndex] = typeIt->second;
'''), ("src/SchemaEvolution.cc", "#include <iostream>\n", "#include <iostream>\n#include <mutex>\n")],
 "evolution functions that are registered after buffers of the type have been asked for already, e.g. by a library that is loaded later",
 "the result of the first look up of a type is kept, so that evolution functions registered later are not used",
 r'''
#include "podio/SchemaEvolution.h"
#include "podio/CollectionBuffers.h"
static int evolved = 0;
int main() {
  auto& s = podio::SchemaEvolution::mutInstance();
  podio::CollectionReadBuffers a{};
  (void)s.evolveBuffers(std::move(a), 1, "SomeCollection");
  s.registerEvolutionFunc("SomeCollection", 1, 2, [](podio::CollectionReadBuffers&& b, podio::SchemaVersionT) { ++evolved; return std::move(b); },
                          podio::SchemaEvolution::Priority::UserDefined);
  podio::CollectionReadBuffers b{};
  (void)s.evolveBuffers(std::move(b), 1, "SomeCollection");
  return evolved != 1;
}
''', "core")

seed("evolution-grow-forgets", "S07",
 [("src/SchemaEvolution.cc", '''    versionMap.resize(currentVersion);
''', '''    versionMap = EvolFuncVersionMapT(currentVersion);
''')],
 "evolution functions of one type that are registered with different current versions, e.g. by two libraries",
 "registering a function for a newer version forgets those registered before",
 r'''
#include "podio/SchemaEvolution.h"
#include "podio/CollectionBuffers.h"
static int evolved = 0;
int main() {
  auto& s = podio::SchemaEvolution::mutInstance();
  using P = podio::SchemaEvolution::Priority;
  auto f = [](podio::CollectionReadBuffers&& b, podio::SchemaVersionT) { ++evolved; return std::move(b); };
  s.registerEvolutionFunc("SomeCollection", 1, 3, f, P::UserDefined);
  s.registerEvolutionFunc("SomeCollection", 2, 4, f, P::AutoGenerated);
  try {
    podio::CollectionReadBuffers b{};
    (void)s.evolveBuffers(std::move(b), 1, "SomeCollection");
  } catch (...) {}
  return evolved != 1;
}
''', "core")

seed("idtable-id-by-hash", "C04",
 [("src/CollectionIDTable.cc", '''  std::lock_guard<std::mutex> lock{*m_mutex};
  const auto result = std::ranges::find(m_names, name);
  const auto index = std::distance(m_names.begin(), result);
  if (index >= static_cast<ptrdiff_t>(m_collectionIDs.size())) {
''', '''  // Comparing numbers is cheaper than comparing names
  uint32_t ID = 0;
  MurmurHash3_x86_32(name.c_str(), name.size(), 0, &ID);
  std::lock_guard<std::mutex> lock{*m_mutex};
  const auto result = std::ranges::find(m_collectionIDs, ID);
  const auto index = std::distance(m_collectionIDs.begin(), result);
  if (index >= static_cast<ptrdiff_t>(m_names.size())) {
''')],
 "a table read from a file that was written with IDs that are no hashes of the names",
 "collections whose ID is not the hash of their name are not found",
 r'''
#include "podio/CollectionIDTable.h"
int main() {
  podio::CollectionIDTable t({1, 2}, {"hits", "tracks"});
  auto id = t.collectionID("tracks");
  return !(id && *id == 2 && t.present("hits") && t.add("hits") == 1);
}
''', "core")

seed("registry-names-of-later", "C06",
 [("src/DatamodelRegistry.cc", '''  if (it == m_definitions.cend()) {
    int index = m_definitions.size();
    m_definitions.emplace_back(std::move(name), definition);

    for (const auto& [typeName, relations, vectorMembers] : relationNames) {
      m_relations.emplace(typeName, RelationNames{relations, vectorMembers});
    }

    return index;
''', '''  // Definitions that were available from elsewhere have no relation names
  for (const auto& [typeName, relations, vectorMembers] : relationNames) {
    m_relations.erase(typeName);
    m_relations.emplace(typeName, RelationNames{relations, vectorMembers});
  }

  if (it == m_definitions.cend()) {
    int index = m_definitions.size();
    m_definitions.emplace_back(std::move(name), definition);
    return index;
''')],
 "two registrations of one data model with different relations, e.g. by two versions of its library",
 "a registration that comes second does not replace the definition, but the names of the relations",
 r'''
#include "podio/DatamodelRegistry.h"
int main() {
  auto& r = podio::DatamodelRegistry::mutInstance();
  static const podio::RelationNameMapping a{{"edm::Thing", {"first"}, {}}}, b{{"edm::Thing", {"second"}, {}}};
  r.registerDatamodel("edm", "{1}", a);
  r.registerDatamodel("edm", "{2}", b);
  auto n = r.getRelationNames("edm::Thing");
  return !(r.getDatamodelDefinition("edm") == "{1}" && n.relations.size() == 1 && n.relations[0] == "first");
}
''', "core")

seed("params-copied-after-unlock", "C03",
 [("include/podio/GenericParameters.h", '''  std::lock_guard lock{mtx};
  const auto it = map.find(key);
  if (it == map.end()) {
    return std::nullopt;
  }
''', '''  // The elements of a map stay where they are
  const auto it = [&] {
    std::lock_guard lock{mtx};
    return map.find(key);
  }();
  if (it == map.end()) {
    return std::nullopt;
  }
''')],
 "a parameter that is replaced by another thread between its look up and the copy of its value",
 "the value of a parameter is copied after the mutex was released",
 r'''
#include "podio/GenericParameters.h"
#include <thread>
int main() {
  podio::GenericParameters p;
  p.set("k", std::vector<int>{1, 2, 3});
  std::thread a([&] { for (int i = 0; i < 2000; ++i) p.set("k", std::vector<int>(i % 7, i)); });
  std::thread b([&] { for (int i = 0; i < 2000; ++i) (void)p.get<std::vector<int>>("k"); });
  a.join();
  b.join();
  return 0;
}
''', "core-tsan")

seed("factory-gap-keeps-previous", "C06",
 [("src/CollectionBufferFactory.cc", '''      for (auto i = prevSize; i < version; ++i) {
        versionMap[i] = creationFunc;
      }
''', '''      // Versions without a function of their own are like the one before
      for (auto i = prevSize; i + 1 < version; ++i) {
        versionMap[i] = versionMap[prevSize - 1];
      }
      versionMap[version - 1] = creationFunc;
''')],
 "a newer version that is registered while versions between it and what was registered before have no function of their own",
 "buffers of versions without a function of their own are made by that of an older version",
 r'''
#include "podio/CollectionBufferFactory.h"
int main() {
  auto& f = podio::CollectionBufferFactory::mutInstance();
  static int made = 0;
  f.registerCreationFunc("SomeCollection", 1, [](bool) { made = 1; return podio::CollectionReadBuffers{}; });
  f.registerCreationFunc("SomeCollection", 4, [](bool) { made = 4; return podio::CollectionReadBuffers{}; });
  (void)f.createBuffers("SomeCollection", 2, false);
  if (made != 4) return 1;
  (void)f.createBuffers("SomeCollection", 1, false);
  return made != 1;
}
''', "core")

seed("glob-in-directory-order", "S09",
 [("src/Glob.cc", "GLOB_TILDE | GLOB_BRACE | GLOB_NOMAGIC", "GLOB_TILDE | GLOB_BRACE | GLOB_NOMAGIC | GLOB_NOSORT")],
 "a directory that does not list its files in alphabetical order",
 "the files that match a pattern are read in whatever order the directory has",
 "", script=r'''cat > $T/demo.cc <<'E'
#include "podio/utilities/Glob.h"
#include <algorithm>
int main(int, char** a) {
  auto r = podio::utils::expand_glob(std::string(a[1]) + "/f_*.root");
  return r.size() != 200 || !std::is_sorted(r.begin(), r.end());
}
E
g++ -std=c++20 -O1 -w $I $T/demo.cc $R/src/Glob.cc -o $T/demo || exit 3
mkdir $T/files
for i in $(seq 200 | sort -R --random-source=/dev/zero); do : > $T/files/f_$(( (i * 77) % 200 + 1000 )).root; done
timeout 60 $T/demo $T/files
''')

GENMODEL = r'''
schema_version: 1
options:
  getSyntax: True
  exposePODMembers: False
  includeSubfolder: True
components:
  a::V:
    Members:
      - std::array<float, 2> x
      - int64_t n
datatypes:
  a::One:
    Description: "d"
    Author: "d"
    Members:
      - a::V v // v
      - std::array<int, 3> w // w
      - uint64_t k // k
      - int n // n
  a::Two:
    Description: "d"
    Author: "d"
    Members:
      - int n // n
  a::Three:
    Description: "d"
    Author: "d"
    Members:
      - int n // n
    OneToOneRelations:
      - a::One one // r
      - a::Two two // r
    OneToManyRelations:
      - a::I3 is // r
interfaces:
  a::I1:
    Description: "d"
    Author: "d"
    Types: [a::One, a::Two]
    Members:
      - int n // n
  a::I2:
    Description: "d"
    Author: "d"
    Types: [a::One, a::Two]
    Members:
      - int n // n
  a::I3:
    Description: "d"
    Author: "d"
    Types: [a::One, a::Two]
    Members:
      - int n // n
  a::I4:
    Description: "d"
    Author: "d"
    Types: [a::One, a::Two]
    Members:
      - int n // n
'''
GENRUN = r'''export PYTHONPATH=$R/python
gen() { # folder hash-seed options
  mkdir -p $T/$1/src $T/$1/a
  PYTHONHASHSEED=$2 timeout 60 /usr/bin/python3 $R/python/podio_class_generator.py -q $T/model.yaml $T/$1 a SIO > $T/log 2>&1
}
cp "$D/model.yaml" $T/model.yaml
'''
seed("gen-interfaces-as-set", "G01",
 [("python/podio_gen/cpp_generator.py", """        types_in_interfaces = defaultdict(list)
""", """        types_in_interfaces = defaultdict(set)
"""), ("python/podio_gen/cpp_generator.py", "types_in_interfaces[if_type.full_type].append(name)", "types_in_interfaces[if_type.full_type].add(name)")],
 "two runs of the generator with different hash seeds for a type that is part of several interfaces",
 "the order of the friend declarations depends on the hash seed",
 "", files={"model.yaml": GENMODEL}, script=GENRUN + r'''gen x 1 || exit 3
for h in 2 3 4 5 6 7 8 9; do
  rm -rf $T/y
  gen y $h || exit 3
  diff -r $T/x/a $T/y/a > /dev/null && diff -r $T/x/src $T/y/src > /dev/null || exit 1
done
exit 0
''')

seed("gen-compare-stripped", "G01",
 [("python/podio_gen/generator_base.py", '''            changed = existing_content != content
''', '''            # Formatting may have changed what is between the words
            changed = existing_content.split() != content.split()
''')],
 "a change of the model that changes nothing but spaces in a generated file, e.g. in a description",
 "a file that differs in spaces is taken for unchanged, so that the output depends on what was there before",
 "", files={"model.yaml": GENMODEL}, script=GENRUN + r'''gen x 1 || exit 3
sed -i 's|- int n // n|- int n // the  number|' $T/model.yaml
gen x 1 || exit 3
sed -i 's|- int n // the  number|- int n // the number|' $T/model.yaml
gen x 1 || exit 3
gen y 1 || exit 3
diff -r $T/x/a $T/y/a > /dev/null && diff -r $T/x/src $T/y/src > /dev/null
''')

seed("gen-list-as-set", "G01",
 [("python/podio_gen/cpp_generator.py", """        src_files = (f for f in self.generated_files if f.endswith(".cc"))""",
   """        src_files = {f for f in self.generated_files if f.endswith(".cc")}""")],
 "two runs of the generator with different hash seeds",
 "the order of the generated files in their list depends on the hash seed",
 "", files={"model.yaml": GENMODEL}, script=GENRUN + r'''gen x 1 || exit 3
sed "s|$T/x|DIR|g" $T/x/podio_generated_files.cmake > $T/first
for h in 2 3 4 5; do
  rm -rf $T/x
  gen x $h || exit 3
  sed "s|$T/x|DIR|g" $T/x/podio_generated_files.cmake | cmp -s - $T/first || exit 1
done
exit 0
''')
