MEMDATA = r'''
#pragma once
// a Frame data backend that hands over the buffers of the collections of a Frame
#include "mini/CellCollection.h"
#include "mini/CellNodeCollection.h"
#include "mini/NodeCollection.h"
#include "mini/TopCollection.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#define NEED(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
struct MemData {
  std::map<std::string, podio::CollectionReadBuffers> bufs;
  podio::CollectionIDTable table;
  podio::CollectionIDTable getIDTable() const { return {table.ids(), table.names()}; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& n) {
    auto it = bufs.find(n);
    if (it == bufs.end()) return std::nullopt;
    auto b = std::move(it->second);
    bufs.erase(it);
    return b;
  }
  std::vector<std::string> getAvailableCollections() const { std::vector<std::string> v; for (auto& [k, _] : bufs) v.push_back(k); return v; }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(); }
  static podio::CollectionReadBuffers copy(const podio::CollectionBase* c) {
    auto w = const_cast<podio::CollectionBase*>(c)->getBuffers();
    auto r = *podio::CollectionBufferFactory::instance().createBuffers(std::string(c->getTypeName()), c->getSchemaVersion(), c->isSubsetCollection());
    if (w.references) for (size_t i = 0; i < w.references->size(); ++i) *(*r.references)[i] = *(*w.references)[i];
    if (c->isSubsetCollection()) return r;
    auto data = [&](auto* t) { using V = std::vector<std::remove_pointer_t<decltype(t)>>; *static_cast<V*>(r.data) = *static_cast<V*>(w.vecPtr); };
    if (c->getTypeName() == mini::CellCollection::typeName) data((mini::CellData*)nullptr);
    else if (c->getTypeName() == mini::TopCollection::typeName) data((mini::TopData*)nullptr);
    else if (c->getTypeName() == mini::NodeCollection::typeName) {
      data((mini::NodeData*)nullptr);
      *static_cast<std::vector<int>*>((*r.vectorMembers)[0].second) = **static_cast<std::vector<int>**>((*w.vectorMembers)[0].second);
      *static_cast<std::vector<mini::Vec>*>((*r.vectorMembers)[1].second) = **static_cast<std::vector<mini::Vec>**>((*w.vectorMembers)[1].second);
    } else data((podio::LinkData*)nullptr);
    return r;
  }
  static podio::Frame read(const podio::Frame& f, const std::vector<std::string>& names) {
    auto d = std::make_unique<MemData>();
    for (auto& n : names) d->bufs.emplace(n, copy(f.getCollectionForWrite(n)));
    auto t = f.getCollectionIDTableForWrite();
    d->table = podio::CollectionIDTable(t.ids(), t.names());
    return podio::Frame(std::move(d));
  }
};
'''
MEM = {"memdata.h": MEMDATA}

seed("relation-missing-target-shifts", "C02",
 [("python/templates/macros/collections.jinja2", '''      if (!collectionProvider->get(id.collectionID, coll)) {
        m_rel_{{ relation.name }}->emplace_back({{ relation.full_type }}::makeEmpty());
        continue;
      }
''', '''      if (!collectionProvider->get(id.collectionID, coll)) {
        continue;
      }
''')],
 "a one-to-many relation whose targets lie in several collections, of which one is not in the data that was read",
 "relations to a missing collection vanish from the shared vector, so that the ranges of all later objects are shifted",
 r'''
#include "memdata.h"
int main() {
  podio::Frame f;
  mini::CellCollection a, b;
  mini::NodeCollection n;
  for (int i = 0; i < 3; ++i) { a.create().setN(i); b.create().setN(10 + i); }
  for (int i = 0; i < 3; ++i) { auto x = n.create(); x.addToCells(a[i]); x.addToCells(b[i]); }
  f.put(std::move(a), "a");
  f.put(std::move(b), "b");
  f.put(std::move(n), "n");
  auto r = MemData::read(f, {"b", "n"});
  auto& m = r.get<mini::NodeCollection>("n");
  for (int i = 0; i < 3; ++i) {
    NEED(!m[i].getCells(0).isAvailable());
    NEED(m[i].getCells(1).isAvailable());
    NEED(m[i].getCells(1).getN() == 10 + i);
  }
  return 0;
}
''', "model", MEM)

seed("link-ends-one-loop", "C02",
 [("include/podio/detail/LinkCollectionData.h", '''      } else {
        entries[i]->m_from = nullptr;
      }
    }

    for (size_t i = 0; i < entries.size(); ++i) {
      const auto id = (*m_refCollections[1])[i];
      if (id.index != podio::ObjectID::invalid) {
        podio::CollectionBase* coll = nullptr;
        if (!collectionProvider->get(id.collectionID, coll)) {
          entries[i]->m_to = nullptr;
          continue;
        }
        podio::detail::addSingleRelation(entries[i]->m_to, coll, id);
      } else {
        entries[i]->m_to = nullptr;
      }
    }
''', '''      } else {
        entries[i]->m_from = nullptr;
      }

      const auto toId = (*m_refCollections[1])[i];
      if (toId.index != podio::ObjectID::invalid) {
        podio::CollectionBase* coll = nullptr;
        if (!collectionProvider->get(toId.collectionID, coll)) {
          entries[i]->m_to = nullptr;
          continue;
        }
        podio::detail::addSingleRelation(entries[i]->m_to, coll, toId);
      } else {
        entries[i]->m_to = nullptr;
      }
    }
''')],
 "a link whose from collection is not in the data while its to collection is",
 "the to end of such a link is lost",
 r'''
#include "memdata.h"
int main() {
  podio::Frame f;
  mini::CellCollection a;
  mini::NodeCollection n;
  mini::CellNodeCollection l;
  a.create().setN(1);
  n.create().setN(2);
  auto x = l.create();
  x.setFrom(a[0]);
  x.setTo(n[0]);
  f.put(std::move(a), "a");
  f.put(std::move(n), "n");
  f.put(std::move(l), "l");
  auto r = MemData::read(f, {"n", "l"});
  auto& m = r.get<mini::CellNodeCollection>("l");
  NEED(!m[0].getFrom().isAvailable());
  NEED(m[0].getTo().isAvailable() && m[0].getTo().getN() == 2);
  return 0;
}
''', "model", MEM)

seed("prepare-check-before-lock", "C05",
 [("python/templates/Collection.cc.jinja2", '''  std::lock_guard lock{*m_storageMtx};
  if (m_isPrepared) {
    return;
  }
  m_storage.prepareForWrite(m_isSubsetColl);
''', '''  if (m_isPrepared) {
    return;
  }
  std::lock_guard lock{*m_storageMtx};
  m_storage.prepareForWrite(m_isSubsetColl);
''')],
 "two threads preparing the same collection at the same time",
 "a collection is prepared a second time while the first thread already uses its buffers",
 r'''
#include "memdata.h"
#include <thread>
int main() {
  for (int k = 0; k < 20; ++k) {
    podio::Frame f;
    mini::NodeCollection n;
    for (int i = 0; i < 50; ++i) { auto x = n.create(); x.addToCodes(i); }
    f.put(std::move(n), "n");
    auto w = [&] {
      auto* c = f.getCollectionForWrite("n");
      auto b = const_cast<podio::CollectionBase*>(c)->getBuffers();
      if (static_cast<std::vector<mini::NodeData>*>(b.vecPtr)->size() != 50) std::_Exit(1);
    };
    std::thread a([&] { f.getCollectionForWrite("n"); }), b([&] { f.getCollectionForWrite("n"); });
    a.join();
    b.join();
    w();
  }
  return 0;
}
''', "model-tsan", MEM)

seed("prepare-vector-size-of-first", "C05",
 [("python/templates/CollectionData.cc.jinja2", '''void {{ class_type }}::prepareForWrite(bool isSubsetColl) {
  for (const auto& pointer : m_refCollections) { pointer->clear(); }
''', '''void {{ class_type }}::prepareForWrite(bool isSubsetColl) {
  if (isSubsetColl) { m_refCollections[0]->clear(); }
''')],
 "a preparation that fails half way through the relations, followed by one that succeeds",
 "references of the failed preparation stay in the buffers and are written twice",
 r'''
#include "memdata.h"
int main() {
  podio::Frame f;
  mini::MutableCell late;
  mini::CellCollection a;
  mini::NodeCollection n;
  a.create().setN(1);
  auto x = n.create();
  x.addToCells(a[0]);
  x.addToCells(late);
  f.put(std::move(a), "a");
  f.put(std::move(n), "n");
  bool threw = false;
  try { f.getCollectionForWrite("n"); } catch (const std::runtime_error&) { threw = true; }
  NEED(threw);
  mini::CellCollection b;
  b.push_back(late);
  f.put(std::move(b), "b");
  auto* c = f.getCollectionForWrite("n");
  auto w = const_cast<podio::CollectionBase*>(c)->getBuffers();
  NEED((*w.references)[1]->size() == 2);
  return 0;
}
''', "model", MEM)
