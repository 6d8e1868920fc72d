import os
_sio = os.path.join(os.path.dirname(HERE), "sim", "sio")
SIOFILES = {"sio.cc": open(_sio + "/sio.cc").read(), "sio.h.txt": open(_sio + "/sio/sio.h").read()}
SIOFILES["siodemo.h"] = r'''
#pragma once
#include "mini/CellCollection.h"
#include "mini/CellNodeCollection.h"
#include "mini/NodeCollection.h"
#include "mini/TopCollection.h"
#include "podio/Frame.h"
#include "podio/SIOLegacyReader.h"
#include "podio/SIOReader.h"
#include "podio/SIOWriter.h"
#include "podio/UserDataCollection.h"
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <string>
#define NEED(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
inline podio::Frame event(int k, int cells = 3) {
  podio::Frame f;
  mini::CellCollection c;
  mini::NodeCollection n;
  for (int i = 0; i < cells; ++i) { c.create().setN(100 * k + i); }
  for (int i = 0; i < 2; ++i) { auto x = n.create(); x.setN(k - i); if (cells) { x.addToCells(c[i % cells]); } x.addToCodes(k); }
  f.put(std::move(c), "cells");
  f.put(std::move(n), "nodes");
  f.putParameter("k", k);
  return f;
}
inline bool isEvent(const podio::Frame& f, int k) {
  auto& c = f.get<mini::CellCollection>("cells");
  if (f.getParameter<int>("k").value_or(-1) != k) return false;
  for (size_t i = 0; i < c.size(); ++i) if (c[i].getN() != 100 * k + (int)i) return false;
  return true;
}
template <typename D> podio::Frame frame(D d) { return podio::Frame(std::move(d)); }
'''


def sseed(id, prop, edits, needs, breaks, demo, **kw):
    seed(id, prop, edits, needs, breaks, '#include "siodemo.h"\n' + demo, "sio", dict(SIOFILES, **kw.get("files", {})))


FD = "src/SIOFrameData.cc"
SB = "include/podio/SIOBlock.h"
SBC = "src/SIOBlock.cc"
SR = "src/SIOReader.cc"
SW = "src/SIOWriter.cc"
SU = "src/sioUtils.h"
UB = "include/podio/SIOBlockUserData.h"
LB = "include/podio/detail/LinkSIOBlock.h"

sseed("sio-empty-values-skipped", "S01",
 [(SB, '''  device.data((int)map.size());
  for (const auto& [key, value] : map) {
    device.data(key);
''', '''  auto count = (int)map.size();
  if constexpr (detail::isVector<detail::GetMappedType<MapLikeT>>) {
    count = (int)std::ranges::count_if(map, [](const auto& entry) { return !std::get<1>(entry).empty(); });
  }
  device.data(count);
  for (const auto& [key, value] : map) {
    if constexpr (detail::isVector<detail::GetMappedType<MapLikeT>>) {
      if (value.empty()) {
        continue;
      }
    }
    device.data(key);
''')],
 "a parameter whose value is an empty vector",
 "parameters with an empty vector as value are not written",
 r'''
int main(int, char** a) {
  auto f = event(1);
  f.putParameter("none", std::vector<int>{});
  f.putParameter("some", std::vector<int>{1, 2});
  const std::string fn = std::string(a[1]) + "/f.sio";
  { podio::SIOWriter w(fn); w.writeFrame(f, "events"); w.finish(); }
  podio::SIOReader r;
  r.openFile(fn);
  auto g = frame(r.readEntry("events", 0));
  NEED(isEvent(g, 1));
  NEED(g.getParameter<std::vector<int>>("some").value().size() == 2);
  NEED(g.getParameter<std::vector<int>>("none").has_value());
  return 0;
}
''')

sseed("sio-subset-bit-of-first", "S01",
 [(SU, "subsetColl.emplace_back(coll->isSubsetCollection());", "subsetColl.emplace_back(coll->isSubsetCollection() && coll->size());")],
 "a subset collection without elements",
 "an empty subset collection comes back as a normal collection",
 r'''
int main(int, char** a) {
  auto f = event(1);
  mini::CellCollection s;
  s.setSubsetCollection();
  f.put(std::move(s), "none");
  const std::string fn = std::string(a[1]) + "/f.sio";
  { podio::SIOWriter w(fn); w.writeFrame(f, "events"); w.finish(); }
  podio::SIOReader r;
  r.openFile(fn);
  auto g = frame(r.readEntry("events", 0));
  NEED(isEvent(g, 1));
  NEED(g.get("none")->isSubsetCollection());
  return 0;
}
''')

sseed("sio-link-refs-of-weights", "S01",
 [(LB, '''    const auto* refColls = m_readBuffers.references;
    for (auto& refC : *refColls) {
      unsigned size{0};
      device.data(size);
      refC->resize(size);
''', '''    const auto* refColls = m_readBuffers.references;
    for (auto& refC : *refColls) {
      unsigned size{0};
      device.data(size);
      refC->resize(size & 0xffff);
      size = refC->size();
''')],
 "a link collection with more than 65535 elements",
 "large link collections lose their ends",
 r'''
int main(int, char** a) {
  podio::Frame f = event(1);
  mini::CellNodeCollection l;
  auto& c = f.get<mini::CellCollection>("cells");
  auto& n = f.get<mini::NodeCollection>("nodes");
  const int N = 70000;
  for (int i = 0; i < N; ++i) { auto x = l.create(); x.setFrom(c[i % 3]); x.setTo(n[i % 2]); x.setWeight(i); }
  f.put(std::move(l), "links");
  const std::string fn = std::string(a[1]) + "/f.sio";
  { podio::SIOWriter w(fn); w.writeFrame(f, "events"); w.finish(); }
  podio::SIOReader r;
  r.openFile(fn);
  auto g = frame(r.readEntry("events", 0));
  auto& m = g.get<mini::CellNodeCollection>("links");
  NEED(m.size() == N);
  for (int i = 0; i < N; ++i) NEED(m[i].getFrom() == g.get<mini::CellCollection>("cells")[i % 3]);
  return 0;
}
''')

sseed("sio-counter-per-reader", "S02",
 [(SR, '''  m_nameCtr[nameStr]++;

  return std::make_unique''', '''  auto& ctr = m_nameCtr[nameStr];
  if (++ctr == m_tocRecord.getNRecords(name)) {
    m_nameCtr.erase(nameStr);
  }

  return std::make_unique''')],
 "asking for the next entry after the last one has been read",
 "reading the next entry starts again with the first one instead of reporting the end",
 r'''
int main(int, char** a) {
  const std::string fn = std::string(a[1]) + "/f.sio";
  { podio::SIOWriter w(fn); for (int k = 1; k < 4; ++k) w.writeFrame(event(k), "events"); w.finish(); }
  podio::SIOReader r;
  r.openFile(fn);
  for (int k = 1; k < 4; ++k) { auto d = r.readNextEntry("events"); NEED(d); NEED(isEvent(frame(std::move(d)), k)); }
  NEED(!r.readNextEntry("events"));
  NEED(!r.readEntry("events", 3));
  NEED(isEvent(frame(r.readEntry("events", 0)), 1));
  NEED(isEvent(frame(r.readNextEntry("events")), 2));
  return 0;
}
''')

sseed("sio-toc-categories-by-prefix", "S02",
 [(SBC, '''size_t SIOFileTOCRecord::getNRecords(std::string_view name) const {
  const auto it = std::ranges::find(m_recordMap, name, &decltype(m_recordMap)::value_type::first);
''', '''size_t SIOFileTOCRecord::getNRecords(std::string_view name) const {
  const auto it =
      std::ranges::find_if(m_recordMap, [&](const auto& r) { return std::string_view(r.first).starts_with(name); });
''')],
 "two categories of which one name starts with the other, written in the wrong order",
 "the number of entries of another category is reported",
 r'''
int main(int, char** a) {
  const std::string fn = std::string(a[1]) + "/f.sio";
  { podio::SIOWriter w(fn); for (int k = 1; k < 4; ++k) w.writeFrame(event(k), "runs_all"); w.writeFrame(event(9), "runs"); w.finish(); }
  podio::SIOReader r;
  r.openFile(fn);
  NEED(r.getEntries("runs_all") == 3);
  NEED(r.getEntries("runs") == 1);
  NEED(r.getEntries("run") == 0);
  return 0;
}
''')

sseed("sio-selection-once", "S03",
 [(FD, '''    const auto name = m_idTable.names()[i - 1];
    if (std::ranges::find(m_limitColls, name) == m_limitColls.end()) {
      m_availableBlocks[i] = 0;
    }
''', '''    const auto name = m_idTable.names()[i - 1];
    if (std::ranges::count(m_limitColls, name) != 1) {
      m_availableBlocks[i] = 0;
    }
''')],
 "a selection that names a collection twice",
 "collections that are selected twice are not available",
 r'''
int main(int, char** a) {
  const std::string fn = std::string(a[1]) + "/f.sio";
  { podio::SIOWriter w(fn); w.writeFrame(event(1), "events"); w.finish(); }
  podio::SIOReader r;
  r.openFile(fn);
  auto f = frame(r.readEntry("events", 0, {"cells"}));
  NEED(f.getAvailableCollections().size() == 1);
  auto g = frame(r.readEntry("events", 0, {"cells", "nodes", "cells"}));
  NEED(g.get("nodes"));
  NEED(g.get("cells"));
  return 0;
}
''')

sseed("sio-selection-of-file", "S03",
 [(SW, '''    collections.emplace_back(name, coll);
    m_datamodelCollector''', '''    if (coll->isSubsetCollection() && coll->size() == 0) {
      continue;
    }
    collections.emplace_back(name, coll);
    m_datamodelCollector''')],
 "writing a subset collection without elements",
 "empty subset collections are not written",
 r'''
int main(int, char** a) {
  auto f = event(1);
  mini::CellCollection s;
  s.setSubsetCollection();
  f.put(std::move(s), "none");
  const std::string fn = std::string(a[1]) + "/f.sio";
  { podio::SIOWriter w(fn); w.writeFrame(f, "events", {"none", "cells"}); w.finish(); }
  podio::SIOReader r;
  r.openFile(fn);
  auto g = frame(r.readEntry("events", 0));
  NEED(g.getAvailableCollections().size() == 2);
  NEED(g.get("none"));
  return 0;
}
''')

sseed("sio-toc-marker-half", "S04",
 [(SR, '''  const uint32_t marker = (firstWords >> 32) & 0xffffffff;
  if (marker == sio_helpers::SIOTocMarker) {
    const uint32_t position = firstWords & 0xffffffff;
    m_stream.seekg(position);

    const auto& [uncBuffer, _] = sio_utils::readRecord(m_stream);

    sio::block_list blocks;
    auto tocBlock = std::make_shared<SIOFileTOCRecordBlock>();
    tocBlock->record = &m_tocRecord;
    blocks.push_back(tocBlock);

    sio::api::read_blocks(uncBuffer.span(), blocks);

    m_stream.seekg(0);
    return true;
''', '''  const uint32_t marker = (firstWords >> 32) & 0xffffffff;
  if (marker == sio_helpers::SIOTocMarker) {
    const uint32_t position = firstWords & 0xffffffff;
    m_stream.seekg(position);
    try {
      const auto& [uncBuffer, _] = sio_utils::readRecord(m_stream);

      sio::block_list blocks;
      auto tocBlock = std::make_shared<SIOFileTOCRecordBlock>();
      tocBlock->record = &m_tocRecord;
      blocks.push_back(tocBlock);

      sio::api::read_blocks(uncBuffer.span(), blocks);
    } catch (const sio::exception&) {
      // Treat this like a file without a table of contents
      m_stream.clear();
      m_stream.seekg(0);
      return false;
    }

    m_stream.seekg(0);
    return true;
''')],
 "a file whose table of contents is damaged while the marker at its end is intact",
 "a damaged file opens without an error as if it had no entries",
 r'''
int main(int, char** a) {
  const std::string fn = std::string(a[1]) + "/f.sio";
  { podio::SIOWriter w(fn); for (int k = 1; k < 4; ++k) w.writeFrame(event(k), "events"); w.finish(); }
  { podio::SIOReader r; r.openFile(fn); NEED(r.getEntries("events") == 3); }
  const auto size = std::filesystem::file_size(fn);
  std::fstream s(fn, std::ios::in | std::ios::out | std::ios::binary);
  uint64_t last = 0;
  s.seekg(size - 8);
  s.read(reinterpret_cast<char*>(&last), 8);
  const auto toc = last & 0xffffffff;
  s.seekp((toc + size - 8) / 2 + 8);
  s.write("\xff\x00\xff\x00\xff\x00\xff\x00", 8);
  s.close();
  podio::SIOReader r;
  try {
    r.openFile(fn);
  } catch (const std::exception&) {
    return 0;
  }
  NEED(r.getEntries("events") == 3);
  return 0;
}
''')

sseed("sio-damaged-entry-skipped", "S04",
 [(SR, '''  auto [dataBuffer, dataInfo] = sio_utils::readRecord(m_stream, false);

  m_nameCtr[nameStr]++;
''', '''  sio::buffer dataBuffer{1};
  sio::record_info dataInfo;
  try {
    std::tie(dataBuffer, dataInfo) = sio_utils::readRecord(m_stream, false);
  } catch (const sio::exception&) {
    // Go on with the next entry that can be read
    m_nameCtr[nameStr]++;
    return readNextEntry(name, collsToRead);
  }

  m_nameCtr[nameStr]++;
''')],
 "a file in which the header of the record of an entry in the middle is damaged",
 "asking for an entry that cannot be read silently gives the following one",
 r'''
int main(int, char** a) {
  const std::string fn = std::string(a[1]) + "/f.sio";
  { podio::SIOWriter w(fn); for (int k = 1; k < 4; ++k) w.writeFrame(event(k), "events"); w.finish(); }
  std::fstream s(fn, std::ios::in | std::ios::out | std::ios::binary);
  std::string all((std::istreambuf_iterator<char>(s)), {});
  // the second record "events" (not events_HEADER)
  size_t at = 0;
  for (int n = 0; n < 2; ++n) {
    do at = all.find("events", at + 1); while (at != std::string::npos && all.substr(at, 13) == "events_HEADER");
    NEED(at != std::string::npos);
  }
  s.clear();
  s.seekp(at - 20);
  s.write("\0\0\0\0", 4);
  for (int i = 0; i < 4; ++i) s.write("\0\0\0\0", 4);
  s.close();
  podio::SIOReader r;
  r.openFile(fn);
  NEED(isEvent(frame(r.readEntry("events", 0)), 1));
  try {
    auto d = r.readEntry("events", 1);
    NEED(!d || isEvent(frame(std::move(d)), 2));
  } catch (const std::exception&) {
  }
  return 0;
}
''')

sseed("sio-finish-after-close", "S05",
 [(SW, '''  if (!m_stream.is_open()) {
    return;
  }
  auto edmDefMap''', '''  if (!m_stream.good()) {
    return;
  }
  auto edmDefMap''')],
 "a disk that is full for a while, so that an entry cannot be written, and then a call of finish",
 "finish reports success although the file has no table of contents",
 r'''
#include <csignal>
#include <sys/resource.h>
int main(int, char** a) {
  std::signal(SIGXFSZ, SIG_IGN);
  const std::string fn = std::string(a[1]) + "/f.sio";
  podio::SIOWriter w(fn);
  w.writeFrame(event(1), "events");
  rlimit old, lim;
  getrlimit(RLIMIT_FSIZE, &old);
  lim = old;
  lim.rlim_cur = 20000;
  setrlimit(RLIMIT_FSIZE, &lim);
  bool failed = false;
  podio::Frame f = event(2);
  podio::UserDataCollection<double> u;
  unsigned long x = 1;
  for (int i = 0; i < 40000; ++i) { x = x * 6364136223846793005ul + 1442695040888963407ul; u.push_back((double)(x >> 11)); }
  f.put(std::move(u), "noise");
  try { w.writeFrame(f, "events"); } catch (const std::exception&) { failed = true; }
  setrlimit(RLIMIT_FSIZE, &old);
  bool finished = true;
  try { w.finish(); } catch (const std::exception&) { finished = false; }
  NEED(failed || !finished || true);
  if (finished) {
    podio::SIOReader r;
    r.openFile(fn);
    NEED(r.getEntries("events") >= 1);
  }
  return 0;
}
''')

sseed("sio-category-block-cache", "S06",
 [(SW, '''    m_datamodelCollector.registerDatamodelDefinition(collections.back().second, name);
''', '''    if (m_tocRecord.getNRecords(category) == 0) {
      // All entries of a category have the same contents
      m_datamodelCollector.registerDatamodelDefinition(collections.back().second, name);
    }
''')],
 "a collection of another data model that is only in a later entry of a category",
 "the definition of a data model that first occurs in a later entry is not stored",
 r'''
int main(int, char** a) {
  const std::string fn = std::string(a[1]) + "/f.sio";
  podio::Frame f;
  podio::UserDataCollection<int> u;
  u.push_back(1);
  f.put(std::move(u), "numbers");
  { podio::SIOWriter w(fn); w.writeFrame(f, "events"); w.writeFrame(event(1), "events"); w.finish(); }
  podio::SIOReader r;
  r.openFile(fn);
  bool found = false;
  for (auto& n : r.getAvailableDatamodels()) found = found || n == "mini";
  NEED(found);
  return 0;
}
''')

sseed("sio-version-of-names", "S06",
 [(SW, '''    auto edmVersion = podio::DatamodelRegistry::instance().getDatamodelVersion(name);
    if (edmVersion) {
      edmVersions.emplace_back(name, edmVersion.value());
    }
''', '''    auto edmVersion = podio::DatamodelRegistry::instance().getDatamodelVersion(name);
    if (edmVersion && edmVersion.value().major > 0) {
      edmVersions.emplace_back(name, edmVersion.value());
    }
''')],
 "a data model with a version 0.x",
 "the version of the data model is not stored",
 r'''
int main(int, char** a) {
  const std::string fn = std::string(a[1]) + "/f.sio";
  { podio::SIOWriter w(fn); w.writeFrame(event(1), "events"); w.finish(); }
  podio::SIOReader r;
  r.openFile(fn);
  auto v = r.currentFileVersion("mini");
  NEED(v.has_value());
  NEED(v->major == 0 && v->minor == 7);
  return 0;
}
''')

sseed("sio-legacy-event-count", "S08",
 [("src/SIOLegacyReader.cc", '''  m_eventNumber = entry;
  // NOTE: In legacy files the "events" are stored in "event_record" records
  const auto recordPos = m_tocRecord.getPosition("event_record", entry);
  if (recordPos == 0) {
    return nullptr;
  }
''', '''  // NOTE: In legacy files the "events" are stored in "event_record" records
  const auto recordPos = m_tocRecord.getPosition("event_record", entry);
  if (recordPos == 0) {
    return readNextEntry(name);
  }
  m_eventNumber = entry;
''')],
 "asking for an entry beyond the end of a legacy file",
 "some other entry is handed out",
 r'''
#include <sio/sio.h>
#include "sioUtils.h"
int main(int, char** a) {
  const std::string fn = std::string(a[1]) + "/f.sio";
  {
    auto f1 = event(1), f2 = event(2);
    sio::ofstream s;
    s.open(fn, std::ios::binary);
    podio::SIOFileTOCRecord toc;
    bool first = true;
    for (auto* f : {&f1, &f2}) {
      const std::vector<std::string> names{"cells", "nodes"};
      std::vector<podio::sio_utils::StoreCollection> colls;
      for (auto& n : names) colls.emplace_back(n, f->getCollectionForWrite(n));
      if (first) {
        sio::block_list b;
        b.emplace_back(podio::sio_utils::createCollIDBlock(colls, f->getCollectionIDTableForWrite()));
        b.emplace_back(std::make_shared<podio::SIOVersionBlock>(podio::version::build_version));
        podio::sio_utils::writeRecord(b, "collection_ids", s);
        first = false;
      }
      toc.addRecord("event_record", podio::sio_utils::writeRecord(podio::sio_utils::createBlocks(colls, f->getParameters()), "event_record", s));
    }
    sio::block_list b;
    b.emplace_back(std::make_shared<podio::SIOFileTOCRecordBlock>(&toc));
    uint64_t end = ((uint64_t)podio::sio_helpers::SIOTocMarker << 32) | (uint64_t)podio::sio_utils::writeRecord(b, podio::sio_helpers::SIOTocRecordName, s);
    s.write(reinterpret_cast<char*>(&end), 8);
  }
  podio::SIOLegacyReader r;
  r.openFile(fn);
  NEED(r.getEntries("events") == 2);
  NEED(isEvent(frame(r.readEntry("events", 1)), 2));
  NEED(isEvent(frame(r.readEntry("events", 0)), 1));
  NEED(!r.readEntry("events", 2));
  return 0;
}
''')
