// Stand-ins for the ROOT backends: they keep their data in SIO records on the
// simulated disk, so that podio::Reader and podio::Writer have three backends
// to choose from that can be told apart.
#ifndef SIM_ROOTSTUB_H
#define SIM_ROOTSTUB_H
#include "podio/Frame.h"
#include "podio/SIOReader.h"
#include "podio/SIOWriter.h"
#include "podio/utilities/ReaderUtils.h"

#include <algorithm>
#include <cctype>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <ranges>
#include <stdexcept>
#include <string>
#include <vector>

namespace stub {
enum Kind { SIO, TREE, RNT };
/// which backend wrote the file (SIO: not here)
inline std::map<std::string, Kind>& kinds() {
  static auto* m = new std::map<std::string, Kind>;
  return *m;
}
/// readers that exist
inline int& readers(Kind k) {
  static int n[3];
  return n[k];
}

template <Kind K> class Writer {
  podio::SIOWriter m_w;

public:
  Writer(const std::string& filename) : m_w(filename) { kinds()[filename] = K; }
  void writeFrame(const podio::Frame& f, std::string_view category) { m_w.writeFrame(f, category); }
  void writeFrame(const podio::Frame& f, std::string_view category, const std::vector<std::string>& c) { m_w.writeFrame(f, category, c); }
  void finish() { m_w.finish(); }
};
template <Kind K> class Reader {
  std::vector<std::unique_ptr<podio::SIOReader>> m_r;
  std::map<std::string, size_t, std::less<>> m_next;

public:
  Reader() { ++readers(K); }
  ~Reader() { --readers(K); }
  Reader(const Reader&) = delete;
  void openFile(const std::string& f) { openFiles({f}); }
  void openFiles(const std::vector<std::string>& fs) {
    for (auto& f : fs) {
      auto it = kinds().find(f);
      if (it == kinds().end() || it->second != K) throw std::runtime_error("not a file of this backend: " + f);
      m_r.push_back(std::make_unique<podio::SIOReader>());
      m_r.back()->openFile(f);
    }
  }
  std::unique_ptr<podio::SIOFrameData> readEntry(std::string_view name, const unsigned entry, const std::vector<std::string>& c = {}) {
    m_next[std::string(name)] = entry;
    return readNextEntry(name, c);
  }
  std::unique_ptr<podio::SIOFrameData> readNextEntry(std::string_view name, const std::vector<std::string>& c = {}) {
    size_t& nx = m_next[std::string(name)];
    size_t i = nx;
    for (auto& r : m_r) {
      if (i < r->getEntries(name)) {
        auto d = r->readEntry(name, i, c);
        ++nx;
        return d;
      }
      i -= r->getEntries(name);
    }
    return nullptr;
  }
  unsigned getEntries(std::string_view name) const {
    unsigned n = 0;
    for (auto& r : m_r) n += r->getEntries(name);
    return n;
  }
  podio::version::Version currentFileVersion() const { return m_r.front()->currentFileVersion(); }
  std::optional<podio::version::Version> currentFileVersion(std::string_view name) const { return m_r.front()->currentFileVersion(name); }
  std::vector<std::string_view> getAvailableCategories() const {
    std::vector<std::string_view> v;
    for (auto& r : m_r)
      for (auto n : r->getAvailableCategories())
        if (std::ranges::find(v, n) == v.end()) v.push_back(n);
    return v;
  }
  const std::string_view getDatamodelDefinition(std::string_view name) const { return m_r.front()->getDatamodelDefinition(name); }
  std::vector<std::string> getAvailableDatamodels() const { return m_r.front()->getAvailableDatamodels(); }
  std::optional<std::map<std::string, SizeStats>> getSizeStats(std::string_view category) {
    if (!getEntries(category)) return std::nullopt;
    return std::map<std::string, SizeStats>{{std::string(category), {getEntries(category), 2.f}}};
  }
};
} // namespace stub

namespace podio {
using ROOTReader = stub::Reader<stub::TREE>;
using ROOTWriter = stub::Writer<stub::TREE>;
using RNTupleReader = stub::Reader<stub::RNT>;
using RNTupleWriter = stub::Writer<stub::RNT>;
} // namespace podio
#endif
