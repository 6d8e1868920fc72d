seed("json-links-static-buffer", "O07",
 [("include/podio/detail/LinkCollectionImpl.h", '''  j = nlohmann::json::array();
  for (auto&& elem : collection) {
    j.emplace_back(elem);
  }''', '''  // Keep the memory for the next collection
  static nlohmann::json::array_t elements;
  elements.clear();
  elements.reserve(collection.size());
  for (auto&& elem : collection) {
    elements.emplace_back(elem);
  }
  j = elements;''')],
 "two threads converting link collections of the same type to JSON at the same time",
 "the elements are collected in memory that all threads share",
 r'''
#define PODIO_JSON_OUTPUT
#include "nlohmann/json.hpp"
#include "mini/CellCollection.h"
#include "podio/LinkCollection.h"
#include <thread>
int main() {
  mini::CellCollection cells;
  cells.create(), cells.create();
  podio::LinkCollection<mini::Cell, mini::Cell> a, b;
  for (int i = 0; i < 40; ++i) {
    auto l = a.create();
    l.setFrom(cells[0]);
    l.setTo(cells[1]);
    auto m = b.create();
    m.setFrom(cells[1]);
    m.setTo(cells[0]);
  }
  std::size_t na = 0, nb = 0;
  std::thread x([&] { const nlohmann::json j{{"l", a}}; na = j["l"].size(); });
  std::thread y([&] { const nlohmann::json j{{"l", b}}; nb = j["l"].size(); });
  x.join();
  y.join();
  return na != 40 || nb != 40;
}
''', "model-tsan")

seed("sort-to-common-length", "S11",
 [("include/podio/utilities/MiscHelpers.h", '''    return std::lexicographical_compare(
        lhs.begin(), lhs.end(), rhs.begin(), rhs.end(),
        [](const auto& cl, const auto& cr) { return std::tolower(cl) < std::tolower(cr); });''', '''    // Find the first character that is different
    const auto [itL, itR] =
        std::ranges::mismatch(lhs, rhs, [](char cl, char cr) { return std::tolower(cl) == std::tolower(cr); });
    return itL != lhs.end() && itR != rhs.end() && std::tolower(*itL) < std::tolower(*itR);''')],
 "a name that is the beginning of another one, in the wrong order in the file",
 "such names compare as equal, so that they keep their order (and others may be in the wrong order because of them)",
 r'''
#include "podio/utilities/MiscHelpers.h"
int main() {
  const std::vector<std::string> want{"clu", "clu_A", "clu_AB", "Hits"};
  return podio::utils::sortAlphabeticaly({"Hits", "clu_AB", "clu_A", "clu"}) != want;
}
''', "core")
