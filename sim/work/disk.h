// A simulated disk: files under /sim/ that std::fstream opens, writes and
// reads (in the real C++ library) end up here instead of in the operating
// system.
#ifndef SIM_DISK_H
#define SIM_DISK_H
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace disk {
struct Write {
  std::string path;
  uint64_t off, len;
};
/// A part of a file that is so big that it only exists in the offsets
struct Gap {
  uint64_t at = 0, len = 0; ///< offset of its begin, as the program sees it
};
struct State {
  std::map<std::string, std::vector<Gap>> gaps; ///< in order of their offsets
  std::map<std::string, std::string> files;
  std::vector<Write> log; ///< all bytes that reached a file, in order
  bool rough = false;     ///< short reads and writes and interrupted calls
  // faults; -1: none
  int64_t space = -1;       ///< bytes that still fit on the disk
  int64_t spaceBack = -1;   ///< failed writes after which there is space again
  int64_t eioWrite = -1;    ///< calls of write until one fails
  int64_t eioWriteN = 1;    ///< how many fail then
  int64_t eioRead = -1;     ///< calls of read until one fails
  int64_t eioClose = -1;    ///< calls of close until one fails
  int64_t openFail = -1;    ///< calls of open until one fails
  uint64_t fired = 0;       ///< faults that happened
  uint64_t firedRead = 0;   ///< those among them in reading
};
State& st();
/// forget the faults that have not happened
void calm();
int openHandles();
/// a gap at the end of a file, all of whose handles are moved behind it
void addGap(const std::string& path, uint64_t len);
} // namespace disk
#endif
