seed("print-shared-buffer", "O07",
 [("src/GenericParameters.cc", '''  for (const auto& [key, value] : map) {
    os << std::left << std::setw(30) << key << value << '\\n';
  }
''', '''  // Put the lines together first and hand them to the stream in one go
  static std::string lines;
  lines.clear();
  for (const auto& [key, value] : map) {
    std::ostringstream line;
    line.copyfmt(os);
    line << std::left << std::setw(30) << key << value << '\\n';
    lines += line.str();
  }
  os << lines;
'''), ("src/GenericParameters.cc", '''#include <iomanip>
''', '''#include <iomanip>
#include <sstream>
''')],
 "two threads printing the parameters of different Frames at the same time",
 "the text is put together in a buffer that all threads share, while the lock belongs to the parameters that are printed",
 r'''
#include "podio/GenericParameters.h"
#include <sstream>
#include <thread>
#include <vector>
static std::string text(const podio::GenericParameters& p) {
  std::ostringstream s;
  p.print(s);
  return s.str();
}
int main() {
  podio::GenericParameters a, b;
  for (int i = 0; i < 50; ++i) {
    a.set("a" + std::to_string(i), i);
    b.set("b" + std::to_string(i), i);
  }
  std::string sa[2], sb[2];
  std::thread x([&] { for (auto& s : sa) s = text(a); });
  std::thread y([&] { for (auto& s : sb) s = text(b); });
  x.join();
  y.join();
  return sa[0] != sa[1] || sb[0] != sb[1] || sa[0].find("b1") != std::string::npos;
}
''', "core-tsan")

seed("print-id-base", "O07",
 [("include/podio/ObjectID.h", '''  const auto oldFlags = os.flags();
  os << std::hex << std::setw(8) << id.collectionID;
  os.flags(oldFlags);
  return os << "|" << id.index;''', '''  os << std::hex << std::setw(8) << id.collectionID << std::dec;
  return os << "|" << id.index;''')],
 "printing an ID or an object to a stream that is set to hexadecimal (or octal) numbers",
 "the stream is switched to decimal numbers instead of what it was set to before",
 r'''
#include "mini/CellCollection.h"
#include <iostream>
#include <sstream>
int main() {
  mini::CellCollection c;
  c.create();
  for (auto base : {std::ios_base::hex, std::ios_base::oct, std::ios_base::dec}) {
    std::ostringstream s;
    s.setf(base, std::ios_base::basefield);
    const auto before = s.flags();
    s << c[0];
    if (s.flags() != before) return 1;
    s << c;
    if (s.flags() != before) return 1;
  }
  return 0;
}
''', "model")

seed("print-userdata-last-line", "O07",
 [("include/podio/UserDataCollection.h", '''      for (size_t i = 1; i < _vec.size(); ++i) {
        os << ", " << _vec[i];
      }''', '''      for (size_t i = 1; i < _vec.size(); ++i) {
        // Keep the lines readable
        if (i % 100 == 0) {
          os << ",\\n ";
          continue;
        }
        os << ", " << _vec[i];
      }''')],
 "printing user data with more than a hundred values",
 "every hundredth value is replaced by a line break",
 r'''
#include "podio/UserDataCollection.h"
#include <cstdint>
#include <sstream>
int main() {
  podio::UserDataCollection<int32_t> c;
  for (int i = 0; i < 1000; ++i) c.push_back(100000 + i);
  std::ostringstream s;
  s << c;
  for (int i = 0; i < 1000; ++i)
    if (s.str().find(std::to_string(100000 + i)) == std::string::npos) return 1;
  return 0;
}
''', "core")

seed("print-link-untracked", "O07",
 [("include/podio/detail/LinkCollectionImpl.h", '''    o << el.getTo().id() << std::endl;''', '''    const auto to = el.getTo();
    o << (to.isAvailable() ? to.id() : el.getFrom().id()) << std::endl;''')],
 "printing a collection of links that refer to objects whose collection has not been read or is not set",
 "the ID of the other end is printed instead",
 r'''
#include "mini/CellCollection.h"
#include "mini/CellNodeCollection.h"
#include "mini/NodeCollection.h"
#include <sstream>
#include <iostream>
int main() {
  mini::CellCollection cells;
  cells.setID(0x1234);
  auto cell = cells.create();
  mini::CellNodeCollection links;
  auto l = links.create();
  l.setFrom(cell);
  std::ostringstream s, to;
  s << links;
  std::cout << s.str();
  // the other end is not set
  return s.str().find("to : ") == std::string::npos || s.str().find("1234", s.str().find("to : ")) != std::string::npos;
}
''', "model")
