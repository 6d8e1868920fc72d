import os
_ns = {"seed": lambda *a, **k: None, "HERE": HERE}
exec(compile(open(os.path.join(HERE, "seeds", "c_sio.py")).read(), "c_sio.py", "exec"), _ns)
SIOFILES, SB, SBC, UB, SW, SR = (_ns[k] for k in ("SIOFILES", "SB", "SBC", "UB", "SW", "SR"))
_old = os.path.join(HERE, "seeds", "old.hex")
OLD = {"old.h": 'static const char* oldFile =\n' + "\n".join('"%s"' % l for l in (open(_old).read().split() if os.path.exists(_old) else [""])) + ';\n'}
FORMAT = r'''
#include "siodemo.h"
#include "old.h"
#include <cstring>
#include <fstream>
// with one argument: reads the file that the version before wrote; with two: writes it
int main(int argc, char** a) {
  const std::string fn = std::string(a[1]) + "/f.sio";
  if (argc > 2) {
    podio::SIOWriter w(fn);
    for (int k = 0; k < 3; ++k) {
      auto f = event(k + 1);
      podio::UserDataCollection<uint16_t> u;
      for (int i = 0; i < 5; ++i) u.push_back(i * 1000 + k);
      f.put(std::move(u), "numbers");
      mini::CellNodeCollection l;
      auto x = l.create();
      x.setFrom(f.get<mini::CellCollection>("cells")[1]);
      x.setTo(f.get<mini::NodeCollection>("nodes")[0]);
      x.setWeight(k + 0.5f);
      f.put(std::move(l), "links");
      mini::CellCollection s;
      s.setSubsetCollection();
      s.push_back(f.get<mini::CellCollection>("cells")[2]);
      f.put(std::move(s), "some");
      f.putParameter("d", 2.5 * k);
      f.putParameter("s", std::vector<std::string>{"one", "", "three"});
      w.writeFrame(f, k == 1 ? "other" : "events");
    }
    w.finish();
    return 0;
  }
  std::string bytes;
  for (const char* p = oldFile; *p; p += 2) {
    const char b[] = {p[0], p[1], 0};
    bytes += (char)std::stoi(b, nullptr, 16);
  }
  std::ofstream(fn, std::ios::binary) << bytes;
  try {
    podio::SIOReader r;
    r.openFile(fn);
    NEED(r.getEntries("events") == 2 && r.getEntries("other") == 1 && r.getAvailableCategories().size() == 2);
    NEED(r.getDatamodelDefinition("mini").size() > 10);
    NEED((r.currentFileVersion("mini") == podio::version::Version{0, 7, 1}));
    for (int k = 0; k < 3; ++k) {
      auto f = frame(r.readEntry(k == 1 ? "other" : "events", k / 2));
      NEED(isEvent(f, k + 1));
      auto& u = f.get<podio::UserDataCollection<uint16_t>>("numbers");
      NEED(u.size() == 5);
      for (int i = 0; i < 5; ++i) NEED(u[i] == i * 1000 + k);
      auto& l = f.get<mini::CellNodeCollection>("links");
      NEED(l.size() == 1 && l[0].getWeight() == k + 0.5f);
      NEED(l[0].getFrom() == f.get<mini::CellCollection>("cells")[1] && l[0].getTo() == f.get<mini::NodeCollection>("nodes")[0]);
      auto& s = f.get<mini::CellCollection>("some");
      NEED(s.isSubsetCollection() && s.size() == 1 && s[0] == f.get<mini::CellCollection>("cells")[2]);
      NEED(f.getParameter<double>("d").value() == 2.5 * k);
      NEED(f.getParameter<std::vector<std::string>>("s").value() == (std::vector<std::string>{"one", "", "three"}));
      auto n = f.get<mini::NodeCollection>("nodes")[1];
      NEED(n.getCells().size() == 1 && n.getCells()[0] == f.get<mini::CellCollection>("cells")[1] && n.getCodes(0) == k + 1);
    }
  } catch (const std::exception& x) {
    std::printf("%s\n", x.what());
    return 1;
  }
  return 0;
}
'''


def fseed(id, edits, needs, breaks):
    seed(id, "S10", edits, needs, breaks, FORMAT, "sio", dict(SIOFILES, **OLD))


fseed("format-userdata-in-bytes",
      [(UB, '''    unsigned size(0);
    device.data(size);
    dataVec->resize(size);
    podio::handlePODDataSIO(device, &(*dataVec)[0], size);''', '''    unsigned nBytes(0);
    device.data(nBytes);
    const auto size = nBytes / sizeof(BasicType);
    dataVec->resize(size);
    podio::handlePODDataSIO(device, dataVec->data(), size);'''),
       (UB, '''    unsigned size = dataVec->size();
    device.data(size);
    podio::handlePODDataSIO(device, &(*dataVec)[0], size);''', '''    const auto size = dataVec->size();
    unsigned nBytes = size * sizeof(BasicType);
    device.data(nBytes);
    podio::handlePODDataSIO(device, dataVec->data(), size);''')],
      "user data of more than one byte per value in a file that was written before the change",
      "the length of user data is stored in bytes, so user data of older files are cut short")
fseed("format-parameters-by-type-name",
      [(SBC, '''  writeMapLike(device, params.getMap<int>());
  writeMapLike(device, params.getMap<float>());
  writeMapLike(device, params.getMap<std::string>());
  writeMapLike(device, params.getMap<double>());''', '''  writeMapLike(device, params.getMap<int>());
  writeMapLike(device, params.getMap<float>());
  writeMapLike(device, params.getMap<double>());
  writeMapLike(device, params.getMap<std::string>());'''),
       (SBC, '''  readMapLike(device, params.getMap<std::string>());
  if (version >= sio::version::encode_version(0, 2)) {
    readMapLike(device, params.getMap<double>());
  }''', '''  if (version >= sio::version::encode_version(0, 2)) {
    readMapLike(device, params.getMap<double>());
  }
  readMapLike(device, params.getMap<std::string>());''')],
      "parameters of type double or string in a file that was written before the change",
      "the order of the parameter maps in the file changed without a new version of the block")
fseed("format-definitions-renamed",
      [(SB, '"podio_SIO_EDMDefinitions"', '"podio_SIO_DatamodelDefinitions"')],
      "a file that was written before the change",
      "the record of the data model definitions of older files is not recognised: it shows up as a category, and there are no definitions")
