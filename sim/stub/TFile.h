#ifndef SIM_TFILE_H
#define SIM_TFILE_H
#include "disk.h"
#include "rootstub.h"
#include "TKey.h"
using TList = std::vector<TObject*>;
class TFile : public TObject {
  TKey m_other{"TTree"}, m_key;
  TList m_keys;

public:
  explicit TFile(const char* name) : m_key(stub::kinds().count(name) && stub::kinds()[name] == stub::RNT ? "ROOT::RNTuple" : "TTree") {
    m_keys = {&m_other, &m_key};
  }
  static TFile* Open(const char* name, const char* = "") { return disk::st().files.count(name) ? new TFile(name) : nullptr; }
  TList* GetListOfKeys() { return &m_keys; }
  bool IsZombie() const { return false; }
  bool IsOpen() const { return true; }
  void Close() {}
};
#endif
