#ifndef SIM_TKEY_H
#define SIM_TKEY_H
class TObject {
public:
  virtual ~TObject() = default;
};
class TKey : public TObject {
  const char* m_class;

public:
  explicit TKey(const char* c) : m_class(c) {}
  const char* GetClassName() const { return m_class; }
};
#endif
