// The only part of podio that is replaced: the Python subscript hook
#include "podio/detail/Pythonizations.h"
namespace podio::detail::pythonizations {
PyObject* subscript(PyObject*, PyObject*) { return nullptr; }
void pythonize_subscript(PyObject*, const std::string&) {}
}
