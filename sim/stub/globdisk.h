#ifndef SIM_GLOBDISK_H
#define SIM_GLOBDISK_H
#include <set>
#include <string>
namespace globdisk {
/// directories that cannot be opened
std::set<std::string>& closed();
/// how many calls of glob fail for lack of memory from now on: n-th (-1: none)
int& nospace();
} // namespace globdisk
#endif
