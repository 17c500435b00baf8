#ifndef SYSDNS_H
#define SYSDNS_H
#include <functional>
#include <map>
#include <string>
#include <vector>
std::map<std::string, std::vector<std::string>> &sysHosts();
// When set, asked first: returns true when it answers, with the error (EAI_*)
// or the addresses and ports.  Called on whichever thread resolves.
using SysHook = std::function<bool(const std::string &, const std::string &, int *, std::vector<std::pair<std::string, int>> *)>;
SysHook &sysHook();
// The same for reverse lookups: the address in text form, the error or the name.
using SysRevHook = std::function<bool(const std::string &, int *, std::string *)>;
SysRevHook &sysRevHook();
#endif
