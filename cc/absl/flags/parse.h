// Stand-in, see flag.h.
#pragma once
#include "absl/flags/flag.h"
namespace absl {
inline std::vector<char*> ParseCommandLine(int argc, char** argv) {
  std::vector<char*> rest; if (argc > 0) rest.push_back(argv[0]);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") { rest.insert(rest.end(), argv + i + 1, argv + argc); break; }
    if (a.size() < 2 || a[0] != '-') { rest.push_back(argv[i]); continue; }
    a.erase(0, a[1] == '-' ? 2 : 1); const size_t q = a.find('='); std::string n = a.substr(0, q), v; bool neg = false;
    auto it = flagshim::All().find(n); if (it == flagshim::All().end() && n.rfind("no", 0) == 0) { it = flagshim::All().find(n.substr(2)); neg = true; }
    bool ok = it != flagshim::All().end() && (!neg || it->second.second);
    if (ok) { if (q != std::string::npos) v = a.substr(q + 1); else if (it->second.second) v = neg ? "false" : "true"; else if (i + 1 < argc) v = argv[++i]; else ok = false; }
    if (!ok || !it->second.first(v)) { fprintf(stderr, "ERROR: flag '%s'\n", argv[i]); exit(1); }
  }
  return rest;
}
}  // namespace absl
