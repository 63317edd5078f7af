// Happens-before detector for unordered conflicting accesses to library containers and smart pointers of the code under
// test (shared by the symbolic run and the native replay).
#pragma once
#include <array>
#include <map>
#include <unordered_map>
#include <vector>
#include <stdint.h>
struct Race {
  typedef std::array<uint32_t, 12> VC; struct Acc { int wt = -1; uint32_t wc = 0; VC r{}; };
  std::vector<VC> th; std::vector<bool> all; std::vector<int> ctx; std::unordered_map<uint64_t, VC> sync; std::map<uint64_t, Acc> mem;
  Race() { grow(0); }
  void grow(int t) { while ((int)th.size() <= t) { VC v{}; v[th.size()] = 1; th.push_back(v); all.push_back(false); ctx.push_back(0); } }
  static void join(VC& a, const VC& b) { for (size_t i = 0; i < a.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
  void settle(int t) { grow(t); if (all[t]) { all[t] = false; for (auto& v : th) join(th[t], v); } }
  void acq(int t, uint64_t a) { settle(t); auto i = sync.find(a); if (i != sync.end()) join(th[t], i->second); }
  void rel(int t, uint64_t a) { settle(t); join(sync.emplace(a, VC{}).first->second, th[t]); th[t][t]++; }
  void create(int p, int c) { grow(c); settle(p); join(th[c], th[p]); th[p][p]++; }
  void acqAll(int t) { grow(t); all[t] = true; }
  void barrier() { VC m{}; for (auto& v : th) join(m, v); for (size_t i = 0; i < th.size(); i++) { th[i] = m; th[i][i]++; all[i] = false; } mem.clear(); }
  void freed(uint64_t a, uint64_t n) { mem.erase(mem.lower_bound(a), mem.lower_bound(a + n)); }
  bool access(int t, uint64_t a, bool st) { settle(t); Acc& x = mem[a]; bool bad = x.wt >= 0 && x.wt != t && x.wc > th[t][x.wt];
    if (st) { for (size_t i = 0; i < th.size(); i++) if ((int)i != t && x.r[i] > th[t][i]) bad = true; x.wt = t; x.wc = th[t][t]; x.r = VC{}; } else x.r[t] = th[t][t]; return bad; }
};
