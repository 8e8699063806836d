// Reference matchers: every outcome an optimal / a score-greedy matcher may return.
#ifndef MATCHREF_H_
#define MATCHREF_H_
#include <cmath>
#include <functional>
#include <set>
#include <vector>
struct MatchRef {
  int np, ng;
  std::function<bool(int, int)> can;      // positions in the two lists
  std::function<double(int, int)> w;
  std::function<double(int)> score;
  void All(int i, unsigned used, std::vector<int>& cur, double tot, double* best, std::vector<std::vector<int>>* out) const {
    if (i == np) {
      if (tot > *best + 5e-7) { *best = tot; out->clear(); }
      if (std::fabs(tot - *best) <= 5e-7) out->push_back(cur);
      return;
    }
    cur.push_back(-1); All(i + 1, used, cur, tot, best, out); cur.pop_back();
    for (int j = 0; j < ng; ++j) if (!(used >> j & 1) && can(i, j)) { cur.push_back(j); All(i + 1, used | 1u << j, cur, tot + w(i, j), best, out); cur.pop_back(); }
  }
  void Greedy(unsigned done, unsigned used, std::vector<int> cur, std::set<std::vector<int>>* out) const {
    if (done == (1u << np) - 1) { out->insert(cur); return; }
    double top = -1e30;
    for (int i = 0; i < np; ++i) if (!(done >> i & 1)) top = std::max(top, score(i));
    for (int i = 0; i < np; ++i) {
      if (done >> i & 1 || score(i) != top) continue;
      double bw = -1;
      for (int j = 0; j < ng; ++j) if (!(used >> j & 1) && can(i, j)) bw = std::max(bw, w(i, j));
      if (bw < 0) { Greedy(done | 1u << i, used, cur, out); continue; }
      for (int j = 0; j < ng; ++j) if (!(used >> j & 1) && can(i, j) && w(i, j) > bw - 5e-7) { auto c2 = cur; c2[i] = j; Greedy(done | 1u << i, used | 1u << j, c2, out); }
    }
  }
  std::vector<std::vector<int>> Outcomes(bool hungarian) const {
    std::vector<std::vector<int>> r;
    if (hungarian) { std::vector<int> cur; double best = 0; All(0, 0, cur, 0, &best, &r); }
    else { std::set<std::vector<int>> s; Greedy(0, 0, std::vector<int>(np, -1), &s); r.assign(s.begin(), s.end()); }
    return r;
  }
};
#endif
