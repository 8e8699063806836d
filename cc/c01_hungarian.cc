// C01: the assignment solver returns a perfect matching of maximum total weight.
#include "mc.h"
#include "waymo_open_dataset/metrics/hungarian.h"
using waymo::open_dataset::Hungarian;

// Reference: maximum total weight. Bitmask dynamic programme (n<=12), otherwise
// successive shortest augmenting paths on potentials in 64-bit arithmetic.
static int64_t BestDP(int n, const std::vector<int>& w) {
  std::vector<int64_t> d(1 << n, -1);
  d[0] = 0;
  for (int m = 0; m < (1 << n); ++m) {
    if (d[m] < 0) continue;
    int i = __builtin_popcount(m);
    if (i == n) continue;
    for (int j = 0; j < n; ++j)
      if (!(m >> j & 1)) d[m | 1 << j] = std::max<int64_t>(d[m | 1 << j], d[m] + w[i * n + j]);
  }
  return d[(1 << n) - 1];
}
static int64_t BestSSP(int n, const std::vector<int>& w) {
  const int64_t inf = INT64_MAX / 4;
  std::vector<int64_t> u(n + 1), v(n + 1);
  std::vector<int> p(n + 1), way(n + 1);
  for (int i = 1; i <= n; ++i) {
    p[0] = i;
    int j0 = 0;
    std::vector<int64_t> minv(n + 1, inf);
    std::vector<char> used(n + 1, 0);
    do {
      used[j0] = 1;
      int i0 = p[j0], j1 = 0;
      int64_t delta = inf;
      for (int j = 1; j <= n; ++j)
        if (!used[j]) {
          int64_t cur = -(int64_t)w[(i0 - 1) * n + j - 1] - u[i0] - v[j];
          if (cur < minv[j]) minv[j] = cur, way[j] = j0;
          if (minv[j] < delta) delta = minv[j], j1 = j;
        }
      for (int j = 0; j <= n; ++j)
        if (used[j]) u[p[j]] += delta, v[j] -= delta; else minv[j] -= delta;
      j0 = j1;
    } while (p[j0]);
    do { int j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while (j0);
  }
  int64_t t = 0;
  for (int j = 1; j <= n; ++j) t += w[(p[j] - 1) * n + j - 1];
  return t;
}

static void Check(mc::Ctx& c, int n, const std::vector<int>& w) {
  const std::vector<int> before = w;
  std::vector<int> perm(n + 2, -77), lx(n + 2, -5), ly(n + 2, -5), perm2(n + 2, -99);
  auto d = [&] { return "n=" + std::to_string(n) + " w=" + mc::Str(w); };
  c.step(2);
  Hungarian(n, w.data(), perm.data() + 1, lx.data() + 1, ly.data() + 1);
  Hungarian(n, w.data(), perm2.data() + 1);
  int64_t best = n <= 10 ? BestDP(n, w) : BestSSP(n, w);
  auto total = [&](const std::vector<int>& p, const char* which) -> int64_t {
    if (p[0] != p[n + 1]) { c.fail("bounds", std::string(which) + " wrote outside its n outputs; " + d()); return -1; }
    std::vector<char> seen(n, 0);
    int64_t t = 0;
    for (int i = 0; i < n; ++i) {
      int j = p[i + 1];
      if (j < 0 || j >= n || seen[j]) { c.fail("not-permutation", std::string(which) + " result is not a permutation " + mc::Str(p) + "; " + d()); return -1; }
      seen[j] = 1;
      t += w[i * n + j];
    }
    return t;
  };
  int64_t a = total(perm, "labelled"), b = total(perm2, "plain");
  if (a >= 0 && a != best) c.fail("not-optimal", "total " + std::to_string(a) + " but optimum is " + std::to_string(best) + "; " + d());
  if (b >= 0 && b != best) c.fail("not-optimal", "total " + std::to_string(b) + " but optimum is " + std::to_string(best) + "; " + d());
  int64_t sum = 0;
  for (int i = 0; i < n; ++i) {
    sum += (int64_t)lx[i + 1] + ly[i + 1];
    for (int j = 0; j < n; ++j)
      if ((int64_t)lx[i + 1] + ly[j + 1] < w[i * n + j]) { c.fail("labels", "labelling not feasible; " + d()); return; }
  }
  if (sum != best) c.fail("labels", "labelling sum " + std::to_string(sum) + " is not the optimum " + std::to_string(best) + "; " + d());
  if (w != before) c.fail("mutates", "input changed; " + d());
  uint64_t h = n;
  for (int x : w) h = mc::Mix(h, x);
  c.state(mc::Mix(h, best));
  int ident = 1;
  for (int i = 0; i < n; ++i) ident &= perm[i + 1] == i;
  c.outcome("n=" + std::to_string(n) + (ident ? " identity" : " permuted"));
  c.sample([&] { return d() + " -> " + mc::Str(perm) + " total " + std::to_string(best); });
}

static void Full(mc::Main& m, const std::string& name, int n, std::vector<int> vals) {
  m.family(name, "all " + std::to_string(n) + "x" + std::to_string(n) + " matrices over " + mc::Str(vals), [=](mc::Ctx& c) {
    std::vector<int> w(n * n);
    for (auto& x : w) x = c.pick(vals);
    if (!c.go()) return;
    Check(c, n, w);
  });
}

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  Full(m, "1x1", 1, {0, 1, 2, 7, 1000000, 1073741823});
  Full(m, "2x2", 2, {0, 1, 2, 3, 4, 5});
  Full(m, "2x2 large weights", 2, {0, 1, 999999, 1000000, 536870912, 1073741823});
  Full(m, "3x3", 3, {0, 1, 2, 3});
  Full(m, "3x3 quantised IoU", 3, {0, 300000, 999999, 1000000});
  Full(m, "4x4 binary", 4, {0, 1});
  if (m.thorough()) Full(m, "4x4 ternary", 4, {0, 1, 2});
  // 4x4 .. 6x6 built from all rows of a small row alphabet.
  for (int n = 4; n <= (m.thorough() ? 7 : 6); ++n) {
    m.family("rows " + std::to_string(n), "every sequence of n rows from 8 row shapes (zero, flat, ramp up/down, spikes)", [=](mc::Ctx& c) {
      std::vector<int> w;
      for (int i = 0; i < n; ++i) {
        int k = c.choose(n <= 5 ? 8 : 7);
        for (int j = 0; j < n; ++j) {
          int v = 0;
          switch (k) {
            case 0: v = 0; break;
            case 1: v = j; break;
            case 2: v = n - j; break;
            case 3: v = j == 0 ? 9 : 0; break;
            case 4: v = j == n - 1 ? 9 : 1; break;
            case 5: v = (j * 3) % n + 2; break;
            case 6: v = j < 2 ? 7 : 3; break;
            case 7: v = 5; break;
          }
          w.push_back(v);
        }
      }
      if (!c.go()) return;
      Check(c, n, w);
    });
  }
  m.family("modular matrices", "w[i][j]=(a*i*j+b*i+c*j+d*(i+j)^2) mod M, all parameters, n in 2..12,16,33,64,130,260", [](mc::Ctx& c) {
    int n = c.pick(std::vector<int>{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 33, 64, 130, 260});
    int M = c.pick(std::vector<int>{2, 3, 5, 7, 11, 13, 97, 1009, 1000001});
    int lim = n >= 130 ? 1 : n >= 33 ? 2 : 4;
    int a = c.choose(lim) * 5 + 1, b = c.choose(lim) * 7, cc = c.choose(lim) * 3, dd = c.choose(lim) * 11;
    int sparse = c.choose(3);  // 0: dense, 1: values below M/2 become 0 (not matchable), 2: rectangular (last third of rows zero)
    if (!c.go()) return;
    std::vector<int> w(n * n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        int64_t v = ((int64_t)a * i * j + b * i + cc * j + (int64_t)dd * (i + j) * (i + j) + i * i * 17) % M;
        if (sparse == 1 && v < M / 2) v = 0;
        if (sparse == 2 && i >= n - n / 3) v = 0;
        w[i * n + j] = v;
      }
    Check(c, n, w);
  });
  return m.run();
}
