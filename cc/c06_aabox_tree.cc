// C06: AABox2dTree::CollectOverlaps against a linear scan over all pairs.
#include "mc.h"
#include "waymo_open_dataset/math/aabox2d.h"
using waymo::open_dataset::AABox2d;
using waymo::open_dataset::AABox2dTree;
// Box by its corners in integer grid units (scaled by 1/2: all values dyadic).
struct B { int x0, y0, x1, y1; };
static bool Hit(const B& a, const B& b) { return a.x0 <= b.x1 && b.x0 <= a.x1 && a.y0 <= b.y1 && b.y0 <= a.y1; }
template <typename T> static AABox2d<T> Mk(const B& b, T unit) { AABox2d<T> r; r.Init(b.x0 * unit, b.y0 * unit, b.x1 * unit, b.y1 * unit); return r; }
static std::string Show(const std::vector<B>& v) {
  std::ostringstream o; o << v.size() << " boxes";
  for (size_t i = 0; i < v.size() && i < 12; ++i) o << " (" << v[i].x0 << "," << v[i].y0 << "-" << v[i].x1 << "," << v[i].y1 << ")";
  if (v.size() > 12) o << " ...";
  return o.str();
}
template <typename T> struct Tree {
  AABox2dTree<T> t;
  std::vector<B> bs;
  std::vector<int> hits;
  void Build(const std::vector<B>& v, T unit) { std::vector<AABox2d<T>> x; for (auto& b : v) x.push_back(Mk<T>(b, unit)); t.BuildTree(x); bs = v; }
  // queries every index; out vector keeps its previous contents
  void Check(mc::Ctx& c, const std::string& what, const std::vector<int>& order) {
    for (int q : order) {
      t.CollectOverlaps(q, &hits); c.step();
      std::vector<int> w, h = hits; std::sort(h.begin(), h.end());
      for (int i = 0; i < (int)bs.size(); ++i) if (i != q && Hit(bs[i], bs[q])) w.push_back(i);
      if (h != w) { c.fail("overlaps", what + Show(bs) + " query " + std::to_string(q) + " got " + mc::Str(h) + " want " + mc::Str(w)); return; }
    }
  }
  void CheckAll(mc::Ctx& c, const std::string& what) { std::vector<int> o; for (size_t i = 0; i < bs.size(); ++i) o.push_back(i); Check(c, what, o); }
};
static uint64_t H(const std::vector<B>& v) { uint64_t h = v.size(); for (auto& b : v) h = mc::Mix(h, b.x0 + 64 * b.y0 + 4096 * b.x1 + (b.y1 << 18)); return h; }

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  std::vector<B> grid;
  for (int x0 = 0; x0 < 3; ++x0) for (int x1 = x0; x1 < 3; ++x1) for (int y0 = 0; y0 < 3; ++y0) for (int y1 = y0; y1 < 3; ++y1) grid.push_back({x0, y0, x1, y1});
  m.family("small collections", "every sequence of 1..3 boxes over the 36 boxes (incl. degenerate) of a 3x3 grid, double and float", [=](mc::Ctx& c) {
    int n = 1 + c.choose(3); std::vector<B> v; for (int i = 0; i < n; ++i) v.push_back(c.pick(grid));
    if (!c.go()) return;
    Tree<double> t; t.Build(v, 0.5); t.CheckAll(c, "double ");
    Tree<float> f; f.Build(v, 0.5f); f.CheckAll(c, "float ");
    c.state(H(v)); c.sample([&] { return Show(v); });
  });
  const int maxn = th ? 8 : 7;
  m.family("split collections", "every sequence of 5..7 (thorough 8) boxes (so that the tree splits) over 5 boxes: 4 of them touching in a row or column plus one long bar", [=](mc::Ctx& c) {
    int n = 5 + c.choose(maxn - 4), dir = c.choose(2); std::vector<B> v;
    for (int i = 0; i < n; ++i) { int k = c.choose(5); B b = k == 4 ? B{1, 0, 4, 1} : B{k, 0, k + (k == 2 ? 0 : 1), 1}; if (dir) b = B{b.y0, b.x0, b.y1, b.x1}; v.push_back(b); }
    if (!c.go()) return;
    Tree<double> t; t.Build(v, 0.5); t.CheckAll(c, "");
    c.state(H(v)); c.sample([&] { return Show(v); });
  });
  static const int kShapes = 10;
  auto shape = [](int s, int n) {
    std::vector<B> v;
    for (int i = 0; i < n; ++i) {
      switch (s) {
        case 0: v.push_back({i, 0, i + 1, 1}); break;                              // row, touching
        case 1: v.push_back({0, 2 * i, 1, 2 * i + 1}); break;                      // column, gaps
        case 2: v.push_back({i, i, i + 2, i + 2}); break;                          // diagonal, overlapping
        case 3: v.push_back({0, 0, 1, 1}); break;                                  // identical
        case 4: v.push_back({-i, -i, i, i}); break;                                // nested
        case 5: v.push_back({i % 7 * 2, i / 7 * 2, i % 7 * 2 + 2, i / 7 * 2 + 2}); break;   // tiling (corner touch)
        case 6: v.push_back(i % 2 ? B{0, i, 40, i} : B{i, 0, i, 40}); break;       // cross hatch of degenerate boxes
        case 7: v.push_back({i * 37 % 61, i * 23 % 53, i * 37 % 61 + i % 5, i * 23 % 53 + i % 4}); break;   // scattered
        case 8: v.push_back({i / 4 * 3, 0, i / 4 * 3 + 3, 1 + i % 4}); break;      // repeated touching groups
        default: v.push_back(i == 0 ? B{-5, -5, 400, 5} : B{3 * i, i % 3 - 1, 3 * i + 1, i % 3}); // one covering bar
      }
    }
    return v;
  };
  const int big = th ? 300 : 120;
  m.family("sizes", "10 structured shapes x every size 1..120 (thorough 300) x 4 insertion orders (forward, reversed, interleaved, rotated), every index queried", [=](mc::Ctx& c) {
    int s = c.choose(kShapes), n = 1 + c.choose(big), o = c.choose(4);
    if (!c.go()) return;
    auto a = shape(s, n); std::vector<B> v;
    if (o == 1) std::reverse(a.begin(), a.end());
    if (o == 2) { for (size_t i = 0; i < a.size(); i += 2) v.push_back(a[i]); for (size_t i = 1; i < a.size(); i += 2) v.push_back(a[i]); a = v; }
    if (o == 3) std::rotate(a.begin(), a.begin() + a.size() / 3, a.end());
    Tree<double> t; t.Build(a, 0.5); t.CheckAll(c, "shape " + std::to_string(s) + " order " + std::to_string(o) + " ");
    c.state(H(a)); c.outcome(n < 5 ? "single leaf" : n < 10 ? "one split" : n < 40 ? "2-3 levels" : "deep"); c.sample([&] { return Show(a); });
  });
  const int depth = th ? 5 : 4;
  m.family("histories", "every sequence of 4 (thorough 5) operations on one index over 8 operations: rebuild with one of 5 collections (incl. empty, smaller, larger) or query first/last/all; the result vector is reused", [=](mc::Ctx& c) {
    std::vector<int> ops; for (int i = 0; i < depth; ++i) ops.push_back(c.choose(8));
    if (!c.go()) return;
    Tree<double> t; std::string d;
    for (int o : ops) {
      d += "op" + std::to_string(o) + " ";
      switch (o) {
        case 0: t.Build({}, 0.5); break;
        case 1: t.Build(shape(0, 3), 0.5); break;
        case 2: t.Build(shape(5, 30), 0.5); break;
        case 3: t.Build(shape(7, 11), 0.5); break;
        case 4: t.Build(shape(2, 6), 0.25); break;
        case 5: if (!t.bs.empty()) t.Check(c, d, {0}); break;
        case 6: if (!t.bs.empty()) t.Check(c, d, {(int)t.bs.size() - 1}); break;
        default: t.CheckAll(c, d);
      }
      c.step();
    }
    // copies are independent
    Tree<double> u = t; t.Build(shape(3, 7), 0.5); u.CheckAll(c, d + "copy "); t.CheckAll(c, d + "original ");
    c.state(d); c.sample([&] { return d; });
  });
  m.family("decimal coordinates", "rows of 5..12 boxes at multiples of 0.1, 0.7, 1/3 or 1e6+0.1 with touching, nearly touching or separated edges; the pairwise predicate of the boxes is the reference", [=](mc::Ctx& c) {
    const double U[4] = {0.1, 0.7, 1.0 / 3, 0.1}; int u = c.choose(4), n = 5 + c.choose(8), w = 1 + c.choose(3), o = c.choose(3), off = c.choose(40), ax = c.choose(2);
    if (!c.go()) return;
    std::vector<AABox2d<double>> v;
    double base = (u == 3 ? 1e6 : 0) + off * U[u];
    for (int i = 0; i < n; ++i) {
      int k = o == 0 ? i : o == 1 ? n - 1 - i : i * 5 % n;
      double lo = base + k * U[u], hi = base + (k + w) * U[u];
      AABox2d<double> b; if (ax) b.Init(0, lo, 1, hi); else b.Init(lo, 0, hi, 1); v.push_back(b);
    }
    AABox2dTree<double> t; t.BuildTree(v);
    for (int q = 0; q < n; ++q) {
      std::vector<int> h, want; t.CollectOverlaps(q, &h); std::sort(h.begin(), h.end()); c.step();
      for (int i = 0; i < n; ++i) if (i != q && v[q].Overlap(v[i])) want.push_back(i);
      // overlaps that are not mere rounding-level contact
      auto solid = [&](int i) { double d = std::max(std::fabs(v[q].cx() - v[i].cx()) - v[q].hx() - v[i].hx(), std::fabs(v[q].cy() - v[i].cy()) - v[q].hy() - v[i].hy()); return d < -1e-9 * (1 + std::fabs(base)); };
      for (int i = 0; i < n; ++i) if (i != q) {
        bool in = std::binary_search(h.begin(), h.end(), i), w2 = std::binary_search(want.begin(), want.end(), i);
        if (in && !w2) c.fail("invented", "unit " + std::to_string(U[u]) + " n " + std::to_string(n) + " query " + std::to_string(q));
        // contact at rounding level (1 ulp) is decided by noise in the union of the bounds: either answer is accepted
        if (!in && w2 && solid(i)) c.fail("overlaps", "unit " + std::to_string(U[u]) + " n " + std::to_string(n) + " w " + std::to_string(w) + " off " + std::to_string(off) + " query " + std::to_string(q) + " got " + mc::Str(h) + " want " + mc::Str(want));
        if (!in && w2) c.outcome("rounding-level contact dropped");
      }
    }
    c.state(mc::Mix(mc::Mix(u * 1000 + n, w * 10 + o), off * 2 + ax)); c.sample([&] { return std::string("decimal row of ") + std::to_string(n); });
  });
  return m.run();
}
