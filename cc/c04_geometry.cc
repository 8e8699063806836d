// C04: planar geometry (polygons, segments, oriented and axis-aligned boxes, angles).
#include "mc.h"
#include "wod.h"
#include "waymo_open_dataset/math/aabox2d.h"
#include "waymo_open_dataset/math/box2d.h"
#include "waymo_open_dataset/math/math_util.h"
#include "waymo_open_dataset/math/polygon2d.h"
#include "waymo_open_dataset/math/segment2d.h"
#include "waymo_open_dataset/math/vec2d.h"
#include "waymo_open_dataset/math/vec3d.h"
using namespace waymo::open_dataset;
using D = std::vector<double>;
using Poly = std::vector<Pt>;
static std::string S(const Poly& p) { std::ostringstream o; o.precision(17); for (auto& q : p) o << "(" << (double)q.x << "," << (double)q.y << ")"; return o.str(); }
static std::vector<Vec2d> V(const Poly& p) { std::vector<Vec2d> r; for (auto& q : p) r.push_back(Vec2d((double)q.x, (double)q.y)); return r; }
static LD Cr(Pt a, Pt b, Pt c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static Pt Rot(Pt p, LD a) { return {p.x * cosl(a) - p.y * sinl(a), p.x * sinl(a) + p.y * cosl(a)}; }
// All convex polygons (counter-clockwise, each starting at every vertex is a separate start offset) on an n x n grid.
static std::vector<Poly> Convex(int n, int maxv) {
  std::vector<Pt> g;
  for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) g.push_back({(LD)x, (LD)y});
  std::vector<Poly> out;
  std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& cur) {
    if (cur.size() >= 3) {
      Poly p; for (int i : cur) p.push_back(g[i]);
      bool ok = true; LD tot = 0;
      for (size_t i = 0; i < p.size(); ++i) {
        if (Cr(p[i], p[(i + 1) % p.size()], p[(i + 2) % p.size()]) < 0) ok = false;
        for (size_t j = 0; j < p.size() && ok; ++j) if (Cr(p[i], p[(i + 1) % p.size()], p[j]) < 0) ok = false;
      }
      tot = PolyArea(p);
      // reject backtracking degenerate vertices
      for (size_t i = 0; i < p.size() && ok; ++i) {
        Pt a = p[i], b = p[(i + 1) % p.size()], c = p[(i + 2) % p.size()];
        if (Cr(a, b, c) == 0 && (b.x - a.x) * (c.x - b.x) + (b.y - a.y) * (c.y - b.y) <= 0) ok = false;
      }
      if (ok && tot > 0) out.push_back(p);
    }
    if ((int)cur.size() == maxv) return;
    for (int i = cur[0] + 1; i < (int)g.size(); ++i) {
      if (std::find(cur.begin(), cur.end(), i) != cur.end()) continue;
      if (cur.size() >= 2 && Cr(g[cur[cur.size() - 2]], g[cur.back()], g[i]) < 0) continue;
      cur.push_back(i); rec(cur); cur.pop_back();
    }
  };
  for (int i = 0; i < (int)g.size(); ++i) { std::vector<int> c = {i}; rec(c); }
  return out;
}
static LD InterArea(const Poly& a, const Poly& b) { auto c = Clip(a, b); return c.size() < 3 ? 0 : PolyArea(c); }
static void CheckPair(mc::Ctx& c, const Poly& a, const Poly& b, double tol) {
  Polygon2d P(V(a)), Q(V(b));
  c.step(3);
  LD want = InterArea(a, b);
  double pq = P.ComputeIntersectionArea(Q), qp = Q.ComputeIntersectionArea(P);
  auto d = [&] { std::ostringstream o; o.precision(12); o << S(a) << " & " << S(b) << " area " << pq << "/" << qp << " want " << (double)want; return o.str(); };
  if (!(std::fabs(pq - (double)want) <= tol) || !(std::fabs(qp - (double)want) <= tol)) c.fail("intersection-area", d());
  bool may = P.MaybeHasIntersectionWith(Q), may2 = Q.MaybeHasIntersectionWith(P);
  if (want > tol && (!may || !may2)) c.fail("maybe-intersects", d());
  c.outcome(want == 0 ? "disjoint or touching" : std::fabs((double)(want - std::min(PolyArea(a), PolyArea(b)))) < 1e-9 ? "contained" : "partial");
  c.state(d()); c.sample(d);
}

// ---- the reference shape of the history families: plain endpoints
struct RSeg { Pt a, b; };
static RSeg MapSeg(const RSeg& s, Pt ctr, LD ang, Pt shift) {
  auto f = [&](Pt p) { Pt q = Rot({p.x - ctr.x, p.y - ctr.y}, ang); return Pt{q.x + ctr.x + shift.x, q.y + ctr.y + shift.y}; };
  return {f(s.a), f(s.b)};
}
static LD Len(const RSeg& s) { return hypotl(s.b.x - s.a.x, s.b.y - s.a.y); }
static bool AngEq(LD a, LD b) { LD d = fmodl(a - b, 2 * M_PIl); if (d > M_PIl) d -= 2 * M_PIl; if (d < -M_PIl) d += 2 * M_PIl; return fabsl(d) < 1e-7; }
static Pt P2(Vec2d v) { return {v.x(), v.y()}; }
static bool PtEq(Vec2d v, Pt p, double tol = 1e-7) { return std::fabs(v.x() - (double)p.x) < tol && std::fabs(v.y() - (double)p.y) < tol; }
static LD SegDist(const RSeg& s, Pt q) {
  LD l2 = (s.b.x - s.a.x) * (s.b.x - s.a.x) + (s.b.y - s.a.y) * (s.b.y - s.a.y);
  LD t = l2 > 0 ? ((q.x - s.a.x) * (s.b.x - s.a.x) + (q.y - s.a.y) * (s.b.y - s.a.y)) / l2 : 0;
  t = std::max<LD>(0, std::min<LD>(1, t));
  return hypotl(q.x - s.a.x - t * (s.b.x - s.a.x), q.y - s.a.y - t * (s.b.y - s.a.y));
}
// Compares every derived value of a segment with the one computed from its endpoints.
static std::string CheckSeg(const Segment2d& s, const RSeg& r) {
  std::ostringstream o; o.precision(12);
  if (!PtEq(s.start(), r.a) || !PtEq(s.end(), r.b)) { o << "endpoints " << s.DebugString() << " want " << S({r.a, r.b}); return o.str(); }
  const LD L = Len(r);
  if (std::fabs(s.length() - (double)L) > 1e-7) { o << "length " << s.length() << " want " << (double)L; return o.str(); }
  if (std::fabs(s.Sqr() - (double)(L * L)) > 1e-6) return "squared length";
  if (L > 1e-6 && std::fabs(s.inv_length() - (double)(1 / L)) > 1e-7) return "inverse length";
  if (!PtEq(s.center(), {(r.a.x + r.b.x) / 2, (r.a.y + r.b.y) / 2})) return "center";
  if (L > 1e-6) {
    const LD h = atan2l(r.b.y - r.a.y, r.b.x - r.a.x);
    if (!AngEq(s.heading(), h)) { o << "heading " << s.heading() << " want " << (double)h; return o.str(); }
    if (std::fabs(s.cos_heading() - (double)cosl(h)) > 1e-7 || std::fabs(s.sin_heading() - (double)sinl(h)) > 1e-7) return "cos/sin of heading";
    double cs = 9, sn = 9; s.trig_heading(&cs, &sn);
    if (std::fabs(cs - (double)cosl(h)) > 1e-7 || std::fabs(sn - (double)sinl(h)) > 1e-7) return "trig_heading";
    if (!PtEq(s.Tangent(), {cosl(h), sinl(h)}) || !PtEq(s.PerpUnit(), {-sinl(h), cosl(h)})) return "tangent/perpendicular";
  }
  for (Pt q : {Pt{.3L, -1.7L}, Pt{4, 4}, Pt{-2, .5L}}) {
    if (std::fabs(std::sqrt(s.DistanceSqrToPoint(Vec2d((double)q.x, (double)q.y))) - (double)SegDist(r, q)) > 1e-6) return "distance to point";
    double pd; auto side = s.SideOfPoint(Vec2d((double)q.x, (double)q.y), &pd);
    LD cr = Cr(r.a, r.b, q);
    if (fabsl(cr) > 1e-6 && side != (cr > 0 ? Segment2d::ON_LEFT_SIDE : Segment2d::ON_RIGHT_SIDE)) return "side of point";
    if (L > 1e-6 && std::fabs(pd - (double)(-cr / L)) > 1e-6) return "signed distance";
  }
  Vec2d pt; bool in = s.Sample(1.25, &pt);
  if (L > 1e-6) { if (fabsl(L - 1.25L) > 1e-6 && in != (1.25L < L)) return "sample flag"; if (!PtEq(pt, {r.a.x + (r.b.x - r.a.x) * 1.25L / L, r.a.y + (r.b.y - r.a.y) * 1.25L / L})) return "sample point"; }
  return "";
}

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  static const std::vector<Poly> tri = Convex(3, 3), all3 = Convex(3, 8), p4 = Convex(4, 4);
  m.family("polygon pairs on a grid", "all ordered pairs of convex polygons (collinear vertices allowed) with vertices on a 3x3 grid, the second shifted by 9 offsets", [=](mc::Ctx& c) {
    int i = c.choose(all3.size()), j = c.choose(all3.size());
    int dx = c.choose(3), dy = c.choose(3);
    if (!c.go()) return;
    Poly a = all3[i], b = all3[j];
    const LD off[3] = {0, .5L, -1};
    for (auto& q : b) q.x += off[dx], q.y += off[dy];
    CheckPair(c, a, b, 1e-9);
  });
  m.family("rotated polygon pairs", "convex triangles/quads on a 4x4 grid (every 9th x every 31st; thorough 3rd x 7th) rotated by 6 angles at 3 translations", [=](mc::Ctx& c) {
    const int s1 = th ? 3 : 9, s2 = th ? 7 : 31;
    int i = c.choose((p4.size() + s1 - 1) / s1), j = c.choose((p4.size() + s2 - 1) / s2);
    int ai = c.choose(6); double tr = c.pick(D{0, 100, -20000});
    if (!c.go()) return;
    const LD ang[6] = {0, .1L, M_PIl / 4, M_PIl / 2, 2.3L, M_PIl};
    Poly a = p4[i * s1], b = p4[j * s2];
    // coordinates are rounded to double first so that both sides see the same polygon
    for (auto& q : a) { q = Rot(q, .2L * ai); q = {(double)(q.x + tr), (double)(q.y - tr)}; }
    for (auto& q : b) { q = Rot({q.x - 1.5L, q.y - 1.5L}, ang[ai] + .2L * ai); q = {(double)(q.x + 1.5L + tr), (double)(q.y + 1.5L - tr)}; }
    CheckPair(c, a, b, 1e-8 * (1 + std::fabs(tr) * 1e-2));
  });
  m.family("almost coincident boxes", "boxes on top of each other or side by side, moved/rotated/resized by 0, +-1e-16 .. +-1e-6 in one or two parameters", [=](mc::Ctx& c) {
    const D eps = {0, 1e-16, -1e-16, 3e-16, 1e-15, -1e-14, 1e-12, 1e-10, -1e-9, 1e-7, -1e-6};
    int base = c.choose(6), w1 = c.choose(4), w2 = c.choose(4); double e1 = c.pick(eps), e2 = c.pick(eps), h = c.choose(9) * M_PI / 4 + (c.flip() ? .3 : 0);
    int turn = c.choose(4); double at = c.pick(D{0, 10, -1000});
    if (!c.go()) return;
    double x = at, y = -at / 3, l = 4, w = 2, hd = h + turn * M_PI / 2;
    if (turn % 2) std::swap(l, w);
    if (base == 1) x += 1 * cos(h), y += 1 * sin(h);           // slid along its axis: two shared edges
    if (base == 2) { (turn % 2 ? w : l) = 2; }                 // shorter: two shared edges
    if (base == 3) { (turn % 2 ? w : l) = 2; x += cos(h); y += sin(h); }  // shorter, shares three edges
    if (base == 4) x += 4 * cos(h), y += 4 * sin(h);           // touching along an edge
    if (base == 5) { l *= 2; w *= 2; x += 2 * cos(h) - sin(h); y += 2 * sin(h) + cos(h); }  // nested in a corner
    auto pert = [&](int k, double e) { (k == 0 ? x : k == 1 ? y : k == 2 ? l : hd) += e; };
    pert(w1, e1); if (w2 != w1) pert(w2, e2);
    auto mk = [](double X, double Y, double L, double W, double H) { Box2d b(Vec2d(X, Y), H, L, W); std::vector<Vec2d> v; b.GetCornersInVectorCounterClockwise(&v); Poly p; for (auto q : v) p.push_back(P2(q)); return p; };
    CheckPair(c, mk(at, -at / 3, 4, 2, h), mk(x, y, l, w, hd), 1e-6);
  });
  m.family("polygon containment and area", "every convex polygon on the 3x3 grid and every regular k-gon, k=3..40 (every start vertex up to 6); query points on a quarter grid off the boundary; area, bounds", [=](mc::Ctx& c) {
    int k = c.choose(all3.size() + 38), start = c.choose(k < (int)all3.size() ? 8 : 6), mv = c.choose(4);
    Poly p;
    if (k < (int)all3.size()) p = all3[k];
    else { int n = k - all3.size() + 3; for (int i = 0; i < n; ++i) p.push_back({(double)(1 + cosl(2 * M_PIl * i / n + .1L)), (double)(1 + sinl(2 * M_PIl * i / n + .1L))}); }
    if (start >= (int)p.size()) return;
    if (!c.go()) return;
    std::rotate(p.begin(), p.begin() + start, p.end());
    Polygon2d P(V(p));
    c.step(60);
    if (mv == 1) { P.ShiftCenter(Vec2d(7, -2)); for (auto& q : p) q.x += 7, q.y -= 2; }
    if (mv >= 2) { LD an = mv == 2 ? .7L : M_PIl / 2; P.Transform((double)an, Vec2d(.5, 3), Vec2d(-4, 1)); for (auto& q : p) { Pt r = Rot({q.x - .5L, q.y - 3}, an); q = {r.x + .5L - 4, r.y + 3 + 1}; } }
    LD mnx = 1e9, mxx = -1e9, mny = 1e9, mxy = -1e9;
    for (auto& q : p) mnx = std::min(mnx, q.x), mxx = std::max(mxx, q.x), mny = std::min(mny, q.y), mxy = std::max(mxy, q.y);
    Vec2d bl, tr; P.AxisAlignedBoundingBox(&bl, &tr);
    if (!PtEq(bl, {mnx, mny}) || !PtEq(tr, {mxx, mxy}) || !PtEq(P.bbox_bottom_left(), {mnx, mny}) || !PtEq(P.bbox_top_right(), {mxx, mxy})) c.fail("bounding-box", S(p) + P.DebugString());
    if (std::fabs(P.Area() - (double)PolyArea(p)) > 1e-8) c.fail("area", S(p) + " got " + std::to_string(P.Area()));
    if (P.NumPoints() != (int)P.points().size() || P.Next(P.NumPoints() - 1) != 0 || P.Prev(0) != P.NumPoints() - 1) c.fail("indexing", S(p));
    int in = 0;
    for (int i = -1; i < 14; ++i) for (int j = -1; j < 14; ++j) {
      Pt q{mnx + (mxx - mnx) * (i + .5L) / 13 + .0001L, mny + (mxy - mny) * (j + .5L) / 13 + .0002L};
      LD mn = 1e9;
      for (size_t e = 0; e < p.size(); ++e) if (p.size() < 3 || fabsl(p[e].x - p[(e + 1) % p.size()].x) + fabsl(p[e].y - p[(e + 1) % p.size()].y) > 0) mn = std::min(mn, Cr(p[e], p[(e + 1) % p.size()], q));
      if (fabsl(mn) < 1e-6) continue;
      bool got = P.PointInside(Vec2d((double)q.x, (double)q.y)), got2 = P.PointInside((double)q.x, (double)q.y);
      in += got;
      if (got != (mn > 0) || got2 != got) c.fail("containment", S(p) + " point " + S({q}) + " got " + std::to_string(got));
    }
    c.outcome(in ? "some inside" : "none inside");
    c.state(S(p)); c.sample([&] { return S(p) + " area " + std::to_string(P.Area()) + " inside " + std::to_string(in); });
  });
  m.family("convexity test", "all sequences of 3..5 points on a 3x3 grid: convex and simple or not, and orientation", [=](mc::Ctx& c) {
    int n = 3 + c.choose(3); std::vector<Vec2d> v; Poly p;
    for (int i = 0; i < n; ++i) { int k = c.choose(9); v.push_back(Vec2d(k / 3, k % 3)); p.push_back({(LD)(k / 3), (LD)(k % 3)}); }
    // judged only where the answer is unambiguous: all points distinct, no three collinear
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < j; ++k) if (Cr(p[i], p[j], p[k]) == 0) return;
    if (!c.go()) return;
    c.step();
    bool ccw = false, cvx = true; int sg = 0;
    for (int i = 0; i < n && cvx; ++i) for (int j = 0; j < n; ++j) if (j != i && j != (i + 1) % n) { int s = Cr(p[i], p[(i + 1) % n], p[j]) > 0 ? 1 : -1; if (sg == 0) sg = s; if (s != sg) cvx = false; }
    bool got = Polygon2d::IsConvexHull(v, &ccw);
    if (got != cvx || (got && ccw != (sg > 0))) c.fail("convexity", S(p) + " got " + std::to_string(got) + std::to_string(ccw));
    c.outcome(cvx ? (sg > 0 ? "ccw" : "cw") : "not convex"); c.state(S(p));
  });
  m.family("segment pairs", "all pairs of segments (degenerate included) with endpoints on a 4x4 grid, second shifted by 0 or 1/2: intersection point, crossing, coincidence", [=](mc::Ctx& c) {
    int a = c.choose(16), b = c.choose(16), d = c.choose(16), e = c.choose(16); bool half = c.flip();
    if (!c.go()) return;
    LD h = half ? .5L : 0;
    auto G = [&](int k, LD s) { return Pt{(LD)(k / 4) + s, (LD)(k % 4) + s}; };
    RSeg r{G(a, 0), G(b, 0)}, q{G(d, h), G(e, h)};
    Segment2d s(Vec2d((double)r.a.x, (double)r.a.y), Vec2d((double)r.b.x, (double)r.b.y)), t(Vec2d((double)q.a.x, (double)q.a.y), Vec2d((double)q.b.x, (double)q.b.y));
    c.step(6);
    LD den = (r.b.x - r.a.x) * (q.b.y - q.a.y) - (r.b.y - r.a.y) * (q.b.x - q.a.x);
    bool touch, cross = false; Pt x{0, 0};
    if (den == 0) touch = std::min(std::min(SegDist(r, q.a), SegDist(r, q.b)), std::min(SegDist(q, r.a), SegDist(q, r.b))) < 1e-9;
    else {
      LD u = ((q.a.x - r.a.x) * (q.b.y - q.a.y) - (q.a.y - r.a.y) * (q.b.x - q.a.x)) / den, w = ((q.a.x - r.a.x) * (r.b.y - r.a.y) - (q.a.y - r.a.y) * (r.b.x - r.a.x)) / den;
      cross = touch = u > -1e-12L && u < 1 + 1e-12L && w > -1e-12L && w < 1 + 1e-12L;
      x = {r.a.x + u * (r.b.x - r.a.x), r.a.y + u * (r.b.y - r.a.y)};
    }
    auto ds = [&] { return S({r.a, r.b}) + " x " + S({q.a, q.b}); };
    Vec2d pt(99, 99), pt2(99, 99);
    bool i1 = s.Intersect(t, &pt), i2 = t.Intersect(s, &pt2), i3 = s.Intersect(t);
    if (i1 != cross || i2 != cross || i3 != cross) c.fail("segment-intersect", ds());
    if (cross && (!PtEq(pt, x) || !PtEq(pt2, x))) c.fail("segment-intersect-point", ds());
    if (s.IntersectOrCoincide(t) != touch || t.IntersectOrCoincide(s) != touch) c.fail("segment-coincide", ds());
    if (touch && (!s.MightIntersect(t) || !t.MightIntersect(s))) c.fail("might-intersect", ds());
    bool apart = std::max(r.a.x, r.b.x) < std::min(q.a.x, q.b.x) || std::max(q.a.x, q.b.x) < std::min(r.a.x, r.b.x) || std::max(r.a.y, r.b.y) < std::min(q.a.y, q.b.y) || std::max(q.a.y, q.b.y) < std::min(r.a.y, r.b.y);
    if (s.MightIntersect(t) == apart) c.fail("might-intersect", ds());
    Vec2d ex(99, 99); bool ei = internal::ExactSegmentIntersection(s, t, &ex);
    if (a != b && d != e) { if (ei != touch) c.fail("exact-intersect", ds()); if (cross && ei && !PtEq(ex, x)) c.fail("exact-intersect-point", ds()); }
    if (std::fabs(std::sqrt(s.DistanceSqrToPoint(t.start())) - (double)SegDist(r, q.a)) > 1e-9) c.fail("segment-distance", ds());
    c.outcome(cross ? "cross" : touch ? "coincide" : "apart"); c.state(ds()); c.sample(ds);
  });
  const int depth = th ? 5 : 4;
  m.family("segment histories", "3 ways to construct x all sequences of 4 (thorough 5) of: query heading/length/inverse length, flip, rotate about origin/point/center, shift, recenter, copy, assign from another segment", [=](mc::Ctx& c) {
    int k = c.choose(4); std::vector<int> ops;
    for (int i = 0; i < depth; ++i) ops.push_back(c.choose(11));
    if (!c.go()) return;
    Segment2d s; RSeg r;
    if (k == 0) { s = Segment2d(Vec2d(1, 2), Vec2d(4, -2)); r = {{1, 2}, {4, -2}}; }
    if (k == 1) { s = Segment2d(Vec2d(1, 2), 2.5, 3.0); r = {{1 - 1.5L * cosl(2.5L), 2 - 1.5L * sinl(2.5L)}, {1 + 1.5L * cosl(2.5L), 2 + 1.5L * sinl(2.5L)}}; }
    if (k == 2) { s = Segment2d(Vec2d(-1, 0), Vec2d(.6, .8), 2.0); r = {{-1.6L, -.8L}, {-.4L, .8L}}; }
    if (k == 3) { s = Segment2d(Vec2d(0, 0), 7.9, 1.0); r = {{-.5L * cosl(7.9L), -.5L * sinl(7.9L)}, {.5L * cosl(7.9L), .5L * sinl(7.9L)}}; }
    std::string h;
    for (int o : ops) {
      c.step();
      const Pt ctr{(r.a.x + r.b.x) / 2, (r.a.y + r.b.y) / 2};
      static const char* N[] = {"heading", "length", "inv_length", "flip", "rotOrigin", "rotPoint", "rotCenter", "shift", "moveCenter", "copy", "assign"};
      h += std::string(N[o]) + " ";
      if (o == 0) s.heading(); if (o == 1) s.length(); if (o == 2) s.inv_length();
      if (o == 3) { s = s.Flip(); std::swap(r.a, r.b); }
      if (o == 4) { s = s.RotateAroundOrigin(2.0); r = MapSeg(r, {0, 0}, 2, {0, 0}); }
      if (o == 5) { s = s.RotateAroundPoint(Vec2d(3, -1), -1.1); r = MapSeg(r, {3, -1}, -1.1L, {0, 0}); }
      if (o == 6) { s = s.RotateAroundCenter(4.0); r = MapSeg(r, ctr, 4, {0, 0}); }
      if (o == 7) { s = s.ShiftCenter(Vec2d(.5, -2)); r = MapSeg(r, {0, 0}, 0, {.5L, -2}); }
      if (o == 8) { s = s.MoveCenter(Vec2d(2, 2)); r = MapSeg(r, {0, 0}, 0, {2 - ctr.x, 2 - ctr.y}); }
      if (o == 9) { Segment2d t(s); s.heading(); Segment2d u(Vec2d(9, 9), Vec2d(8, 3)); u.length(); u.heading(); u.inv_length(); u = t; s = u; }
      if (o == 10) { Segment2d u(Vec2d(r.b.x, 1), Vec2d(r.b.x + 1, -3)); if (r.a.x > 0) u.length(); s = u; r = {{r.b.x, 1}, {r.b.x + 1, -3}}; r.a.x = s.start().x(); r.b.x = s.end().x(); }
    }
    std::string e = CheckSeg(s, r);
    if (!e.empty()) c.fail("segment-history", "construct " + std::to_string(k) + " " + h + ": " + e);
    c.state(h + std::to_string(k)); c.sample([&] { return h + s.DebugString(); });
  });
  m.family("box histories", "5 constructors x all sequences of 3 (thorough 4) of: query heading/length, set size, set width, set axis, re-set, shift, recenter, rotations, copy", [=](mc::Ctx& c) {
    int k = c.choose(9); std::vector<int> ops;
    for (int i = 0; i < depth - 1; ++i) ops.push_back(c.choose(14));
    if (!c.go()) return;
    Box2d b; RSeg r; LD w = 2;
    auto axis = [](Pt ctr, LD h, LD l) { return RSeg{{ctr.x - l / 2 * cosl(h), ctr.y - l / 2 * sinl(h)}, {ctr.x + l / 2 * cosl(h), ctr.y + l / 2 * sinl(h)}}; };
    if (k == 0) { b = Box2d(Vec2d(1, 2), Vec2d(4, 6), 2); r = {{1, 2}, {4, 6}}; }
    if (k == 1) { b = Box2d(Vec2d(1, 2), 2.5, 4, 2); r = axis({1, 2}, 2.5L, 4); }
    if (k == 2) { b = Box2d(Vec2d(1, 2), Vec2d(0, -1), 4, 2); r = axis({1, 2}, -M_PIl / 2, 4); }
    if (k == 3) { b = Box2d(Vec2d(0, 0), Vec2d(6, 2)); r = axis({3, 1}, 0, 6); }
    if (k == 4) { b = Box2d(Vec2d(-1, 0), Vec2d(1, 3)); r = axis({0, 1.5L}, M_PIl / 2, 3); }
    if (k >= 5) {   // by a corner: clockwise from the rear-left corner when the axis points up
      LD hd = 1.1L; Pt f{cosl(hd), sinl(hd)}, lft{-sinl(hd), cosl(hd)};
      int ci = k - 5;
      b = Box2d(ci, Vec2d(2, 1), (double)hd, 4, 2);
      LD sf = (ci == 0 || ci == 3) ? 1 : -1, sl = (ci == 0 || ci == 1) ? -1 : 1;
      r = axis({2 + sf * 2 * f.x + sl * 1 * lft.x, 1 + sf * 2 * f.y + sl * 1 * lft.y}, hd, 4);
    }
    std::string h;
    for (int o : ops) {
      c.step();
      const Pt ctr{(r.a.x + r.b.x) / 2, (r.a.y + r.b.y) / 2}; const LD hd = atan2l(r.b.y - r.a.y, r.b.x - r.a.x);
      static const char* N[] = {"heading", "length", "SetSize", "set_width", "SetAxis", "Set(center)", "shift", "moveCenter", "rotCenter", "rotOrigin", "rotPoint", "copy", "Set(axis)", "Set(corners)"};
      h += std::string(N[o]) + " ";
      if (o == 0) b.axis_heading(); if (o == 1) b.length();
      if (o == 2) { b.SetSize(5, 1.5); r = axis(ctr, hd, 5); w = 1.5L; }
      if (o == 3) { b.set_width(.7); w = .7L; }
      if (o == 4) { b.SetAxis(Vec2d(0, 1), Vec2d(-2, 1.5)); r = {{0, 1}, {-2, 1.5L}}; }
      if (o == 5) { b.Set(Vec2d(3, -3), -2.0, 6, 3); r = axis({3, -3}, -2, 6); w = 3; }
      if (o == 6) { b.ShiftCenter(Vec2d(.5, -2)); r = MapSeg(r, {0, 0}, 0, {.5L, -2}); }
      if (o == 7) { b.MoveCenter(Vec2d(2, 2)); r = MapSeg(r, {0, 0}, 0, {2 - ctr.x, 2 - ctr.y}); }
      if (o == 8) { b.RotateAroundCenter(.9); r = MapSeg(r, ctr, .9L, {0, 0}); }
      if (o == 9) { b.RotateAroundOrigin(-2.2); r = MapSeg(r, {0, 0}, -2.2L, {0, 0}); }
      if (o == 10) { b.RotateAroundPoint(Vec2d(3, -1), 1.7); r = MapSeg(r, {3, -1}, 1.7L, {0, 0}); }
      if (o == 11) { Box2d t(b); Box2d u(Vec2d(8, 8), 1, 1, 1); u.axis_heading(); u = t; b = u; if (!(b == t)) c.fail("box-history", "copy differs"); }
      if (o == 12) { b.Set(Vec2d(1, 1), Vec2d(1, -2), .5); r = {{1, 1}, {1, -2}}; w = .5L; }
      if (o == 13) { b.Set(Vec2d(1, 1), Vec2d(3, 2)); r = axis({2, 1.5L}, 0, 2); w = 1; }
    }
    std::string e = CheckSeg(b.axis(), r);
    if (e.empty() && std::fabs(b.width() - (double)w) > 1e-9) e = "width";
    if (e.empty() && (std::fabs(b.length() - (double)Len(r)) > 1e-7 || std::fabs(b.GetArea() - (double)(w * Len(r))) > 1e-6)) e = "length/area";
    if (e.empty() && !PtEq(b.center(), {(r.a.x + r.b.x) / 2, (r.a.y + r.b.y) / 2})) e = "center";
    LD hd = atan2l(r.b.y - r.a.y, r.b.x - r.a.x);
    if (e.empty() && (!AngEq(b.axis_heading(), hd) || std::fabs(b.cos_heading() - (double)cosl(hd)) > 1e-7 || std::fabs(b.sin_heading() - (double)sinl(hd)) > 1e-7)) e = "heading";
    // corners: clockwise from rear-left
    Pt l{-sinl(hd) * w / 2, cosl(hd) * w / 2};
    Pt want[4] = {{r.a.x + l.x, r.a.y + l.y}, {r.b.x + l.x, r.b.y + l.y}, {r.b.x - l.x, r.b.y - l.y}, {r.a.x - l.x, r.a.y - l.y}};
    double xx[4], yy[4]; b.GetCorners(xx, yy); std::vector<Vec2d> cc; b.GetCornersInVectorCounterClockwise(&cc);
    for (int i = 0; i < 4 && e.empty(); ++i) if (!PtEq(Vec2d(xx[i], yy[i]), want[i]) || cc.size() != 4 || !PtEq(cc[i], want[(4 - i) % 4])) e = "corner " + std::to_string(i);
    Polygon2d p(b);
    if (e.empty() && std::fabs(p.Area() - (double)(w * Len(r))) > 1e-6) e = "polygon area";
    if (!e.empty()) c.fail("box-history", "construct " + std::to_string(k) + " " + h + ": " + e);
    c.state(h + std::to_string(k)); c.sample([&] { return h + b.DebugString(); });
  });
  m.family("axis-aligned pairs", "all pairs of boxes with bounds on an integer grid 0..3 (zero sizes included), second translated by 3 offsets; int and double", [=](mc::Ctx& c) {
    int v[8]; for (int i = 0; i < 8; i += 2) { v[i] = c.choose(4); v[i + 1] = v[i] + c.choose(4 - v[i]); }
    int t = c.choose(3);
    if (!c.go()) return;
    c.step(12);
    auto run = [&](auto zero) {
      using T = decltype(zero);
      const T s = 2;   // even coordinates so that the integer box has an integer center
      AABox2d<T> a, b; a.Init(v[0] * s, v[2] * s, v[1] * s, v[3] * s); b.Init(v[4] * s, v[6] * s, v[5] * s, v[7] * s);
      T B[4] = {v[4] * s, v[6] * s, v[5] * s, v[7] * s};
      const T A[4] = {v[0] * s, v[2] * s, v[1] * s, v[3] * s};
      if (t) { T dx = t == 1 ? 1 : -3, dy = t == 1 ? -1 : 2; b.Translate(dx, dy); B[0] += dx; B[2] += dx; B[1] += dy; B[3] += dy; }
      if (std::is_integral<T>::value && ((int)(A[2] - A[0]) % 2 != 0 || ((int)(A[3] - A[1]) % 2) != 0)) return std::string();
      T x0, y0, x1, y1; b.GetMin(&x0, &y0); b.GetMax(&x1, &y1);
      if (x0 != B[0] || y0 != B[1] || x1 != B[2] || y1 != B[3]) return std::string("bounds");
      T X, Y, W, H; b.GetXYWH(&X, &Y, &W, &H);
      if (X != B[0] || Y != B[1] || W != B[2] - B[0] || H != B[3] - B[1]) return std::string("xywh");
      bool ov = A[0] <= B[2] && B[0] <= A[2] && A[1] <= B[3] && B[1] <= A[3];
      if (a.Overlap(b) != ov || b.Overlap(a) != ov) return std::string("overlap");
      T ar = ov ? (std::min(A[2], B[2]) - std::max(A[0], B[0])) * (std::min(A[3], B[3]) - std::max(A[1], B[1])) : 0;
      if (a.ComputeIntersectionArea(b) != ar || b.ComputeIntersectionArea(a) != ar) return std::string("intersection area");
      for (T x = -2; x < 9; ++x) for (T y = -2; y < 9; ++y) {
        bool in = B[0] <= x && x <= B[2] && B[1] <= y && y <= B[3];
        T dx = std::max<T>(0, std::max<T>(B[0] - x, x - B[2])), dy = std::max<T>(0, std::max<T>(B[1] - y, y - B[3]));
        if (b.Inside(x, y) != in) return std::string("inside");
        if (b.DistanceSqrToPoint(x, y) != dx * dx + dy * dy) return std::string("distance");
      }
      AABox2d<T> u = a; u.Union(b);
      u.GetMin(&x0, &y0); u.GetMax(&x1, &y1);
      T sx = std::min(A[0], B[0]), sy = std::min(A[1], B[1]), ex = std::max(A[2], B[2]), ey = std::max(A[3], B[3]);
      if (std::is_integral<T>::value && (((int)(ex - sx)) % 2 || ((int)(ey - sy)) % 2)) return std::string();
      if (x0 != sx || y0 != sy || x1 != ex || y1 != ey) return std::string("union");
      return std::string();
    };
    std::string e = run(0.0), f = run(0);
    std::vector<int> vv(v, v + 8);
    if (!e.empty() || !f.empty()) c.fail("aabox", mc::Str(vv) + " double:" + e + " int:" + f);
    c.state(mc::Str(vv) + std::to_string(t)); c.sample([&] { return mc::Str(vv); });
  });
  m.family("sampled points", "segments from 4 starts along 16 directed offsets (zero included) x 7 sampling distances from a tenth of the length to several lengths, dividing the length evenly or not", [=](mc::Ctx& c) {
    const int k = c.choose(4), i = c.choose(17), j = c.choose(7); static const D dist = {.1, .25, 1. / 3, 1, 1.75, 3, 12};
    if (!c.go()) return;
    const double x0 = std::vector<double>{0, 3, -2.5, 1e4}[k], y0 = std::vector<double>{0, -1, 40.25, -2e3}[k], len = i == 16 ? 0 : i % 4 + 1 + (i / 4 == 3 ? .37 : 0), an = i * .77;
    const Vec2d a(x0, y0), b(x0 + len * std::cos(an), y0 + len * std::sin(an)); const double d = dist[j];
    const auto v = Segment2d::SamplePoints(a, b, d); c.step();
    auto bad = [&](const char* w) { std::ostringstream o; o << w << ": every " << d << " from " << a.DebugString() << " to " << b.DebugString() << " gives"; for (auto& q : v) o << " " << q.DebugString(); c.fail("sample-points", o.str()); };
    if (v.empty() || !PtEq(v[0], {a.x(), a.y()}, 1e-7L)) return bad("start missing");
    for (size_t n = 0; n < v.size(); ++n) if (!PtEq(v[n], {x0 + n * d * std::cos(an), y0 + n * d * std::sin(an)}, 1e-7L)) return bad("point off the line or the spacing");
    const double last = (v.size() - 1) * d;   // end excluded, up to rounding of the last point
    if (len > 0 ? last > len + 1e-7 || last + d < len - 1e-7 : v.size() != 1) return bad("number of points");
    for (double q : {0.0, d, len / 2}) { Segment2d s(a, b); Vec2d pt(99, 99); const bool in = s.Sample(q, &pt); c.step(); if (len == 0 ? in || !PtEq(pt, {x0, y0}) : (std::fabs(q - len) > 1e-7 && in != (q < len)) || !PtEq(pt, {x0 + q * std::cos(an), y0 + q * std::sin(an)}, 1e-7L)) return bad("single sample"); }
    c.state(mc::Mix(k * 100 + i, j)); c.outcome(std::to_string(v.size()) + " points");
  });
  m.family("axis-aligned accessors", "boxes set through bounds, centre and half sizes, or one field at a time; all centres and half sizes over a small alphabet", [=](mc::Ctx& c) {
    const D al = {-3, 0, .5, 7}, hl = {0, .5, 2}; const double x = c.pick(al), y = c.pick(al), h = c.pick(hl), w = c.pick(hl); const int how = c.choose(4);
    if (!c.go()) return;
    AABox2d<double> b(9, 9, 9, 9); if (how == 0) b = AABox2d<double>(x, y, h, w); if (how == 1) b.Init(x - h, y - w, x + h, y + w); if (how >= 2) { b.set_hy(w); b.set_cx(x); if (how == 3) b.Translate(5, -6); b.set_cx(x); b.set_hx(h); b.set_cy(y); } c.step();
    double ax, ay, bx, by, cx, cy, cw, ch; b.GetMin(&ax, &ay); b.GetMax(&bx, &by); b.GetXYWH(&cx, &cy, &cw, &ch);
    if (b.cx() != x || b.cy() != y || b.hx() != h || b.hy() != w || ax != x - h || ay != y - w || bx != x + h || by != y + w || cx != x - h || cy != y - w || cw != 2 * h || ch != 2 * w) c.fail("aabox-accessors", std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(h) + " " + std::to_string(w) + " set in way " + std::to_string(how));
    c.state(mc::HashStr(std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(h) + "," + std::to_string(w)) + how);
  });
  m.family("angles and ranges", "modulo, wrapping, normalisation and clamping over integers -20..20 and multiples of pi/7 and quarter turns up to 40 turns", [=](mc::Ctx& c) {
    int k = c.choose(400), y = 1 + c.choose(9);
    if (!c.go()) return;
    c.step(6);
    int x = k - 200;
    if (PositiveModulo(x, y) != ((x % y) + y) % y) c.fail("modulo", std::to_string(x) + "%" + std::to_string(y));
    double g = PositiveModulo((double)x / 4, (double)y);
    LD want = fmodl(fmodl(x / 4.0L, y) + y, y), df = fabsl(g - want);
    if (!(g >= 0 && g < y) || std::min(df, y - df) > 1e-12 * y * 50) c.fail("fmodulo", std::to_string(x / 4.0) + "%" + std::to_string(y));
    for (double a : {x * M_PI / 7, x * M_PI / 2, x * .1 * y}) {
      double n = NormalizeAngle(a);
      if (!(n >= -M_PI && n < M_PI) || std::fabs(sin(n - a)) > 1e-9 || cos(n - a) < 0) c.fail("normalize-angle", std::to_string(a) + " -> " + std::to_string(n));
    }
    double wr = WrapToRange(-3.0, -3.0 + y, x / 4.0), t = (wr - x / 4.0) / y;
    if (!(wr >= -3 && wr < -3 + y) || std::fabs(t - std::round(t)) > 1e-9) c.fail("wrap", std::to_string(x / 4.0));
    int cl = BoundToRange(-y, 2 * y, x); if (cl != (x < -y ? -y : x > 2 * y ? 2 * y : x)) c.fail("clamp", std::to_string(x));
    c.state(mc::Mix(k, y));
  });
  m.family("vectors", "pairs of 2D vectors over a 5x5 alphabet, 6 angles: rotation, projection, distances, relative frames, perpendicular; 3D products", [=](mc::Ctx& c) {
    const D al = {0, 1, -2, .5, 3};
    double x = c.pick(al), y = c.pick(al), u = c.pick(al), w = c.pick(al), t = c.pick(D{0, .3, M_PI / 2, 2, -3, 7});
    if (!c.go()) return;
    c.step(20);
    Vec2d a(x, y), b(u, w);
    auto bad = [&](const char* n) { c.fail("vec2d", std::string(n) + " " + a.DebugString() + b.DebugString() + " angle " + std::to_string(t)); };
    Pt r = Rot({x, y}, t), rel = Rot({(LD)x - u, (LD)y - w}, -(LD)t);
    Vec2d a2 = a; a2.Rotate(t);
    if (!PtEq(a.Rotated(t), r, 1e-9) || !PtEq(a2, r, 1e-9)) bad("rotate");
    if (!PtEq(a.RelativeToOrigin(b, t), rel, 1e-9)) bad("relative");
    if (a.Dot(b) != x * u + y * w || a.CrossProd(b) != x * w - y * u) bad("products");
    if (!PtEq(a.Perp(), {-y, x}) || a.Perp().Dot(a) != 0) bad("perp");
    if (!mc::Near(a.Project(t), x * cos(t) + y * sin(t), 1e-12)) bad("project");
    if (!mc::Near(a.DistanceToPoint(b), std::hypot(x - u, y - w), 1e-12) || !mc::Near(a.DistanceSqrToPoint(b), (x - u) * (x - u) + (y - w) * (y - w), 1e-12)) bad("distance");
    if (a.IsLeftOfLine(b, Vec2d(2, 5)) != ((u - x) * (5 - y) - (w - y) * (2 - x) > 0)) bad("left of line");
    Vec2d n = a.Normalized(); double L = std::hypot(x, y);
    if (L > 0 ? !PtEq(n, {x / L, y / L}) : !n.IsZero()) bad("normalize");
    if (!PtEq(a.ElemWiseMax(b), {std::max(x, u), std::max(y, w)}) || !PtEq(a.ElemWiseMin(b), {std::min(x, u), std::min(y, w)})) bad("minmax");
    Vec2d s = a + b, d = a - b; if (!PtEq(s, {x + u, y + w}) || !PtEq(d, {x - u, y - w})) bad("sum");
    if (L > 0 && !AngEq(a.Angle(), atan2l(y, x))) bad("angle");
    Vec2d e1, e2 = Vec2d::CreateUnitFromAngle(t), e3, sh = a, fl = a, sx = a; e1.UnitFromAngle(t); e3.FromAngleAndLength(t, u); sh.Shift(u, w); fl.Flip(); sx.set_x(u); sx.set_y(x);
    if (!PtEq(e1, {cosl(t), sinl(t)}) || !PtEq(e2, {cosl(t), sinl(t)}) || !PtEq(e3, {u * cosl(t), u * sinl(t)}) || !PtEq(Vec2d::CreateFromAngleAndLength(t, u), {u * cosl(t), u * sinl(t)})) bad("unit vector");
    if (!PtEq(sh, {x + u, y + w}) || !PtEq(fl, {-x, -y}) || !PtEq(sx, {u, x}) || !PtEq(a.Abs(), {std::fabs(x), std::fabs(y)}) || !PtEq(a.Floor(), {std::floor(x), std::floor(y)}) || !PtEq(a.Ceil(), {std::ceil(x), std::ceil(y)}) || !PtEq(Vec2d::FromScalar(x), {x, x})) bad("shift, flip, set or round");
    if (!PtEq(a.RotatedWithTransform(cos(t), sin(t)), r, 1e-9) || !mc::Near(a.ProjectOntoUnit(e2), x * cos(t) + y * sin(t), 1e-12) || !mc::Near(a.Length(), L, 1e-12) || !mc::Near(a.Sqr(), L * L, 1e-12) || !mc::Near(a.L1Norm(), std::fabs(x) + std::fabs(y), 1e-12)) bad("norms");
    if (std::hypot(u, w) > 0 && !mc::Near(a.Project(b), (x * u + y * w) / std::hypot(u, w), 1e-12)) bad("project onto a vector");
    if (a.NearlyEquals(b, 1.25) != (std::fabs(x - u) < 1.25 && std::fabs(y - w) < 1.25) || !a.IsFinite() || Vec2d(x, NAN).IsFinite() || Vec2d(INFINITY, y).IsFinite() || (a == b) != (x == u && y == w) || (a != b) == (a == b)) bad("comparisons");
    if (!PtEq(a * t, {x * t, y * t}, 1e-9) || !PtEq(t * a, {x * t, y * t}, 1e-9) || !PtEq(a / 1.5, {x / 1.5L, y / 1.5L}) || !PtEq(-a, {-x, -y})) bad("scaling");
    Vec3d p(x, y, t), q(u, w, 1.5);
    if (!mc::Near((p - q).Sqr(), (x - u) * (x - u) + (y - w) * (y - w) + (t - 1.5) * (t - 1.5), 1e-12) || !mc::Near((p + q).z(), t + 1.5, 1e-12)) bad("3d");
    c.state(mc::Mix(mc::HashStr(a.DebugString() + b.DebugString()), (uint64_t)(t * 100)));
  });
  return m.run();
}
