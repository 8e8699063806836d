// C03: box overlap (IoU), longitudinal affinity, alignment, error-tolerant IoU.
#include "mc.h"
#include "wod.h"
#include "waymo_open_dataset/metrics/iou.h"
#include "waymo_open_dataset/math/polygon2d.h"
using namespace waymo::open_dataset;
using Let = Config::LongitudinalErrorTolerantConfig;
using Box = Label::Box;
using D = std::vector<double>;

static LD RefIoU(const Box& a, const Box& b, int type) {
  auto huge = [](const Box& x) { return x.length() >= 1e6 || x.width() >= 1e6 || x.height() >= 1e6; };
  auto tiny = [&](const Box& x) { return x.length() <= .01 || x.width() <= .01 || (type == Box::TYPE_3D && x.height() <= .01); };
  if (huge(a) || huge(b) || tiny(a) || tiny(b)) return 0;
  // work relative to a's center for accuracy
  const LD ox = a.center_x(), oy = a.center_y();
  LD inter;
  if (type == Box::TYPE_AA_2D) {
    LD ix = std::min<LD>(a.length() / 2.0L, b.center_x() - ox + b.length() / 2.0L) - std::max<LD>(-a.length() / 2.0L, b.center_x() - ox - b.length() / 2.0L);
    LD iy = std::min<LD>(a.width() / 2.0L, b.center_y() - oy + b.width() / 2.0L) - std::max<LD>(-a.width() / 2.0L, b.center_y() - oy - b.width() / 2.0L);
    inter = ix > 0 && iy > 0 ? ix * iy : 0;
  } else {
    inter = PolyArea(Clip(BoxPoly(0, 0, a.length(), a.width(), a.heading()), BoxPoly(b.center_x() - ox, b.center_y() - oy, b.length(), b.width(), b.heading())));
  }
  LD va = (LD)a.length() * a.width(), vb = (LD)b.length() * b.width();
  if (type == Box::TYPE_3D) {
    LD z = std::min<LD>(a.center_z() + a.height() / 2.0L, b.center_z() + b.height() / 2.0L) - std::max<LD>(a.center_z() - a.height() / 2.0L, b.center_z() - b.height() / 2.0L);
    inter *= z > 0 ? z : 0;
    va *= a.height(); vb *= b.height();
  }
  LD u = va + vb - inter;
  return u <= 1e-6L ? 0 : std::max<LD>(0, std::min<LD>(1, inter / u));
}
static std::string S(const Box& b) {
  std::ostringstream o; o.precision(10);
  o << "(" << b.center_x() << "," << b.center_y() << "," << b.center_z() << " " << b.length() << "x" << b.width() << "x" << b.height() << " @" << b.heading() << ")";
  return o.str();
}
static void Pair(mc::Ctx& c, const Box& a, const Box& b, int type, double tol) {
  const LD ref = RefIoU(a, b, type);
  const auto T = (Box::Type)type;
  c.step(4);
  const double ab = ComputeIoU(a, b, T), ba = ComputeIoU(b, a, T);
  const auto bat = BatchComputeIoU(a, {b, a, b}, T);
  auto d = [&] { std::ostringstream o; o.precision(12); o << S(a) << " " << S(b) << " type=" << type << " got " << ab << "/" << ba << " want " << (double)ref; return o.str(); };
  if (!(ab >= 0 && ab <= 1)) c.fail("range", d());
  if (std::fabs(ab - (double)ref) > tol) c.fail("value", d());
  if (std::fabs(ab - ba) > tol) c.fail("symmetry", d());
  if (bat.size() != 3 || bat[0] != ab || bat[2] != ab || std::fabs(bat[1] - (double)RefIoU(a, a, type)) > tol) c.fail("batch", d());
  c.outcome(ref == 0 ? "0" : ref > .999 ? "1" : ref < .1 ? "small" : ref < .5 ? "medium" : "large");
  c.sample(d);
}

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const D H = {0, M_PI / 2, M_PI / 4, .3, -2.1, M_PI, 2 * M_PI + .3, -6 * M_PI, 1e-9};
  const std::vector<D> SZ = {{4, 2, 1.5}, {2, 2, 2}, {1, 8, 1}, {12, 12, 6}, {.5, .3, .4}};
  m.family("relative poses", "two boxes: 5x5 size pairs, 7x7 headings (incl. wraps), 9 longitudinal x 7 lateral offsets, 2D and 3D with 5 vertical offsets", [=](mc::Ctx& c) {
    int s1 = c.choose(5), s2 = c.choose(5);
    double h1 = c.pick(D{0, .3, M_PI / 2}), h2 = c.pick(H);
    double dx = c.pick(D{0, .5, -1, 2, -3, 3.9, 5, -7, 20}), dy = c.pick(D{0, .25, -1, 2, 3, -5, 9});
    int zi = c.choose(6);
    if (!c.go()) return;
    const D z = {0, 0, .4, -1.2, 1.7, 3.2};
    Box a = MkBox(10, -3, 1, SZ[s1][0], SZ[s1][1], SZ[s1][2], h1), b = MkBox(10 + dx, -3 + dy, 1 + z[zi], SZ[s2][0], SZ[s2][1], SZ[s2][2], h2);
    Pair(c, a, b, zi == 0 ? Box::TYPE_2D : Box::TYPE_3D, 1e-6);
    c.state(S(a) + S(b) + std::to_string(zi));
  });
  m.family("touching and nested", "boxes whose edges coincide, corners touch, or that contain each other, all quarter-turn headings", [=](mc::Ctx& c) {
    double l1 = c.pick(D{1, 2, 4}), w1 = c.pick(D{1, 2, 4}), l2 = c.pick(D{1, 2, 4}), w2 = c.pick(D{1, 2, 4});
    double h1 = c.choose(5) * M_PI / 2 - M_PI, h2 = c.choose(5) * M_PI / 2 - M_PI;
    double dx = (c.choose(9) - 4) * .5 * 1.5, dy = (c.choose(5) - 2) * 1.5;
    int t = 1 + c.choose(2);
    if (!c.go()) return;
    Pair(c, MkBox(0, 0, 0, l1, w1, 2, h1), MkBox(dx, dy, .5, l2, w2, 2, h2), t, 1e-6);
    c.state(mc::Mix(mc::HashStr(S(MkBox(dx, dy, t, l2, w2, h1, h2))), mc::HashStr(S(MkBox(l1, w1, 0, 0, 0, 0, 0)))));
  });
  m.family("axis aligned", "axis-aligned boxes: all sizes in {.5,1,3}^2, offsets on a half grid; heading and z ignored", [=](mc::Ctx& c) {
    D sz = {.5, 1, 3};
    double l1 = c.pick(sz), w1 = c.pick(sz), l2 = c.pick(sz), w2 = c.pick(sz);
    double dx = (c.choose(13) - 6) * .35, dy = (c.choose(9) - 4) * .55, o = c.pick(D{0, 1000, -1e5});
    int misc = c.choose(3);
    if (!c.go()) return;
    Box a = MkBox(o, -o, 0, l1, w1, misc == 1 ? 0 : 2, 0), b = MkBox(o + dx, -o + dy, misc == 1 ? 50 : 0, l2, w2, 1, misc == 2 ? 1.1 : 0);
    Pair(c, a, b, Box::TYPE_AA_2D, 1e-6);
    c.state(S(a) + S(b));
  });
  m.family("scene motion", "the same pair moved/rotated as a whole: 12 pairs x 8 rotations x 6 translations, 2D and 3D", [=](mc::Ctx& c) {
    int pr = c.choose(12), t = 1 + c.choose(2);
    double rot = c.pick(D{0, .1, .7853981633974483, 1.5707963267948966, 2.5, 3.141592653589793, -1.0, 100.0});
    double tx = c.pick(D{0, 3, -500, 5000, 20000, -40000});
    if (!c.go()) return;
    Box a = MkBox(0, 0, 0, 4 + pr % 3, 2, 1.5, .1 * pr), b = MkBox(.7 * (pr % 4), -.5 * (pr % 5), .2, 3, 1 + pr % 2, 2, -.37 * pr);
    auto mv = [&](Box x) {
      double X = x.center_x(), Y = x.center_y();
      x.set_center_x(X * cos(rot) - Y * sin(rot) + tx); x.set_center_y(X * sin(rot) + Y * cos(rot) - 2 * tx); x.set_heading(x.heading() + rot); return x;
    };
    c.step(2);
    double p = ComputeIoU(a, b, (Box::Type)t), q = ComputeIoU(mv(a), mv(b), (Box::Type)t);
    if (std::fabs(p - q) > 1e-5 || std::fabs(p - (double)RefIoU(a, b, t)) > 1e-6) c.fail("motion", S(a) + S(b) + " rot=" + std::to_string(rot) + " tx=" + std::to_string(tx) + " " + std::to_string(p) + " vs " + std::to_string(q));
    c.state(S(mv(a)) + S(mv(b)) + std::to_string(t));
    c.sample([&] { return S(mv(a)) + S(mv(b)) + " iou " + std::to_string(q); });
  });
  m.family("dimension limits", "each dimension of either box from {0,.009,.011,.05,2,9e5,1.1e6,1e300}, all types", [=](mc::Ctx& c) {
    int which = c.choose(6), t = 1 + c.choose(3), w2 = c.choose(6);
    D al = {0, .009, .011, .05, 2, 9e5, 1.1e6, 1e300};
    double v = c.pick(al), v2 = c.pick(D{0, .011, 2, 1.1e6});
    if (!c.go()) return;
    double d[6] = {3, 2, 1.5, 3, 2, 1.5};
    d[which] = v; if (w2 != which) d[w2] = v2;
    Box a = MkBox(1, 1, 1, d[0], d[1], d[2], .2), b = MkBox(1.001, 1.002, 1.001, d[3], d[4], d[5], .2);
    if (v >= 9e5 && v < 1e6) { a.set_heading(0); b.set_heading(0); }
    Pair(c, a, b, t, 2e-5);
    c.state(S(a) + S(b) + std::to_string(t));
  });
  // ---- longitudinal-error-tolerant
  auto affinity = [](const Box& p, const Box& g, const Let& l) -> LD {
    LD P[3] = {p.center_x() - (LD)l.sensor_location().x(), p.center_y() - (LD)l.sensor_location().y(), p.center_z() - (LD)l.sensor_location().z()};
    LD G[3] = {g.center_x() - (LD)l.sensor_location().x(), g.center_y() - (LD)l.sensor_location().y(), g.center_z() - (LD)l.sensor_location().z()};
    LD dot = 0, gg = 0;
    for (int i = 0; i < 3; ++i) dot += P[i] * G[i], gg += G[i] * G[i];
    gg = std::max<LD>(sqrtl(gg), 1e-6L);
    LD along = dot / gg;   // signed length of the prediction along the ground truth's line of sight
    LD tol = std::max<LD>((LD)l.longitudinal_tolerance_percentage() * gg, l.min_longitudinal_tolerance_meter());
    return std::max<LD>(0, std::min<LD>(1, 1 - fabsl(along - gg) / tol));
  };
  auto aligned = [](const Box& p, const Box& g, int at) {   // boxes in sensor coordinates
    Box r = p;
    if (at == Let::TYPE_NOT_ALIGNED) return r;
    if (at == Let::TYPE_CENTER_ALIGNED) { r.set_center_x(g.center_x()); r.set_center_y(g.center_y()); return r; }
    LD dot = (LD)p.center_x() * g.center_x() + (LD)p.center_y() * g.center_y() + (LD)p.center_z() * g.center_z();
    LD pp = std::max<LD>((LD)p.center_x() * p.center_x() + (LD)p.center_y() * p.center_y() + (LD)p.center_z() * p.center_z(), 1e-6L);
    LD k = dot / pp;
    if (at == Let::TYPE_FURTHER_ONLY_RANGE_ALIGNED && !(k >= 0 && k < 1)) k = 1;
    if (at == Let::TYPE_ANY_CLOSER_ONLY_RANGE_ALIGNED && k >= 0 && k < 1) k = 1;
    if (at == Let::TYPE_BETWEEN_ORIGIN_AND_GT_ONLY_RANGE_ALIGNED && k < 1) k = 1;
    r.set_center_x(p.center_x() * k); r.set_center_y(p.center_y() * k); r.set_center_z(p.center_z() * k);
    return r;
  };
  m.family("let", "ground truth on 4 rays x 3 ranges (near/mid/far); prediction radial offset x7, lateral x3, vertical x3, opposite side; 6 alignments, 3 tolerances, 3 sensors, 2D/3D", [=](mc::Ctx& c) {
    double ang = c.pick(D{0, .6, 2.2, -1.9}), r = c.pick(D{1.5, 20, 70});
    double f = c.pick(D{1, .93, 1.05, .6, 1.4, -.8, .97}), lat = c.pick(D{0, .6, -2.5}), up = c.pick(D{0, .5, -4});
    int at = 1 + c.choose(6), tol = c.choose(3), sens = c.choose(3), t = 1 + c.choose(2);
    if (!c.go()) return;
    Let l;
    l.set_enabled(true); l.set_align_type((Let::AlignType)at);
    l.set_longitudinal_tolerance_percentage(tol == 0 ? .1f : tol == 1 ? .25f : 0.f);
    l.set_min_longitudinal_tolerance_meter(tol == 0 ? .5f : tol == 1 ? 0.f : 3.f);
    double sx = sens == 0 ? 0 : sens == 1 ? 1.43 : -30, sy = sens == 2 ? 12 : 0, sz = sens == 0 ? 0 : 2.184;
    l.mutable_sensor_location()->set_x(sx); l.mutable_sensor_location()->set_y(sy); l.mutable_sensor_location()->set_z(sz);
    Box g = MkBox(sx + r * cos(ang), sy + r * sin(ang), sz - .8, 4.6, 2.1, 1.7, ang + .2);
    double pr = r * f;
    Box p = MkBox(sx + pr * cos(ang) - lat * sin(ang), sy + pr * sin(ang) + lat * cos(ang), sz - .8 + up, 4.2, 1.9, 1.8, ang + .1);
    c.step(6);
    std::ostringstream o; o << S(g) << S(p) << " align=" << at << " tol=" << tol << " sensor=" << sens << " type=" << t;
    const double af = ComputeLongitudinalAffinity(p, g, l), raf = affinity(p, g, l);
    if (!(af >= 0 && af <= 1) || std::fabs(af - raf) > 1e-5) c.fail("affinity", o.str() + " got " + std::to_string(af) + " want " + std::to_string(raf));
    if (GetComputeLongitudinalAffinityFunc(l)(p, g) != af) c.fail("affinity-func", o.str());
    Box gs = TranslateBox(g, -sx, -sy, -sz), ps = TranslateBox(p, -sx, -sy, -sz);
    if (!mc::Near(gs.center_x(), g.center_x() - sx, 1e-9) || !mc::Near(gs.center_y(), g.center_y() - sy, 1e-9) || !mc::Near(gs.center_z(), g.center_z() - sz, 1e-9) || gs.length() != g.length() || gs.heading() != g.heading()) c.fail("translate", o.str());
    Box al = AlignedPredictionBox(ps, gs, l.align_type()), ral = aligned(ps, gs, at);
    if (!mc::Near(al.center_x(), ral.center_x(), 1e-7) || !mc::Near(al.center_y(), ral.center_y(), 1e-7) || !mc::Near(al.center_z(), ral.center_z(), 1e-7) ||
        al.length() != p.length() || al.width() != p.width() || al.height() != p.height() || al.heading() != p.heading())
      c.fail("align", o.str() + " got " + S(al) + " want " + S(ral));
    const double iou = ComputeLetIoU(p, g, l.sensor_location(), l.align_type(), (Box::Type)t), riou = RefIoU(ral, gs, t);
    if (std::fabs(iou - riou) > 1e-5) c.fail("let-iou", o.str() + " got " + std::to_string(iou) + " want " + std::to_string(riou));
    auto fn = GetComputeLetIoUFunc(l.sensor_location(), l.align_type(), (Box::Type)t);
    if (fn(p, g) != iou) c.fail("let-func", o.str());
    c.outcome(std::string("affinity ") + (raf == 0 ? "0" : raf > .999 ? "1" : "mid") + " iou " + (riou == 0 ? "0" : riou < .5 ? "low" : "high"));
    c.state(o.str());
    c.sample([&] { return o.str() + " affinity " + std::to_string(af) + " let-iou " + std::to_string(iou); });
  });
  m.family("at sensor", "prediction or ground truth center exactly at the sensor", [=](mc::Ctx& c) {
    int which = c.choose(3), at = 1 + c.choose(6);
    if (!c.go()) return;
    Let l; l.set_align_type((Let::AlignType)at); l.set_longitudinal_tolerance_percentage(.1); l.set_min_longitudinal_tolerance_meter(.5); l.mutable_sensor_location();
    Box z = MkBox(0, 0, 0, 4, 2, 2, 0), f = MkBox(.2, 0, 0, 4, 2, 2, 0);
    const Box &p = which == 0 ? z : which == 1 ? f : z, &g = which == 0 ? f : z;
    c.step(2);
    double af = ComputeLongitudinalAffinity(p, g, l), raf = affinity(p, g, l);
    if (std::fabs(af - raf) > 1e-5) c.fail("affinity", "at sensor " + std::to_string(which) + " got " + std::to_string(af) + " want " + std::to_string(raf));
    double iou = ComputeLetIoU(p, g, l.sensor_location(), l.align_type(), Box::TYPE_3D);
    double riou = RefIoU(aligned(p, g, at), g, Box::TYPE_3D);
    if (std::fabs(iou - riou) > 1e-5) c.fail("let-iou", "at sensor " + std::to_string(which) + " align " + std::to_string(at) + " got " + std::to_string(iou) + " want " + std::to_string(riou));
    c.state(mc::Mix(which, at));
  });
  m.family("polygon", "box to polygon conversion keeps the four corners (all poses)", [=](mc::Ctx& c) {
    int s = c.choose(5); double h = c.pick(H), x = c.pick(D{0, -7, 1234}), y = c.pick(D{0, 2.5});
    if (!c.go()) return;
    c.step();
    Polygon2d p = ToPolygon2d(MkBox(x, y, 3, SZ[s][0], SZ[s][1], 1, h));
    auto ref = BoxPoly(x, y, SZ[s][0], SZ[s][1], h);
    bool ok = p.points().size() == 4;
    for (auto& r : ref) { bool hit = false; for (auto& q : p.points()) hit |= std::fabs(q.x() - (double)r.x) < 1e-9 * (1 + std::fabs(x)) && std::fabs(q.y() - (double)r.y) < 1e-9 * (1 + std::fabs(y)) * 10; ok &= hit; }
    if (!ok) c.fail("polygon", "corners wrong for size " + std::to_string(s) + " heading " + std::to_string(h));
    c.state(mc::Mix(s, mc::HashStr(std::to_string(h) + std::to_string(x))));
  });
  return m.run();
}
