// C16: camera model against an independent solution of the documented equations.
#include "mc.h"
#include "waymo_open_dataset/wdl_limited/camera/camera_model.h"
using namespace waymo::open_dataset;
using M3 = Eigen::Matrix3d; using V3 = Eigen::Vector3d; using V2 = Eigen::Vector2d;
struct Cam { double f, cu, cv, k1, k2, p1, p2, k3; int w, h, dir; M3 Rc; V3 tc; };           // camera to vehicle
struct Img { M3 Rv; V3 tv, vel, omega; double tpose, shutter, trigger, done; };              // vehicle to world at tpose
static M3 Rot(double yaw, double pitch, double roll) { return (Eigen::AngleAxisd(yaw, V3::UnitZ()) * Eigen::AngleAxisd(pitch, V3::UnitY()) * Eigen::AngleAxisd(roll, V3::UnitX())).toRotationMatrix(); }
static M3 Exp(const V3& w) { const double a = w.norm(); return a < 1e-15 ? M3(M3::Identity()) : M3(Eigen::AngleAxisd(a, w / a).toRotationMatrix()); }
static CameraCalibration Calib(const Cam& c) {
  CameraCalibration k; for (double x : {c.f, c.f * 1.01, c.cu, c.cv, c.k1, c.k2, c.p1, c.p2, c.k3}) k.add_intrinsic(x); k.set_width(c.w); k.set_height(c.h); k.set_rolling_shutter_direction((CameraCalibration::RollingShutterReadOutDirection)c.dir);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) k.mutable_extrinsic()->add_transform(i < 3 ? (j < 3 ? c.Rc(i, j) : c.tc(i)) : j == 3); return k;
}
static CameraImage Image(const Img& m) {
  CameraImage g; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g.mutable_pose()->add_transform(i < 3 ? (j < 3 ? m.Rv(i, j) : m.tv(i)) : j == 3);
  auto* v = g.mutable_velocity(); v->set_v_x(m.vel(0)); v->set_v_y(m.vel(1)); v->set_v_z(m.vel(2)); v->set_w_x(m.omega(0)); v->set_w_y(m.omega(1)); v->set_w_z(m.omega(2));
  g.set_pose_timestamp(m.tpose); g.set_shutter(m.shutter); g.set_camera_trigger_time(m.trigger); g.set_camera_readout_done_time(m.done); return g;
}
static V2 Distort(const Cam& c, const V2& n) { const double r2 = n.squaredNorm(), rd = 1 + c.k1 * r2 + c.k2 * r2 * r2 + c.k3 * r2 * r2 * r2, u = n(0), v = n(1);
  return V2((u * rd + 2 * c.p1 * u * v + c.p2 * (r2 + 2 * u * u)) * c.f + c.cu, (v * rd + c.p1 * (r2 + 2 * v * v) + 2 * c.p2 * u * v) * c.f * 1.01 + c.cv); }
static double Radial(const Cam& c, const V2& n) { const double r2 = n.squaredNorm(); return 1 + c.k1 * r2 + c.k2 * r2 * r2 + c.k3 * r2 * r2 * r2; }
static V2 Undistort(const Cam& c, const V2& px) {   // Newton with a numerical Jacobian
  V2 n((px(0) - c.cu) / c.f, (px(1) - c.cv) / (c.f * 1.01));
  for (int i = 0; i < 40; ++i) { const V2 e = Distort(c, n) - px; const double h = 1e-6; Eigen::Matrix2d J; J.col(0) = (Distort(c, n + V2(h, 0)) - Distort(c, n - V2(h, 0))) / (2 * h); J.col(1) = (Distort(c, n + V2(0, h)) - Distort(c, n - V2(0, h))) / (2 * h); n -= J.inverse() * e; if (e.norm() < 1e-10) break; }
  return n;
}
static double Time(const Cam& c, const Img& m, const V2& p) {   // when pixel p is exposed, relative to the pose
  const double ro = m.done - m.trigger - m.shutter, b = m.trigger + .5 * m.shutter; double f = 0;
  if (c.dir == 5) return 0;
  if (c.dir == 1) f = p(1) / c.h; if (c.dir == 3) f = 1 - p(1) / c.h; if (c.dir == 2) f = p(0) / c.w; if (c.dir == 4) f = 1 - p(0) / c.w;
  return b + ro * f - m.tpose;
}
static V3 ToCam(const Cam& c, const Img& m, const V3& x, const V3& v, double t) { return c.Rc.transpose() * ((m.Rv * Exp(m.omega * t)).transpose() * (x + v * t - m.tv - m.vel * t) - c.tc); }
static V3 ToWorld(const Cam& c, const Img& m, const V3& p, double t) { return m.Rv * Exp(m.omega * t) * (c.Rc * p + c.tc) + m.tv + m.vel * t; }
static V2 Norm(const V3& p) { return V2(-p(1) / p(0), -p(2) / p(0)); }
// Exposure time at which the point's pixel is the one being read: bisection on t.
static bool Solve(const Cam& c, const Img& m, const V3& x, const V3& v, double* t) {
  auto g = [&](double s, bool* ok) { const V3 p = ToCam(c, m, x, v, s); *ok = p(0) > 0.05; return *ok ? s - Time(c, m, Distort(c, Norm(p))) : 0.; };
  const double ro = std::fabs(m.done - m.trigger), mid = .5 * (Time(c, m, V2(0, 0)) + Time(c, m, V2(c.w, c.h))); double lo = mid - 3 * ro - .05, hi = mid + 3 * ro + .05; bool a, b; double gl = g(lo, &a), gh = g(hi, &b);
  if (!a || !b || gl > 0 || gh < 0) return false;
  for (int i = 0; i < 100; ++i) { const double q = .5 * (lo + hi); bool ok; const double y = g(q, &ok); if (!ok) return false; (y < 0 ? lo : hi) = q; }
  *t = lo; return true;
}
static const std::vector<Cam>& Cams() {
  static std::vector<Cam> v;
  if (v.empty()) for (int r = 0; r < 3; ++r) for (int k = 0; k < 3; ++k) {
    const M3 R = r == 0 ? Rot(0, 0, 0) : r == 1 ? Rot(1.1, .06, -.03) : Rot(-2.2, -.2, .4);
    const V3 t = r == 0 ? V3(0, 0, 0) : r == 1 ? V3(1.5, .4, 2.1) : V3(-1, -.8, 1.9);
    Cam c{k == 1 ? 900. : 2000., 940, 650, 0, 0, 0, 0, 0, 1920, 1280, 1, R, t};
    if (k == 1) c.k1 = .03, c.k2 = -.05, c.p1 = 8e-4, c.p2 = -6e-4, c.k3 = .01;
    if (k == 2) c.k1 = .05, c.k2 = -.35, c.p1 = .002, c.p2 = .001, c.k3 = 0, c.w = 1280, c.h = 886, c.cu = 610, c.cv = 455;
    v.push_back(c);
  }
  return v;
}
static const std::vector<Img>& Imgs() {
  static std::vector<Img> v;
  if (v.empty()) {
    const double T = 1000;
    v.push_back({Rot(0, 0, 0), V3(0, 0, 0), V3(0, 0, 0), V3(0, 0, 0), T, 0, T, T + .04});
    v.push_back({Rot(.7, 0, 0), V3(10, -20, 1), V3(12, 5, .2), V3(0, 0, 0), T, .002, T - .03, T + .02});
    v.push_back({Rot(-2.5, .03, -.02), V3(-40, 11, 86), V3(-3, 8, 0), V3(.02, -.03, .4), T + .03, .0004, T, T + .05});
    v.push_back({Rot(1.9, -.02, .05), V3(5, 5, 5), V3(0, -14, .3), V3(0, .05, -.3), T - .02, .005, T, T + .06});
    v.push_back({Rot(.2, .1, 0), V3(1, 2, 3), V3(25, 0, 0), V3(.1, .2, 0), T + .1, .001, T + .08, T + .13});
  }
  return v;
}
static std::string D(const V3& x) { std::ostringstream o; o.precision(10); o << "(" << x(0) << "," << x(1) << "," << x(2) << ")"; return o.str(); }
static std::string D2(double u, double v) { std::ostringstream o; o.precision(10); o << "(" << u << "," << v << ")"; return o.str(); }
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough(); const int G = th ? 21 : 11;
  static const std::vector<int> dirs = {1, 2, 3, 4, 5};
  static const std::vector<V3> vels = {V3(0, 0, 0), V3(10, 0, 0), V3(-4, 12, 0), V3(0, 0, 3)};
  m.family("project", "9 calibrations x 5 shutter directions x 5 vehicle motions x 3 point velocities (thorough 4) x a grid of pixels (11x11, thorough 21x21, reaching outside the image) x 3 depths", [=](mc::Ctx& x) {
    Cam c = x.pick(Cams()); c.dir = x.pick(dirs); const Img& g = x.pick(Imgs()); const V3& vel = vels[x.choose(th ? 4 : 3)]; const int iu = x.choose(G), iv = x.choose(G); static const std::vector<double> deps = {4, 17, 90}; const double dep = x.pick(deps);
    if (!x.go()) return;
    const V2 px(c.w * (1.2 * (iu + .37) / G - .1), c.h * (1.2 * (iv + .41) / G - .1));
    const V2 n = Undistort(c, px); if (!((Distort(c, n) - px).norm() < 1e-6) || n.norm() > 1.2) { x.outcome("pixel has no direction"); return; }
    const double t = Time(c, g, px); const V3 w = ToWorld(c, g, V3(dep, -n(0) * dep, -n(1) * dep), t) - vel * t;
    CameraModel mod(Calib(c)); mod.PrepareProjection(Image(g)); double u = -7, v = -7, d = -7; const bool ok = mod.WorldToImageMovingPointWithDepth(w(0), w(1), w(2), vel(0), vel(1), vel(2), false, &u, &v, &d); x.step();
    auto where = [&] { return " for pixel " + D2(px(0), px(1)) + " depth " + std::to_string(dep) + " direction " + std::to_string(c.dir) + " point " + D(w) + " velocity " + D(vel); };
    const double rd = Radial(c, n); if (rd < .85 || rd > 1.15) { if (rd < .75 || rd > 1.25) { if (ok) x.fail("distortion", "untrustworthy distortion accepted" + where()); } x.outcome("strong distortion"); return; }
    // The projection maps time linearly to normalised rather than pixel coordinates (a documented
    // approximation): exact without distortion, else off by that time slip times the pixel's motion.
    const V2 d0 = Distort(c, Norm(ToCam(c, g, w, c.dir == 5 ? V3(0, 0, 0) : vel, t - 1e-4))), d1 = Distort(c, Norm(ToCam(c, g, w, c.dir == 5 ? V3(0, 0, 0) : vel, t + 1e-4))); const double speed = c.dir == 5 ? 0 : (d1 - d0).norm() / 2e-4;
    const bool hor = c.dir == 2 || c.dir == 4; const V2 first = Undistort(c, hor ? V2(0, .5 * c.h) : V2(.5 * c.w, 0)), last = Undistort(c, hor ? V2(c.w, .5 * c.h) : V2(.5 * c.w, c.h)); const int ax = hor ? 0 : 1;
    const double slip = c.dir == 5 ? 0 : 1.5 * (g.done - g.trigger - g.shutter) * std::fabs(n(ax) / (last - first)(ax) - (hor ? (px(0) - c.cu) / c.w : (px(1) - c.cv) / c.h));
    const double rate = speed * (g.done - g.trigger) / (hor ? c.w : c.h); if (rate > .8) { x.outcome("moves with the readout"); return; }
    const double tol = .05 + speed * (2e-5 + slip) / (1 - rate) + 2 * c.f * std::pow(g.omega.norm() * t, 2);   // first-order rotation
    if (!ok) return x.fail("lost", "visible point not projected" + where());
    if (!(std::fabs(u - px(0)) <= tol && std::fabs(v - px(1)) <= tol)) return x.fail("pixel", "projected to " + D2(u, v) + " (tolerance " + std::to_string(tol) + ")" + where());
    if (!(std::fabs(d - dep) <= .001 * dep + .005 + (2e-5 + slip) / (1 - rate) * (g.vel.norm() + vel.norm() + g.omega.norm() * dep))) return x.fail("depth", "depth " + std::to_string(d) + where());
    // The variants agree.
    double u2, v2, d2; const bool in = u >= 0 && u < c.w && v >= 0 && v < c.h; const bool ok2 = mod.WorldToImageMovingPointWithDepth(w(0), w(1), w(2), vel(0), vel(1), vel(2), true, &u2, &v2, &d2); x.step();
    if (ok2 != in || mod.InImage(u, v) != in || u2 != u || v2 != v || d2 != d) return x.fail("bounds", "bounds check " + std::to_string(ok2) + " for " + D2(u, v) + where());
    if (vel.norm() == 0) { double u3 = 0, v3 = 0, d3 = 0, u4 = 0, v4 = 0; const bool o3 = mod.WorldToImageWithDepth(w(0), w(1), w(2), false, &u3, &v3, &d3), o4 = mod.WorldToImage(w(0), w(1), w(2), true, &u4, &v4); x.step(2); if (!o3 || o4 != in || u3 != u || v3 != v || d3 != d || u4 != u || v4 != v) return x.fail("variants", "the projection variants disagree" + where()); }
    x.outcome(in ? "in image" : "outside"); x.state(D2(u, v) + D(w)); x.sample([&] { return "projected to " + D2(u, v) + where(); });
  });
  m.family("back-project", "9 calibrations x 5 shutter directions x 5 vehicle motions x a grid of pixels x 2 depths: world and vehicle positions, and the way back", [=](mc::Ctx& x) {
    Cam c = x.pick(Cams()); c.dir = x.pick(dirs); const Img& g = x.pick(Imgs()); const int iu = x.choose(G), iv = x.choose(G); static const std::vector<double> deps = {3, 40}; const double dep = x.pick(deps);
    if (!x.go()) return;
    const V2 px(c.w * (iu + .31) / G, c.h * (iv + .57) / G), n = Undistort(c, px); if (!((Distort(c, n) - px).norm() < 1e-6)) { x.outcome("pixel has no direction"); return; }
    const double t = Time(c, g, px); const V3 p(dep, -n(0) * dep, -n(1) * dep), w = ToWorld(c, g, p, t), q = c.Rc * p + c.tc;
    CameraModel mod(Calib(c)); mod.PrepareProjection(Image(g)); double a = 0, b = 0, e = 0; mod.ImageToWorld(px(0), px(1), dep, &a, &b, &e); x.step();
    auto where = [&] { return " for pixel " + D2(px(0), px(1)) + " depth " + std::to_string(dep) + " direction " + std::to_string(c.dir); };
    const double rot = g.omega.norm() * std::fabs(t); if ((V3(a, b, e) - w).norm() > 1e-3 + dep * (2e-5 + rot * rot) + c.tc.norm() * rot * 2e-2 + .5 * c.tc.norm() * rot * rot) return x.fail("world", "back-projected to " + D(V3(a, b, e)) + ", expected " + D(w) + where());
    mod.ImageToVehicleGlobalShutter(px(0), px(1), dep, &a, &b, &e); x.step(); if ((V3(a, b, e) - q).norm() > 1e-3 + 2e-5 * dep) return x.fail("vehicle", "vehicle position " + D(V3(a, b, e)) + ", expected " + D(q) + where());
    x.outcome("back-projected"); x.state(D(w)); x.sample([&] { return D(w) + where(); });
  });
  m.family("behind", "points behind or beside the camera, 9 calibrations x 5 directions x 5 motions x 40 directions x 2 distances", [=](mc::Ctx& x) {
    Cam c = x.pick(Cams()); c.dir = x.pick(dirs); const Img& g = x.pick(Imgs()); const int a = x.choose(8), b = x.choose(5); const double r = x.choose(2) ? 60 : 6; const int s = x.choose(3);
    if (!x.go()) return;
    const double yaw = M_PI / 2 + .3 + a * (M_PI - .6) / 7, el = -1 + b * .5; const V3 p(r * std::cos(yaw) * std::cos(el), r * std::sin(yaw) * std::cos(el), r * std::sin(el));
    if (p(0) > -1.5) { x.outcome("beside"); return; }
    const V3 w = ToWorld(c, g, p, 0); CameraModel mod(Calib(c)); mod.PrepareProjection(Image(g)); double u = 5, v = 5, d = 5; bool ok; x.step();
    if (s == 0) ok = mod.WorldToImageWithDepth(w(0), w(1), w(2), false, &u, &v, &d); else if (s == 1) { d = -1; ok = mod.WorldToImage(w(0), w(1), w(2), true, &u, &v); } else ok = mod.WorldToImageMovingPointWithDepth(w(0), w(1), w(2), 1, -1, 0, false, &u, &v, &d);
    if (ok || u != -1 || v != -1 || d != -1) x.fail("behind", "point behind the camera gives " + std::to_string(ok) + " " + D2(u, v) + " depth " + std::to_string(d) + " camera frame " + D(p));
    x.outcome("behind"); x.state(D(w));
  });
  m.family("wide", "points far off the axis: all directions on a grid up to 80 degrees, strong lens distortion", [=](mc::Ctx& x) {
    Cam c = x.pick(Cams()); c.dir = x.pick(dirs); const int iu = x.choose(11), iv = x.choose(11); if (!x.go()) return;
    if (c.k1 != 0) c.k1 = -.2, c.k2 = 0, c.k3 = 0;
    const Img& g = Imgs()[0]; const V2 n(std::tan((iu - 5) * .27), std::tan((iv - 5) * .27)); const V3 w = ToWorld(c, g, 20 * V3(1, -n(0), -n(1)), 0);
    CameraModel mod(Calib(c)); mod.PrepareProjection(Image(g)); double u = 1e9, v = 1e9, d = 1e9; const bool ok = mod.WorldToImageWithDepth(w(0), w(1), w(2), false, &u, &v, &d); x.step(); const double rd = Radial(c, n); const V2 e = Distort(c, n);
    const std::string where = " for direction " + D2(n(0), n(1)) + " radial factor " + std::to_string(rd) + ": " + D2(u, v);
    if (rd > .85 && rd < 1.15) { if (!ok || (V2(u, v) - e).norm() > .05) x.fail("wide-pixel", "wrong pixel" + where); }
    else if (rd < .75 || rd > 1.25) { if (ok) x.fail("distortion", "untrustworthy distortion accepted" + where); else if (mod.InImage(u, v)) x.fail("clamp", "untrusted point placed inside the image" + where); else if (std::fabs((u - c.cu) * n(1) - (v - c.cv) * n(0)) > 1e-3 * 4000 * n.norm() || (u - c.cu) * n(0) < -1e-6 || (v - c.cv) * n(1) < -1e-6) x.fail("clamp", "untrusted point placed in the wrong direction" + where); }
    if (std::fabs(d - 20) > 1e-3) x.fail("depth", "depth " + std::to_string(d) + where);
    x.outcome(ok ? "trusted" : "untrusted"); x.state(D2(u, v));
  });
  m.family("fast motion", "points and vehicles moving so fast that the readout equation is hard or has no solution: results are a solution or are reported invalid with all outputs set", [=](mc::Ctx& x) {
    Cam c = x.pick(Cams()); c.dir = x.pick(dirs); Img g = Imgs()[0]; static const std::vector<double> sp = {-9000, -3000, -800, -300, -100, 100, 300, 800, 3000, 9000}; const double s = x.pick(sp); const int axis = x.choose(3), who = x.choose(2), iu = x.choose(5), iv = x.choose(5); const double off = x.choose(3) * .2 - .2, dist = x.choose(2) ? 10 : 1.5;
    if (!x.go()) return;
    const V3 dirv = c.Rc * V3(axis == 0, axis == 1, axis == 2); V3 vel(0, 0, 0); if (who) vel = dirv * s; else g.vel = dirv * s; g.tpose += off;
    const V3 p(dist, (iu - 2) * .4 * dist, (iv - 2) * .2 * dist), w = ToWorld(c, g, p, 0); CameraModel mod(Calib(c)); mod.PrepareProjection(Image(g)); double u = 12345.5, v = 12345.5, d = 12345.5; x.step();
    const bool ok = mod.WorldToImageMovingPointWithDepth(w(0), w(1), w(2), vel(0), vel(1), vel(2), false, &u, &v, &d);
    if (u == 12345.5 || v == 12345.5 || d == 12345.5) return x.fail("unset", "outputs left unset (returned " + std::to_string(ok) + ") for point " + D(w) + " velocity " + D(vel) + " vehicle velocity " + D(g.vel) + " direction " + std::to_string(c.dir) + " pose offset " + std::to_string(off));
    x.outcome(ok ? "solved" : "invalid"); x.state(D2(u, v));
  });
  m.family("histories", "all sequences of 5 (thorough 6) calls (prepare 3 images, two projections, moving projection, back-projection) on one camera object, each result compared with a fresh object", [=](mc::Ctx& x) {
    static const std::vector<int> ci = {1, 4, 8}; Cam c = Cams()[x.pick(ci)]; c.dir = x.pick(dirs); std::vector<int> ops{x.choose(3)}; const int n = th ? 6 : 5; for (int i = 0; i < n; ++i) ops.push_back(x.choose(7));
    if (!x.go()) return;
    CameraModel mod(Calib(c)); int img = 0; static const int im[] = {1, 2, 4};
    for (int o : ops) {
      if (o < 3) { img = im[o]; mod.PrepareProjection(Image(Imgs()[img])); x.step(); continue; }
      CameraModel fresh(Calib(c)); fresh.PrepareProjection(Image(Imgs()[img])); double r[2][3] = {}; bool ok[2] = {};
      for (int k = 0; k < 2; ++k) { const CameraModel& q = k ? fresh : mod; const V3 w = ToWorld(c, Imgs()[img], o == 4 ? V3(-5, 1, 1) : V3(25, -4, 2), 0); if (o == 3 || o == 4) ok[k] = q.WorldToImageWithDepth(w(0), w(1), w(2), true, &r[k][0], &r[k][1], &r[k][2]); if (o == 5) ok[k] = q.WorldToImageMovingPointWithDepth(w(0), w(1), w(2), 3, -7, 1, false, &r[k][0], &r[k][1], &r[k][2]); if (o == 6) q.ImageToWorld(300, 700, 12, &r[k][0], &r[k][1], &r[k][2]); }
      x.step(2); bool same = ok[0] == ok[1]; for (int k = 0; k < 3; ++k) same = same && std::fabs(r[0][k] - r[1][k]) <= 1e-6; if (!same) return x.fail("history", "call " + std::to_string(o) + " after " + mc::Str(ops) + " differs from a fresh camera: " + D2(r[0][0], r[0][1]) + " vs " + D2(r[1][0], r[1][1]));
      x.state(mc::Mix(o, mc::HashStr(D2(r[0][0], r[0][1]))));
    }
    x.outcome("consistent");
  });
  return m.run();
}
