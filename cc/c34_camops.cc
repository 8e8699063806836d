// C34: TensorFlow ops of the camera model against the camera model.
#define TFOP_MAIN
#include "tfop.h"
#include "tensorflow/core/framework/node_def_util.h"
#include "tensorflow/core/framework/shape_inference.h"
#include "waymo_open_dataset/wdl_limited/camera/camera_model.h"
using namespace waymo::open_dataset;
namespace tf = tensorflow;
using M3 = Eigen::Matrix3d; using V3 = Eigen::Vector3d;
static M3 Rot(double y, double p, double r) { return (Eigen::AngleAxisd(y, V3::UnitZ()) * Eigen::AngleAxisd(p, V3::UnitY()) * Eigen::AngleAxisd(r, V3::UnitX())).toRotationMatrix(); }
struct Setup { std::vector<double> extrinsic, intrinsic, image; std::vector<int> meta; };
// Everything distinct, so that swapped fields show.
static Setup Make(int cal, int dir, int img, bool single) {
  Setup s; const M3 R = cal == 0 ? Rot(0, 0, 0) : cal == 1 ? Rot(.3, .06, -.03) : Rot(-2.2, -.2, .4); const V3 t = cal == 0 ? V3(0, 0, 0) : cal == 1 ? V3(1.5, .4, 2.1) : V3(-1, -.8, 1.9);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) s.extrinsic.push_back(i < 3 ? (j < 3 ? R(i, j) : t(i)) : j == 3);
  if (cal == 0) s.intrinsic = {2000, 2010, 940, 650, 0, 0, 0, 0, 0}; else if (cal == 1) s.intrinsic = {900, 930, 940, 650, .03, -.05, 8e-4, -6e-4, .01}; else s.intrinsic = {2000, 1980, 610, 455, .05, -.35, .002, .001, .004};
  s.meta = cal == 2 ? std::vector<int>{1280, 886, dir} : std::vector<int>{1920, 1280, dir};
  const M3 P = img == 0 ? Rot(0, 0, 0) : img == 1 ? Rot(.7, 0, 0) : Rot(-2.5, .03, -.02); const V3 q = img == 0 ? V3(0, 0, 0) : img == 1 ? V3(10, -20, 1) : V3(-40, 11, 86);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) s.image.push_back(i < 3 ? (j < 3 ? P(i, j) : q(i)) : j == 3);
  const std::vector<std::vector<double>> rest = {{0, 0, 0, 0, 0, 0, 10, 0, 10, 10.04}, {12, 5, .2, 0, 0, 0, 10, .002, 9.97, 10.02}, {-3, 8, .5, .02, -.03, .4, 10.03, .0004, 10, 10.05}};
  s.image.insert(s.image.end(), rest[img].begin(), rest[img].end());
  if (single) for (auto* v : {&s.extrinsic, &s.intrinsic, &s.image}) for (double& x : *v) x = (float)x;
  return s;
}
static void Prepare(const Setup& s, CameraCalibration* c, CameraImage* g) {
  for (double x : s.extrinsic) c->mutable_extrinsic()->add_transform(x); for (double x : s.intrinsic) c->add_intrinsic(x); c->set_width(s.meta[0]); c->set_height(s.meta[1]); c->set_rolling_shutter_direction((CameraCalibration::RollingShutterReadOutDirection)s.meta[2]);
  for (int i = 0; i < 16; ++i) g->mutable_pose()->add_transform(s.image[i]);
  auto* v = g->mutable_velocity(); v->set_v_x(s.image[16]); v->set_v_y(s.image[17]); v->set_v_z(s.image[18]); v->set_w_x(s.image[19]); v->set_w_y(s.image[20]); v->set_w_z(s.image[21]);
  g->set_pose_timestamp(s.image[22]); g->set_shutter(s.image[23]); g->set_camera_trigger_time(s.image[24]); g->set_camera_readout_done_time(s.image[25]);
}
// Points as seen from the camera: ahead, to the sides, far, behind, far off the axis, beyond the image.
static const std::vector<V3> kP = {V3(20, 1, -2), V3(5, -1, .5), V3(80, 30, 4), V3(-10, 2, 1), V3(3, 6, 1), V3(12, -.1, 5), V3(40, 18, -3)};
static const std::vector<V3> kV = {V3(0, 0, 0), V3(11, -4, 1), V3(-6, 9, 3)};
static V3 World(const Setup& s, const V3& p) {
  Eigen::Matrix4d E, Q; for (int i = 0; i < 16; ++i) { E(i / 4, i % 4) = s.extrinsic[i]; Q(i / 4, i % 4) = s.image[i]; }
  return (Q * E * Eigen::Vector4d(p(0), p(1), p(2), 1)).head(3);
}
static tf::Tensor Ten(bool single, const std::vector<double>& v, std::vector<int64_t> sh) { return single ? tfop::Tn<float>(std::vector<float>(v.begin(), v.end()), sh) : tfop::Tn<double>(v, sh); }
static std::vector<double> Vals(const tf::Tensor& t) { std::vector<double> r; for (int64_t i = 0; i < t.NumElements(); ++i) r.push_back(t.dtype() == tf::DT_FLOAT ? (double)t.flat<float>()(i) : t.flat<double>()(i)); return r; }
static tfop::Op* Kernel(const std::string& n, bool single, int depth) {   // one object per kind: also exercises reuse
  static std::map<std::string, tfop::Op*> all; auto*& k = all[n + (single ? "f" : "d") + std::to_string(depth)];
  if (!k) { const auto T = single ? tf::DT_FLOAT : tf::DT_DOUBLE; std::vector<tf::DataType> in = {T, T, tf::DT_INT32, T, T}; if (n == "WorldToImageMovingPoint") in.push_back(T); std::vector<std::pair<std::string, tf::AttrValue>> at = {{"T", tfop::Attr(T)}}; if (depth >= 0) at.push_back({"return_depth", tfop::Attr((bool)depth)}); k = new tfop::Op(n, in, at); }
  return k;
}
static bool Close(double a, double b, bool single) { return std::fabs(a - b) <= (single ? 1e-6 : 1e-9) * std::max(1., std::fabs(b)); }
// One projection or back-projection call, judged point by point.
static bool Call(mc::Ctx& x, int kind, bool single, int depth, const Setup& s, const std::vector<V3>& pts, const std::vector<V3>& vel, const std::string& what) {
  static const char* kN[] = {"WorldToImage", "WorldToImageMovingPoint", "ImageToWorld"};
  auto* op = Kernel(kN[kind], single, kind == 2 ? -1 : depth); if (!op->ok()) { x.fail("op", op->err()); return false; }
  std::vector<double> p, v; for (auto& q : pts) for (int i = 0; i < 3; ++i) p.push_back(single ? (float)q(i) : q(i)); for (auto& q : vel) for (int i = 0; i < 3; ++i) v.push_back(single ? (float)q(i) : q(i));
  const int64_t n = pts.size();
  std::vector<tf::Tensor> in = {Ten(single, s.extrinsic, {4, 4}), Ten(single, s.intrinsic, {9}), tfop::Tn<int32_t>(std::vector<int32_t>(s.meta.begin(), s.meta.end()), {3}), Ten(single, s.image, {26}), Ten(single, p, {n, 3})}; if (kind == 1) in.push_back(Ten(single, v, {n, 3}));
  std::vector<tf::Tensor> out; x.step(); if (!op->Run(in, &out) || out.size() != 1) { x.fail("op", op->err() + " for " + what); return false; }
  const int w = kind == 2 ? 3 : 3 + depth; if (out[0].dims() != 2 || out[0].dim_size(0) != n || out[0].dim_size(1) != w) { x.fail("shape", "output " + tfop::Sh(out[0]) + " for " + what); return false; }
  const auto r = Vals(out[0]); CameraCalibration cal; CameraImage img; Prepare(s, &cal, &img); CameraModel m(cal); m.PrepareProjection(img);
  for (int64_t i = 0; i < n; ++i) {
    double a = 0, b = 0, c = 0; std::vector<double> e; const double* q = &p[3 * i];
    if (kind == 2) { m.ImageToWorld(q[0], q[1], q[2], &a, &b, &c); e = {a, b, c}; }
    else { const bool ok = kind ? m.WorldToImageMovingPointWithDepth(q[0], q[1], q[2], v[3 * i], v[3 * i + 1], v[3 * i + 2], false, &a, &b, &c) : m.WorldToImageWithDepth(q[0], q[1], q[2], false, &a, &b, &c); e = {a, b}; if (depth) e.push_back(c); e.push_back(ok); x.outcome(ok ? "valid" : "invalid"); }
    for (int k = 0; k < w; ++k) if (!Close(r[i * w + k], e[k], single)) { x.fail("value", std::string(kN[kind]) + " point " + std::to_string(i) + " column " + std::to_string(k) + ": " + std::to_string(r[i * w + k]) + " instead of " + std::to_string(e[k]) + " for " + what); return false; }
  }
  x.state(what); x.sample([&] { return what; });
  return true;
}
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  m.family("calls", "three ops x float and double x with and without depth x 3 calibrations x 5 shutter directions x 3 motions x up to 2 (thorough 3) of 7 points with velocities", [=](mc::Ctx& x) {
    const int kind = x.choose(3); const bool single = x.flip(); const int depth = kind == 2 ? 0 : x.choose(2), cal = x.choose(3), dir = 1 + x.choose(5), img = x.choose(3), n = x.choose(th ? 4 : 3); std::vector<int> pi, vi; for (int i = 0; i < n; ++i) { pi.push_back(x.choose(7)); vi.push_back(kind == 1 ? x.choose(3) : 0); }
    if (!th && n == 2 && kind == 1 && (pi[0] + 2 * pi[1] + vi[0] + dir + cal) % 4) return;
    if (th && n == 3 && (pi[0] + 2 * pi[1] + 3 * pi[2] + vi[0] + 2 * vi[1] + dir) % (kind == 1 ? 13 : 2)) return;
    if (!x.go()) return;
    const Setup s = Make(cal, dir, img, single); std::vector<V3> P, V; for (int i = 0; i < n; ++i) { P.push_back(kind == 2 ? V3(100 + 250 * pi[i], 800 - 90 * pi[i], 2 + 9 * pi[i]) : World(s, kP[pi[i]])); V.push_back(kV[vi[i]]); }
    Call(x, kind, single, depth, s, P, V, std::string(kind == 0 ? "projection" : kind == 1 ? "moving projection" : "back-projection") + (single ? " float" : " double") + " depth " + std::to_string(depth) + " calibration " + std::to_string(cal) + " direction " + std::to_string(dir) + " motion " + std::to_string(img) + " points " + mc::Str(pi) + " velocities " + mc::Str(vi));
  });
  m.family("histories", "all sequences of 3 (thorough 4) calls on the same kernels over op, type, calibration and motion", [=](mc::Ctx& x) {
    std::vector<std::vector<int>> h; for (int i = 0; i < (th ? 4 : 3); ++i) h.push_back({x.choose(3), x.choose(2), x.choose(2), x.choose(2)});
    if (th && (h[0][0] + 2 * h[1][1] + h[2][2] + h[3][3] + h[1][0]) % 4) return;
    if (!x.go()) return;
    std::string what = "calls"; for (auto& q : h) what += " " + mc::Str(q);
    for (auto& q : h) { const Setup s = Make(1 + q[2], q[2] ? 3 : 1, 1 + q[3], q[1]); std::vector<V3> P, V; for (int i = 0; i <= q[3]; ++i) { P.push_back(q[0] == 2 ? V3(300 + 200 * i, 500, 9 + i) : World(s, kP[i])); V.push_back(kV[1 + i]); } if (!Call(x, q[0], q[1], q[0] == 2 ? 0 : q[2], s, P, V, what)) return; }
  });
  m.family("shapes", "shape inference of the three ops with known and unknown numbers of points", [=](mc::Ctx& x) {
    const int kind = x.choose(3), depth = kind == 2 ? 0 : x.choose(2), dt = x.choose(2), n = x.choose(4) - 1;
    if (!x.go()) return;
    static const char* kN[] = {"WorldToImage", "WorldToImageMovingPoint", "ImageToWorld"}; const tf::OpRegistrationData* d = nullptr; auto st = tf::OpRegistry::Global()->LookUp(kN[kind], &d); if (!st.ok() || !d->shape_inference_fn) return x.fail("shape-fn", "no shape function");
    tf::AttrValueMap at; at["T"] = tfop::Attr(dt ? tf::DT_FLOAT : tf::DT_DOUBLE); if (kind != 2) at["return_depth"] = tfop::Attr((bool)depth);
    std::vector<tf::PartialTensorShape> in = {tf::PartialTensorShape({4, 4}), tf::PartialTensorShape({9}), tf::PartialTensorShape({3}), tf::PartialTensorShape({26}), tf::PartialTensorShape({n, 3})}; if (kind == 1) in.push_back(tf::PartialTensorShape({n, 3}));
    tf::AttrSlice slice(&at); tf::shape_inference::InferenceContext c(TF_GRAPH_DEF_VERSION, slice, d->op_def, in, {}, {}, {}); st = c.construction_status(); if (st.ok()) st = c.Run(d->shape_inference_fn); x.step();
    if (!st.ok()) return x.fail("shape-fn", st.ToString());
    tf::TensorShapeProto p; c.ShapeHandleToProto(c.output(0), &p); const tf::PartialTensorShape got(p), want({n, kind == 2 ? 3 : 3 + depth});
    if (!got.IsCompatibleWith(want)) x.fail("shape-fn", std::string(kN[kind]) + ": inferred " + got.DebugString() + " but the result is " + want.DebugString());
    x.outcome("compatible"); x.state(kind * 100 + depth * 10 + n + dt * 50);
  });
  return m.run();
}
