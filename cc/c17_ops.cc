// C17: tensor interfaces (TensorFlow kernels) against the library on the described frames.
#define TFOP_MAIN
#include "tfop.h"
#include "motionref.h"
#include "waymo_open_dataset/dataset.pb.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/iou.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
#include "waymo_open_dataset/wdl_limited/camera/camera_model.h"
using namespace waymo::open_dataset;
namespace tf = tensorflow;
using tfop::Attr; using tfop::Fl; using tfop::Tb; using tfop::Tn; using tfop::Ts;
using V = std::vector<int>; using F = std::vector<float>; using Outs = std::vector<tf::Tensor>;
struct Row { std::string seq; int64_t frame = 0, id = 0; F box; int type = 1; float score = .5; int nlz = 0, diff = 2; float vx = 0, vy = 0; };
struct Table { std::vector<Row> pd, gt; };
static std::string ShowR(const Row& r, bool gt) { std::ostringstream o; o << "{" << r.seq << " frame " << r.frame << " id " << r.id << " type " << r.type << " box"; for (float v : r.box) o << " " << v; if (gt) o << " level " << r.diff << " speed " << r.vx << "," << r.vy; else o << " score " << r.score << " nlz " << r.nlz; o << "}"; return o.str(); }
static std::string ShowT(const Table& t) { std::string s = "predictions"; for (auto& r : t.pd) s += ShowR(r, false); s += " ground truth"; for (auto& r : t.gt) s += ShowR(r, true); return s.substr(0, 1800); }
// the object a row describes
static Object Obj(const Row& r, bool gt, bool tracking) {
  Object o; auto* L = o.mutable_object(); auto* b = L->mutable_box(); L->set_type((Label::Type)r.type); const F& v = r.box;
  b->set_center_x(v[0]); b->set_center_y(v[1]);
  if (v.size() == 7) { b->set_center_z(v[2]); b->set_length(v[3]); b->set_width(v[4]); b->set_height(v[5]); b->set_heading(v[6]); }
  else { b->set_length(v[2]); b->set_width(v[3]); if (v.size() == 5) b->set_heading(v[4]); }
  if (gt) { L->set_detection_difficulty_level((Label::DifficultyLevel)r.diff); L->set_tracking_difficulty_level((Label::DifficultyLevel)r.diff); L->mutable_metadata()->set_speed_x(r.vx); L->mutable_metadata()->set_speed_y(r.vy); }
  else { o.set_score(r.score); o.set_overlap_with_nlz(r.nlz); }
  if (tracking) L->set_id(std::to_string(r.id));
  return o;
}
using Frames = std::vector<std::vector<Object>>;
static void Group(const Table& t, bool tracking, std::vector<Frames>* pd, std::vector<Frames>* gt) {   // per sequence, per frame
  std::map<std::string, std::map<int64_t, std::pair<std::vector<Object>, std::vector<Object>>>> m;
  for (auto& r : t.pd) m[tracking ? r.seq : ""][r.frame].first.push_back(Obj(r, false, tracking));
  for (auto& r : t.gt) m[tracking ? r.seq : ""][r.frame].second.push_back(Obj(r, true, tracking));
  for (auto& [s, fs] : m) { pd->emplace_back(); gt->emplace_back(); for (auto& [f, x] : fs) { pd->back().push_back(x.first); gt->back().push_back(x.second); } }
}
static Outs In(const Table& t, int dof, bool tracking) {
  Outs in; for (int side = 0; side < 2; ++side) {
    const auto& rs = side ? t.gt : t.pd; const int64_t n = rs.size(); F box, sc, sp; std::vector<uint8_t> ty, df; std::vector<int64_t> fr, id; std::vector<std::string> sq; V nl;
    for (auto& r : rs) { box.insert(box.end(), r.box.begin(), r.box.end()); sc.push_back(r.score); ty.push_back(r.type); fr.push_back(r.frame); id.push_back(r.id); sq.push_back(r.seq); nl.push_back(r.nlz); df.push_back(r.diff); sp.push_back(r.vx); sp.push_back(r.vy); }
    in.push_back(Tn<float>(box, {n, dof})); in.push_back(Tn<uint8_t>(ty, {n}));
    if (!side) in.push_back(Tn<float>(sc, {n}));
    in.push_back(Tn<int64_t>(fr, {n})); if (tracking) { in.push_back(Ts(sq)); in.push_back(Tn<int64_t>(id, {n})); }
    if (!side) in.push_back(Tb(nl, {n})); else { in.push_back(Tn<uint8_t>(df, {n})); in.push_back(Tn<float>(sp, {n, 2})); }
  }
  return in;
}
static const std::vector<tf::DataType> kDet = {tf::DT_FLOAT, tf::DT_UINT8, tf::DT_FLOAT, tf::DT_INT64, tf::DT_BOOL, tf::DT_FLOAT, tf::DT_UINT8, tf::DT_INT64, tf::DT_UINT8, tf::DT_FLOAT};
static const std::vector<tf::DataType> kTrk = {tf::DT_FLOAT, tf::DT_UINT8, tf::DT_FLOAT, tf::DT_INT64, tf::DT_STRING, tf::DT_INT64, tf::DT_BOOL, tf::DT_FLOAT, tf::DT_UINT8, tf::DT_INT64, tf::DT_STRING, tf::DT_INT64, tf::DT_UINT8, tf::DT_FLOAT};
static const std::vector<tf::DataType> kMot = {tf::DT_FLOAT, tf::DT_FLOAT, tf::DT_FLOAT, tf::DT_BOOL, tf::DT_INT64, tf::DT_BOOL, tf::DT_INT64, tf::DT_INT64, tf::DT_STRING};
static tfop::Op* Kernel(const std::string& name, const std::vector<tf::DataType>& in, const std::string& cfg) {
  static auto* m = new std::map<std::pair<std::string, std::string>, tfop::Op*>; auto*& p = (*m)[{name, cfg}];
  if (!p) p = new tfop::Op(name, in, {{"config", Attr(cfg)}}); return p;
}
static Config Cfg(Label::Box::Type bt, const F& cuts, int desired = 0) {
  Config c; int k = 0; for (auto g : {Breakdown::OBJECT_TYPE, Breakdown::ONE_SHARD, Breakdown::RANGE, Breakdown::VELOCITY}) { c.add_breakdown_generator_ids(g); auto* d = c.add_difficulties(); if (k == 0 || k == 3) { d->add_levels(Label::LEVEL_1); d->add_levels(Label::LEVEL_2); } if (k == 2) d->add_levels(Label::LEVEL_1); ++k; }
  for (float x : cuts) c.add_score_cutoffs(x); if (desired) c.set_num_desired_score_cutoffs(desired);
  for (float x : {.0, .5, .3, .4, .5}) c.add_iou_thresholds(x); c.set_matcher_type(MatcherProto::TYPE_HUNGARIAN); c.set_box_type(bt);
  auto* la = c.mutable_let_metric_config(); la->set_enabled(false); return c;
}
static bool Close(const F& a, const F& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-5 + 1e-5 * std::fabs(b[i]))) return false; return true; }
static std::string Df(const F& a, const F& b) { std::ostringstream o; if (a.size() != b.size()) { o << a.size() << " values, expected " << b.size(); return o.str(); } for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-5 + 1e-5 * std::fabs(b[i]))) { o << "value " << i << " is " << a[i] << ", expected " << b[i]; return o.str(); } return "equal"; }
static const char* kDetOut[7] = {"average precision", "heading weighted average precision", "affinity weighted average precision", "precision/recall", "heading weighted precision/recall", "affinity weighted precision/recall", "breakdown"};
static std::vector<F> DetFlat(const std::vector<DetectionMetrics>& ms, int ncut) {
  std::vector<F> r(7);
  for (auto& m : ms) {
    r[0].push_back(m.mean_average_precision()); r[1].push_back(m.mean_average_precision_ha_weighted()); r[2].push_back(m.mean_average_precision_longitudinal_affinity_weighted());
    for (int j = 0; j < ncut; ++j) {
      const auto& q = m.measurements().measurements(j);
      for (float v : {m.precisions(j), m.recalls(j), (float)q.num_tps(), (float)q.num_fps(), (float)q.num_fns()}) r[3].push_back(v);
      r[4].push_back(m.precisions_ha_weighted(j)); r[4].push_back(m.recalls_ha_weighted(j)); r[5].push_back(m.precisions_longitudinal_affinity_weighted(j)); r[5].push_back(m.recalls_longitudinal_affinity_weighted(j));
    }
    r[6].push_back(m.breakdown().generator_id()); r[6].push_back(m.breakdown().shard()); r[6].push_back(m.breakdown().difficulty_level());
  }
  return r;
}
static std::vector<DetectionMetrics> DetLib(const Config& cfg, const Table& t, int* ncut) {
  std::vector<Frames> pd, gt; Group(t, false, &pd, &gt); if (pd.empty()) { pd.push_back({{}}); gt.push_back({{}}); }
  Config c = cfg; if (c.score_cutoffs_size() == 0) c = EstimateScoreCutoffs(c, pd[0], gt[0]); *ncut = c.score_cutoffs_size();
  return ComputeDetectionMetrics(cfg, pd[0], gt[0]);
}
static bool CmpDet(mc::Ctx& c, const Outs& out, const std::vector<F>& want, int ncut, const std::string& key, const std::string& where) {
  for (int i = 0; i < 7; ++i) { if (!Close(Fl(out[i]), want[i])) { c.fail(key, std::string(kDetOut[i]) + ": " + Df(Fl(out[i]), want[i]) + " for " + where); return false; } }
  const int64_t B = want[0].size();
  for (int i = 3; i < 6; ++i) if (out[i].dims() != 3 || out[i].dim_size(0) != B || out[i].dim_size(2) != (i == 3 ? 5 : 2)) { c.fail("shape", std::string(kDetOut[i]) + " has shape " + tfop::Sh(out[i])); return false; }
  if (out[6].dims() != 2 || out[6].dim_size(1) != 3 || out[6].dim_size(0) != B) { c.fail("shape", "breakdown has shape " + tfop::Sh(out[6])); return false; }
  return true;
}
static F Box(int dof, float x, float y, float h, float z = 1) { if (dof == 7) return {x, y, z, 4, 2, 1.5, h}; if (dof == 5) return {x, y, 4, 2, h}; return {x, y, 4, 2}; }
static Row DP(int dof, int k, int i) {   // prediction row: frame(2) x box(3) x attributes(4)
  Row r; r.frame = k % 2 ? (1LL << 32) - 7 : -7; k /= 2; r.box = k % 3 == 0 ? Box(dof, 10.25, 0, .3) : k % 3 == 1 ? Box(dof, 10.5 + .25 * i, .25, 0, 1.25) : Box(dof, 40.25, 5, .1 * i); k /= 3;
  r.type = k == 1 ? 2 : 1; r.score = k == 2 ? .3 : .8 - .1 * i; r.nlz = k == 3; return r;
}
static Row DG(int dof, int k, int i) {   // truth row: frame(2) x box(2) x attributes(4)
  Row r; r.frame = k % 2 ? (1LL << 32) - 7 : -7; k /= 2; r.box = k % 2 == 0 ? Box(dof, 10 + .125 * i, 0, 0) : Box(dof, 40, 5 + .125 * i, 0); k /= 2;
  r.type = k == 2 ? 2 : 1; r.diff = k == 1 || k == 3 ? 1 : 2; if (k >= 2) { r.vx = 2; r.vy = k == 3 ? -9 : 0; } return r;
}
static bool DetRun(mc::Ctx& c, const Config& cfg, const Table& t, int dof, const std::string& key, Outs* out = nullptr) {
  Outs o; auto* k = Kernel("DetectionMetrics", kDet, cfg.SerializeAsString()); c.step();
  if (!k->ok() || !k->Run(In(t, dof, false), &o)) { c.fail("error", "kernel error " + k->err() + " for " + ShowT(t)); return false; }
  int nc; const auto lib = DetLib(cfg, t, &nc); if (out) *out = o;
  return CmpDet(c, o, DetFlat(lib, nc), nc, key, std::to_string(dof) + "-parameter boxes as " + Label::Box::Type_Name(cfg.box_type()) + " " + ShowT(t));
}
static std::vector<F> TrkFlat(const std::vector<TrackingMetrics>& ms) {
  std::vector<F> r(7); for (auto& m : ms) { r[0].push_back(m.mota()); r[1].push_back(m.motp()); r[2].push_back(m.miss()); r[3].push_back(m.mismatch()); r[4].push_back(m.fp()); r[5].push_back(m.score_cutoff()); r[6].push_back(m.breakdown().generator_id()); r[6].push_back(m.breakdown().shard()); r[6].push_back(m.breakdown().difficulty_level()); }
  return r;
}
static bool TrkRun(mc::Ctx& c, const Config& cfg, const Table& t, int dof, const std::string& key, std::vector<F>* want = nullptr) {
  Outs o; auto* k = Kernel("TrackingMetrics", kTrk, cfg.SerializeAsString()); c.step();
  if (!k->ok() || !k->Run(In(t, dof, true), &o)) { c.fail("error", "kernel error " + k->err() + " for " + ShowT(t)); return false; }
  std::vector<Frames> pd, gt; Group(t, true, &pd, &gt); const auto w = TrkFlat(ComputeTrackingMetrics(cfg, pd, gt)); if (want) *want = w;
  static const char* nm[7] = {"mota", "motp", "miss", "mismatch", "fp", "score cutoff", "breakdown"};
  for (int i = 0; i < 7; ++i) if (!Close(Fl(o[i]), w[i])) { c.fail(key, std::string(nm[i]) + ": " + Df(Fl(o[i]), w[i]) + " for " + ShowT(t)); return false; }
  return true;
}
// rows of one (sequence, frame) cell
static void Cell(Table* t, const std::string& seq, int64_t frame, int k, int dof) {
  auto add = [&](bool gt, int64_t id, float x, int type, float score, int diff, int nlz = 0) { Row r; r.seq = seq; r.frame = frame; r.id = id; r.box = Box(dof, x, 0, 0); r.type = type; r.score = score; r.diff = diff; r.nlz = nlz; r.vx = 3; r.vy = frame > 0 ? 0 : -8; (gt ? t->gt : t->pd).push_back(r); };
  switch (k) {
    case 0: return;
    case 1: add(true, 4, 10, 1, 0, 1); return;                                                   // missed, level 1
    case 2: add(false, 9, 10, 1, .8, 0); return;                                                 // false positive
    case 3: add(true, 4, 10, 1, 0, 2); add(false, 9, 10.5, 1, .8, 0); return;                      // hit
    case 4: add(true, 4, 10, 1, 0, 1); add(false, (1LL << 32) + 9, 10.25, 1, .4, 0); return;                     // hit by another track
    case 5: add(true, 4, 10, 1, 0, 2); add(true, -5, 40, 2, 0, 1); add(false, 9, 40.25, 2, .6, 0); return;
    default: add(true, 4, 10, 1, 0, 2); add(true, -5, 16, 1, 0, 2); add(false, 9, 16.5, 1, .8, 0); add(false, 8, 10.5, 1, .7, 0); add(false, 70, 60, 2, .9, 0, 1);
  }
}
static void Orders(std::vector<Row>* v, int how) { if (how == 1) std::reverse(v->begin(), v->end()); if (how == 2) { std::vector<Row> a, b; for (size_t i = 0; i < v->size(); ++i) (i % 2 ? a : b).push_back((*v)[i]); a.insert(a.end(), b.begin(), b.end()); *v = a; } }
// ---- motion
struct MB { int B, M, K, N, A; std::vector<F> traj; std::vector<F> score; V valid, idx, mask; std::vector<int64_t> type, id; };
template <class T> static CameraCalibration CalibOf(const std::vector<T>& ext, const std::vector<T>& in, const V& meta) { CameraCalibration k; for (T v : ext) k.mutable_extrinsic()->add_transform(v); for (T v : in) k.add_intrinsic(v); k.set_width(meta[0]); k.set_height(meta[1]); k.set_rolling_shutter_direction((CameraCalibration::RollingShutterReadOutDirection)meta[2]); return k; }
template <class T> static CameraImage ImageOf(const std::vector<T>& m) { CameraImage g; for (int i = 0; i < 16; ++i) g.mutable_pose()->add_transform(m[i]); auto* v = g.mutable_velocity(); v->set_v_x(m[16]); v->set_v_y(m[17]); v->set_v_z(m[18]); v->set_w_x(m[19]); v->set_w_y(m[20]); v->set_w_z(m[21]); g.set_pose_timestamp(m[22]); g.set_shutter(m[23]); g.set_camera_trigger_time(m[24]); g.set_camera_readout_done_time(m[25]); return g; }
template <class T> static void Camera(mc::Ctx& c, int cal, int img, int n, int what, const V& pts) {
  const T a = cal == 0 ? 0 : 1.1, ca = std::cos(a), sa = std::sin(a), b = img == 0 ? 0 : -.4, cb = std::cos(b), sb = std::sin(b);
  const std::vector<T> ext = {ca, -sa, 0, T(1.5), sa, ca, 0, T(cal ? .4 : 0), 0, 0, 1, 2, 0, 0, 0, 1}, in = {2000, 2010, 940, 650, T(cal == 2 ? .04 : 0), T(cal == 2 ? -.3 : 0), T(cal == 2 ? .002 : 0), T(cal == 2 ? .001 : 0), T(cal == 2 ? .01 : 0)};
  std::vector<T> im = {cb, -sb, 0, T(img ? 3 : 0), sb, cb, 0, T(img ? -4 : 0), 0, 0, 1, T(img ? .5 : 0), 0, 0, 0, 1}; for (T v : {T(img ? 5 : 0), T(img ? -1 : 0), T(img ? .2 : 0), T(img == 2 ? .02 : 0), T(img == 2 ? -.03 : 0), T(img == 2 ? .3 : 0)}) im.push_back(v);
  for (T v : {T(100.02), T(img ? .002 : 0), T(100), T(100.05)}) im.push_back(v);
  const V meta = {1920, 1280, cal == 0 ? 5 : cal == 1 ? 2 : 1}; CameraModel mod(CalibOf(ext, in, meta)); mod.PrepareProjection(ImageOf(im));
  std::vector<T> x, v; static const double P[5][3] = {{20, 1, 2}, {25, -6, 1}, {-9, 3, 2}, {0, 14, 3}, {900, 500, .5}}, Q[5][3] = {{940, 650, 10}, {12, 1200, 4}, {-300, 2000, 30}, {1900, 3, 7}, {500, 500, .5}}, W[5][3] = {{0, 0, 0}, {3, -2, .1}, {-12, 7, 0}, {1, 1, 1}, {20, 0, -4}};
  for (int i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) { x.push_back(what == 2 ? Q[pts[i]][d] : P[pts[i]][d]); v.push_back(W[(pts[i] + i) % 5][d]); }
  const auto dt = tf::DataTypeToEnum<T>::value; Outs inp = {Tn<T>(ext, {4, 4}), Tn<T>(in, {9}), Tn<int32_t>(V(meta), {3}), Tn<T>(im, {26}), Tn<T>(x, {n, 3})}; if (what == 1 || what == 4) inp.push_back(Tn<T>(v, {n, 3}));
  const bool depth = what >= 3; const std::string nm = what == 2 ? "ImageToWorld" : what == 1 || what == 4 ? "WorldToImageMovingPoint" : "WorldToImage";
  static auto* ks = new std::map<std::string, tfop::Op*>; auto*& k = (*ks)[nm + std::to_string(depth) + std::to_string((int)dt)];
  if (!k) { std::vector<tf::DataType> ts = {dt, dt, tf::DT_INT32, dt, dt}; if (inp.size() == 6) ts.push_back(dt); std::vector<std::pair<std::string, tf::AttrValue>> at = {{"T", Attr(dt)}}; if (what != 2) at.push_back({"return_depth", Attr(depth)}); k = new tfop::Op(nm, ts, at); }
  Outs o; c.step(); if (!k->ok() || !k->Run(inp, &o)) { c.fail("error", nm + ": " + k->err()); return; }
  const int w = what == 2 ? 3 : 3 + depth; if (o[0].dims() != 2 || o[0].dim_size(0) != n || o[0].dim_size(1) != w) { c.fail("camera-shape", nm + " returns " + tfop::Sh(o[0])); return; }
  const auto g = o[0].template matrix<T>(); int ok = 0;
  for (int i = 0; i < n; ++i) {
    double e[4] = {}; const double X = x[3 * i], Y = x[3 * i + 1], Z = x[3 * i + 2]; double d = 0; bool val = false;
    if (what == 2) mod.ImageToWorld(X, Y, Z, &e[0], &e[1], &e[2]);
    else if (what == 1 || what == 4) val = mod.WorldToImageMovingPointWithDepth(X, Y, Z, v[3 * i], v[3 * i + 1], v[3 * i + 2], false, &e[0], &e[1], &d);
    else val = mod.WorldToImageWithDepth(X, Y, Z, false, &e[0], &e[1], &d);
    if (what != 2) { if (depth) e[2] = d; e[w - 1] = val; ok += val; }
    for (int q = 0; q < w; ++q) if (!(std::fabs(g(i, q) - T(e[q])) <= 1e-6 + 1e-6 * std::fabs(e[q]))) { std::ostringstream s; s.precision(10); s << nm << (depth ? " with depth" : "") << " calibration " << cal << " image " << img << " point " << i << " (" << X << "," << Y << "," << Z << ") column " << q << " is " << g(i, q) << ", library " << e[q]; c.fail("camera", s.str()); return; }
  }
  c.outcome(nm + (what == 2 ? "" : " valid " + std::to_string(ok))); c.state(mc::Mix(cal * 100 + img, mc::HashStr(mc::Str(pts) + nm))); c.sample([&] { return nm + " calibration " + std::to_string(cal) + " points " + mc::Str(pts); });
}
int main(int argc, char** argv) {
  setenv("TF_CPP_MIN_LOG_LEVEL", "3", 1);
  mc::Main m(argc, argv); const bool th = m.thorough();
  const F cuts = {0, .2, .5, .75};
  m.family("detection rows", "all tables of <=2 predictions (24 row kinds) and <=2 truths (16 row kinds; quick: unordered pairs) with 7-parameter 3D boxes; fixed score cutoffs, alternating with estimated ones", [=](mc::Ctx& c) {
    const int np = c.choose(3), ng = c.choose(3); V p, g; for (int i = 0; i < np; ++i) p.push_back(c.choose(24)); for (int i = 0; i < ng; ++i) g.push_back(c.choose(16));
    if (!th && ((np == 2 && p[0] > p[1]) || (ng == 2 && g[0] > g[1]) || (np + ng == 4 && (p[0] + 3 * p[1] + 5 * g[0] + 7 * g[1]) % 3))) return;
    if (!c.go()) return;
    Table t; for (int i = 0; i < np; ++i) t.pd.push_back(DP(7, p[i], i)); for (int i = 0; i < ng; ++i) t.gt.push_back(DG(7, g[i], i));
    const bool est = (np + ng + (np ? p[0] : 0)) % 4 == 1; Outs o; if (!DetRun(c, Cfg(Label::Box::TYPE_3D, est ? F{} : cuts, est ? 5 : 0), t, 7, est ? "estimated-cutoffs" : "detection", &o)) return;
    float ap = 0; for (float v : Fl(o[0])) ap = std::max(ap, v); c.outcome(ap == 0 ? "no match" : "matched"); c.state(mc::HashStr(mc::Str(p) + mc::Str(g))); c.sample([&] { return ShowT(t); });
  });
  m.family("box encodings", "4, 5 and 7 parameter boxes x the box types they can be evaluated as (also more parameters than needed): tables of <=2 predictions and <=1 truth", [=](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> enc = {{4, Label::Box::TYPE_AA_2D}, {5, Label::Box::TYPE_2D}, {7, Label::Box::TYPE_2D}, {5, Label::Box::TYPE_AA_2D}, {7, Label::Box::TYPE_AA_2D}, {7, Label::Box::TYPE_3D}};
    const auto e = enc[c.choose(6)]; const int np = c.choose(3), ng = c.choose(2); V p, g; for (int i = 0; i < np; ++i) p.push_back(c.choose(24)); for (int i = 0; i < ng; ++i) g.push_back(c.choose(16));
    if (np == 2 && p[0] > p[1]) return;
    if (!c.go()) return;
    Table t; for (int i = 0; i < np; ++i) t.pd.push_back(DP(e.first, p[i], i)); for (int i = 0; i < ng; ++i) t.gt.push_back(DG(e.first, g[i], i));
    if (e.first > 4) { if (np) t.pd[0].box.back() = 1.5; }
    if (!DetRun(c, Cfg((Label::Box::Type)e.second, cuts), t, e.first, "box-encoding")) return;
    if (np < 2) { for (auto& r : t.pd) r.id = 1; for (auto& r : t.gt) r.id = 2; if (!TrkRun(c, Cfg((Label::Box::Type)e.second, cuts), t, e.first, "box-encoding-tracking")) return; }
    c.outcome(std::to_string(e.first) + " as " + Label::Box::Type_Name((Label::Box::Type)e.second)); c.state(mc::HashStr(ShowT(t)));
  });
  m.family("row order", "tables of 4 predictions and 3 truths over 2 frames (40, thorough 200 tables) in all 24x6 row orders: same numbers as the original order", [=](mc::Ctx& c) {
    const int k = c.choose(th ? 200 : 40); int a = c.choose(24), b = c.choose(6); if (!c.go()) return;
    Table t; for (int i = 0; i < 4; ++i) { Row r = DP(7, (k * 7 + i * 5 + k * i * 3) % 24, i); r.score = .9 - .15 * ((i + k) % 4); r.box[1] += .3 * i; t.pd.push_back(r); } for (int i = 0; i < 3; ++i) { Row r = DG(7, (k * 3 + i * 5 + k * i) % 16, i); r.box[1] += .17 * i; r.id = i; t.gt.push_back(r); }
    Table u = t; V pa = {0, 1, 2, 3}, pb = {0, 1, 2}; while (a--) std::next_permutation(pa.begin(), pa.end()); while (b--) std::next_permutation(pb.begin(), pb.end());
    for (int i = 0; i < 4; ++i) u.pd[i] = t.pd[pa[i]]; for (int i = 0; i < 3; ++i) u.gt[i] = t.gt[pb[i]];
    const auto cfg = Cfg(Label::Box::TYPE_3D, cuts); Outs o; if (!DetRun(c, cfg, u, 7, "detection", &o)) return; int nc; CmpDet(c, o, DetFlat(DetLib(cfg, t, &nc), 4), 4, "row-order", ShowT(u)); c.outcome("same"); c.state(mc::Mix(k, mc::HashStr(mc::Str(pa) + mc::Str(pb))));
  });
  m.family("batches", "3 frames, each with one of 7 contents, dealt in all 27 ways to 3 batches (also empty ones): states added up give the metrics of one evaluation, and match the library's counts", [=](mc::Ctx& c) {
    int f[3], w[3]; for (int i = 0; i < 3; ++i) f[i] = c.choose(7); for (int i = 0; i < 3; ++i) w[i] = c.choose(3);
    if (!c.go()) return;
    static const int64_t id[3] = {5, -3, (1LL << 32) + 5}; Table all, part[3]; for (int i = 0; i < 3; ++i) { Cell(&all, "", id[i], f[i], 7); Cell(&part[w[i]], "", id[i], f[i], 7); }
    const auto cfg = Cfg(Label::Box::TYPE_3D, cuts); auto* ks = Kernel("DetectionMetricsState", kDet, cfg.SerializeAsString()); auto* kr = Kernel("DetectionMetricsResult", {tf::DT_FLOAT}, cfg.SerializeAsString());
    F sum; std::vector<int64_t> shp; for (int i = 0; i < 3; ++i) {
      Outs o; c.step(); if (!ks->ok() || !ks->Run(In(part[i], 7, false), &o)) { c.fail("error", "state kernel: " + ks->err()); return; }
      F v = Fl(o[0]); if (sum.empty()) { sum = F(v.size(), 0); for (int d = 0; d < o[0].dims(); ++d) shp.push_back(o[0].dim_size(d)); } if (v.size() != sum.size()) { c.fail("state-shape", "states of different shapes: " + tfop::Sh(o[0]) + " for batch " + ShowT(part[i])); return; }
      for (size_t q = 0; q < v.size(); ++q) sum[q] += v[q];
    }
    Outs o; c.step(); if (!kr->ok() || !kr->Run({Tn<float>(sum, shp)}, &o)) { c.fail("error", "result kernel: " + kr->err()); return; }
    int nc; const auto lib = DetLib(cfg, all, &nc); CmpDet(c, o, DetFlat(lib, nc), nc, "state", "frames dealt " + mc::Str(V(w, w + 3)) + " of " + ShowT(all));
    c.outcome("batches " + std::to_string(std::set<int>(w, w + 3).size())); c.state(mc::HashStr(mc::Str(V(f, f + 3)) + mc::Str(V(w, w + 3))));
  });
  m.family("tracking rows", "2 sequences x 2 frames, each with one of 7 contents, in 3 row orders; fixed and estimated score cutoffs; frame and object ids shared between sequences", [=](mc::Ctx& c) {
    int f[4]; for (int i = 0; i < 4; ++i) f[i] = c.choose(7); const int ord = c.choose(3), est = c.choose(2); if (!c.go()) return;
    Table t; static const int64_t fr[2] = {-2, (1LL << 32) - 2}; for (int i = 0; i < 4; ++i) Cell(&t, i < 2 ? "seq-b" : "seq-a", fr[i % 2], f[i], 7); Orders(&t.pd, ord); Orders(&t.gt, ord ? 3 - ord : 0);
    std::vector<F> w; if (!TrkRun(c, Cfg(Label::Box::TYPE_3D, est ? F{} : cuts, est ? 4 : 0), t, 7, "tracking", &w)) return;
    float mm = 0, mota = 0; for (float x : w[3]) mm = std::max(mm, x); for (float x : w[0]) mota = std::max(mota, x); c.outcome(mm > 0 ? "mismatches" : mota > 0 ? "tracked" : "nothing"); c.state(mc::Mix(ord, mc::HashStr(mc::Str(V(f, f + 4))))); c.sample([&] { return ShowT(t); });
  });
  m.family("large tables", "1, 4 or 12 sequences (names that extend each other) x 5, 20 or 60 frames (numbers that extend each other) with every periodic pattern of three of 7 frame contents, in 3 row orders: detection (over the frames of one sequence) and tracking", [=](mc::Ctx& c) {
    static const int S[4][2] = {{1, 60}, {4, 20}, {12, 5}, {12, 20}}; const int sz = c.choose(th ? 4 : 3), a = c.choose(7), b = c.choose(7), d = c.choose(7), ord = c.choose(3); if (!th && (a + b + d + sz) % 4) return;
    if (!c.go()) return;
    Table t, one; for (int s = 0; s < S[sz][0]; ++s) { std::string name = "s"; for (int q = s; q > 0; q /= 3) name += std::to_string(q % 3 + (q % 3 == 0 ? 3 : 0)); for (int f = 0; f < S[sz][1]; ++f) { const int z = (f + s) % 3, k = z == 0 ? a : z == 1 ? b : d; const int64_t id = f % 4 == 3 ? -(f / 4 + 1) : f % 4 == 0 ? f / 4 + 1 : f % 4 == 1 ? 100 + f / 4 : (f / 4 + 1) + (1LL << 40); Cell(&t, name, id, k, 7); if (s == 0) Cell(&one, "", id, k, 7); } }
    for (auto* x : {&t, &one}) { Orders(&x->pd, ord); Orders(&x->gt, ord ? 3 - ord : 0); }
    std::vector<F> w; if (!TrkRun(c, Cfg(Label::Box::TYPE_3D, cuts), t, 7, "tracking", &w)) return;
    if (!DetRun(c, Cfg(Label::Box::TYPE_3D, cuts), one, 7, "detection")) return;
    float mm = 0; for (float x : w[3]) mm = std::max(mm, x); c.outcome(std::to_string(S[sz][0]) + "x" + std::to_string(S[sz][1]) + (mm > 0 ? " mismatches" : "")); c.state(mc::Mix(sz * 3 + ord, a * 49 + b * 7 + d)); c.sample([&] { return std::to_string(sz) + mc::Str(V{a, b, d}); });
  });
  m.family("motion", "1-2 scenarios x 1-2 groups x 1-2 predictions x 1-2 agents per group over 3 agents: all index tables (quick: distinct in a group), masks, agents without any valid state, types, listing orders of agents", [=](mc::Ctx& c) {
    const int B = c.choose(2) + 1, M = c.choose(2) + 1, N = c.choose(2) + 1, K = c.choose(2) + 1, A = 3; const int perm = c.choose(3), gone = c.choose(4), part = c.choose(3); std::vector<int64_t> idx; V mask; std::set<int> used; bool dup = false;
    // The second scenario mirrors the first one's tables.
    for (int g = 0; g < M; ++g) for (int n = 0; n < N; ++n) { idx.push_back(c.choose(A)); mask.push_back(!c.choose(2)); if (mask.back()) dup |= !used.insert(idx.back()).second; }
    if (dup) return;                                             // one prediction per agent, as the library demands
    if (!th && B == 2 && (perm == 2 || M * N == 4)) return;
    if (!c.go()) return;
    const auto cfg = mr::Config(1, 1, 1, 3, {0, 2}, K); const int TG = 5, TP = 3; F pt, ps, gt; V gv; std::vector<int64_t> gi, ty, id; V mk; std::vector<std::string> sid;
    BucketedMetricsStats tot; bool ok = true; std::string shown;
    for (int b = 0; b < B; ++b) {
      Scenario s; ScenarioPredictions P; sid.push_back(b ? "scene-a" : "scene-b"); s.set_scenario_id(sid.back()); P.set_scenario_id(sid.back()); std::map<int, int> track; Scenario full;
      for (int a = 0; a < A; ++a) {
        const int who = (a + perm + b) % A; Track* t = mr::AddTrack(&full, cfg, 100 + 40 * who + b, 1 + (who + b) % 3, 30 * who, 5 * b, .4 * who, 3 + 2 * who, who == 1 ? .2 : 0, 4 + who, 2); bool any = false;
        for (int k = 0; k < TG; ++k) { bool v = !((gone == 1 && a == 0) || (gone == 2 && a == 2) || (gone == 3 && a != 1)); if (part == 1 && k >= 3 && who == 2) v = false; if (part == 2 && k == 2 && who == 1) v = false; t->mutable_states(k)->set_valid(v); any |= v; gv.push_back(v); const auto& o = t->states(k); for (double x : {o.center_x(), o.center_y(), (double)o.length(), (double)o.width(), (double)o.heading(), (double)o.velocity_x(), (double)o.velocity_y()}) gt.push_back(x); }
        ty.push_back(t->object_type()); id.push_back(t->id());
        for (int k = 0; k < TG; ++k) { auto* o = t->mutable_states(k); float* v = &gt[gt.size() - 7 * (TG - k)]; o->set_center_x(v[0]); o->set_center_y(v[1]); }
        if (any) { track[a] = s.tracks_size(); *s.add_tracks() = *t; }
      }
      std::vector<F> traj;
      for (int g = 0; g < M; ++g) {
        bool any = false; for (int n = 0; n < N; ++n) { const int q = g * N + n; const bool on = mask[q] && track.count(idx[q]); gi.push_back(idx[q]); mk.push_back(mask[q]); any |= on; if (on) { auto* r = s.add_tracks_to_predict(); r->set_track_index(track[idx[q]]); r->set_difficulty(RequiredPrediction::LEVEL_1); } }
        MultimodalPrediction* mm = any ? P.add_multi_modal_predictions() : nullptr;
        for (int k = 0; k < K; ++k) {
          const float sc = .3 + .2 * ((k + g + b) % 3); ps.push_back(sc); JointTrajectories* j = any ? mm->add_joint_predictions() : nullptr; if (j) j->set_confidence(sc);
          for (int n = 0; n < N; ++n) {
            const int q = g * N + n; const Track& t = full.tracks(idx[q]); SingleTrajectory* st = mask[q] && track.count(idx[q]) ? j->add_trajectories() : nullptr; if (st) st->set_object_id(t.id());
            for (int k2 = 0; k2 < TP; ++k2) { const float x = t.states(2 + k2).center_x() + .3 * k + .2 * n, y = t.states(2 + k2).center_y() + .7 * k * (g ? -1 : 1) + .1 * k2 + (perm == 1 && n ? 3 : 0); pt.push_back(x); pt.push_back(y); if (st) { st->add_center_x(x); st->add_center_y(y); } }
          }
        }
      }
      BucketedMetricsStats r; const Status st = ComputeMetricsStats(cfg, P, s, &r); if (!st.ok()) ok = false; else tot.Accumulate(r);
      shown += mr::Show(cfg, P, s) + " ";
    }
    if (!ok) { c.outcome("rejected by the library"); return; }
    auto* k = Kernel("MotionMetrics", kMot, cfg.SerializeAsString()); Outs o; c.step();
    if (!k->ok() || !k->Run({Tn<float>(pt, {B, M, K, N, TP, 2}), Tn<float>(ps, {B, M, K}), Tn<float>(gt, {B, A, TG, 7}), Tb(gv, {B, A, TG}), Tn<int64_t>(gi, {B, M, N}), Tb(mk, {B, M, N}), Tn<int64_t>(ty, {B, A}), Tn<int64_t>(id, {B, A}), Ts(sid)}, &o)) { c.fail("error", "motion kernel: " + k->err() + " for " + shown); return; }
    const MotionMetrics mm = ComputeMotionMetrics(&tot); int i = 0, seen = 0; static const char* nm[5] = {"minimum average displacement", "minimum final displacement", "miss rate", "overlap rate", "mean average precision"};
    for (int q = 0; q < 5; ++q) if (o[q].NumElements() != 6) { c.fail("motion-shape", std::string(nm[q]) + " has shape " + tfop::Sh(o[q])); return; }
    for (int type = 1; type <= 3; ++type) for (int step : {0, 2}) {
      F e(5, -1); for (auto& b : mm.metrics_bundles()) if (b.object_filter() == type && b.measurement_step() == step) { e = {b.min_ade(), b.min_fde(), b.miss_rate(), b.overlap_rate(), b.mean_average_precision()}; ++seen; }
      for (int q = 0; q < 5; ++q) if (!(std::fabs(Fl(o[q])[i] - e[q]) <= 1e-5)) { c.fail("motion", std::string(nm[q]) + " of type " + std::to_string(type) + " step " + std::to_string(step) + " is " + std::to_string(Fl(o[q])[i]) + ", library " + std::to_string(e[q]) + " for " + shown); return; }
      ++i;
    }
    c.outcome("types " + std::to_string(seen / 2)); c.state(mc::HashStr(shown)); c.sample([&] { return shown; });
  });
  m.family("matching", "1-2 batches of 2 predictions and 2 truths, each one of 7 boxes (also zero padding, zero height, negative width), 4/5/7 parameters, both matchers: pairs, overlaps and affinities as the library matches the non-empty boxes", [=](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> enc = {{7, Label::Box::TYPE_3D}, {7, Label::Box::TYPE_2D}, {5, Label::Box::TYPE_2D}, {4, Label::Box::TYPE_AA_2D}};
    const auto e = enc[c.choose(4)]; const int B = c.choose(2) + 1, mt = c.choose(2); V k; for (int i = 0; i < 4; ++i) k.push_back(c.choose(7)); const int shift = B == 2 ? c.choose(3) : 0; const int P = 2, G = 2 + (B == 2); if (!c.go()) return;
    auto box = [&](int q, bool pd) { F b(7, 0); const float d = pd ? .2 : 0; switch (q) { case 0: break; case 1: b = {10 + d, 0, 1, 4, 2, 1.5, d}; break; case 2: b = {10.6f + d, .1, 1.1f, 4, 2, 2, 0}; break; case 3: b = {30 + d, 3, 0, 5, 2.2f, 1, 1}; break; case 4: b = {30.5f + d, 3, .3f, 5, 2.2f, 0, 1}; break; case 5: b = {10 + d, 0, 1, 4, -2, 1.5, 0}; break; default: b = {10 + d, .5f, 2, 4, 2, 3, 3.1f}; } if (e.first == 7) return b; F r = {b[0], b[1], b[3], b[4]}; if (e.first == 5) r.push_back(b[6]); return r; };
    F pv, gv; std::vector<std::vector<F>> pb(B), gb(B);
    for (int b = 0; b < B; ++b) { for (int i = 0; i < P; ++i) pb[b].push_back(box((k[i] + b * shift) % 7, true)); for (int i = 0; i < G; ++i) gb[b].push_back(box(i < 2 ? (k[2 + i] + b * shift * 2) % 7 : 3 * b, false)); for (auto& x : pb[b]) pv.insert(pv.end(), x.begin(), x.end()); for (auto& x : gb[b]) gv.insert(gv.end(), x.begin(), x.end()); }
    Config cfg = Cfg((Label::Box::Type)e.second, {.5}); cfg.set_matcher_type(mt ? MatcherProto::TYPE_SCORE_FIRST : MatcherProto::TYPE_HUNGARIAN); auto* kn = Kernel("Match", {tf::DT_FLOAT, tf::DT_FLOAT}, cfg.SerializeAsString()); Outs o; c.step();
    const std::string where = " for " + std::to_string(e.first) + "-parameter kinds " + mc::Str(k) + " shift " + std::to_string(shift) + " batches " + std::to_string(B) + " as " + Label::Box::Type_Name(cfg.box_type()) + (mt ? " score first" : " hungarian");
    if (!kn->ok() || !kn->Run({Tn<float>(pv, {B, P, e.first}), Tn<float>(gv, {B, G, e.first})}, &o)) { c.fail("error", "match kernel: " + kn->err() + where); return; }
    auto full = [&](const F& v) { auto valid = [&] { const int d = v.size() == 7 ? 3 : 2; return v[d] > 0 && v[d + 1] > 0 && (e.second != Label::Box::TYPE_3D || v[5] > 0); }; Row r; r.box = v; Object q = Obj(r, false, false); q.set_score(1); if (v.size() == 7) q.mutable_object()->mutable_box()->set_center_z(v[2] + v[5] / 2.0); return std::make_pair(q, valid()); };
    std::map<std::pair<int, int>, std::pair<double, double>> got; const F gp = Fl(o[0]), gg = Fl(o[1]), gi = Fl(o[2]), gl = Fl(o[3]); if (gp.size() != gg.size() || gp.size() != gi.size() || gp.size() != gl.size()) { c.fail("match-shape", "outputs of different lengths" + where); return; }
    for (size_t i = 0; i < gp.size(); ++i) got[{(int)gp[i], (int)gg[i]}] = {gi[i], gl[i]};
    size_t want = 0; double sum = 0, gsum = 0; for (auto& x : got) gsum += x.second.first; std::set<int> up, ug;
    for (int b = 0; b < B; ++b) {
      std::vector<Object> ps, gs; V pi, gi2; for (int i = 0; i < P; ++i) { auto x = full(pb[b][i]); if (x.second) { ps.push_back(x.first); pi.push_back(b * P + i); } } for (int i = 0; i < G; ++i) { auto x = full(gb[b][i]); if (x.second) { gs.push_back(x.first); gi2.push_back(b * G + i); } }
      auto mat = Matcher::Create(cfg); mat->SetPredictions(ps); mat->SetGroundTruths(gs); V a, sp, sg; for (size_t i = 0; i < ps.size(); ++i) sp.push_back(i); for (size_t i = 0; i < gs.size(); ++i) sg.push_back(i); mat->SetPredictionSubset(sp); mat->SetGroundTruthSubset(sg); V b2; mat->Match(&a, &b2);
      for (size_t i = 0; i < a.size(); ++i) if (a[i] >= 0) { ++want; sum += mat->IoU(i, a[i]); }
      for (auto& x : got) { auto ip = std::find(pi.begin(), pi.end(), x.first.first), ig = std::find(gi2.begin(), gi2.end(), x.first.second); if (x.first.first / P != b) continue; if (ip == pi.end() || ig == gi2.end()) { c.fail("match-pair", "pair " + std::to_string(x.first.first) + "-" + std::to_string(x.first.second) + " is not a pair of boxes of one batch" + where); return; } const int p = ip - pi.begin(), g = ig - gi2.begin(); if (!up.insert(x.first.first).second || !ug.insert(x.first.second).second) { c.fail("match-pair", "box matched twice" + where); return; } if (!mat->CanMatch(p, g) || std::fabs(mat->IoU(p, g) - x.second.first) > 1e-5 || std::fabs(mat->LongitudinalAffinity(p, g) - x.second.second) > 1e-5) { c.fail("match-value", "pair " + std::to_string(x.first.first) + "-" + std::to_string(x.first.second) + " reported with overlap " + std::to_string(x.second.first) + " affinity " + std::to_string(x.second.second) + where); return; } }
    }
    if (got.size() != gp.size() || got.size() != up.size()) { c.fail("match-pair", "pairs outside the batches" + where); return; }
    if (mt == 0 ? std::fabs(sum - gsum) > 1e-4 : got.size() != want) { c.fail("match-best", "matched overlap " + std::to_string(gsum) + " in " + std::to_string(got.size()) + " pairs, library " + std::to_string(sum) + " in " + std::to_string(want) + where); return; }
    c.outcome("pairs " + std::to_string(got.size())); c.state(mc::HashStr(where));
  });
  m.family("camera points", "world to image (also moving, with depth) and image to world tensors: 3 calibrations x 3 images x all lists of up to 3 (thorough 4) of 5 points, float and double", [=](mc::Ctx& c) {
    const int cal = c.choose(3), img = c.choose(3), what = c.choose(5), dbl = c.choose(2), n = c.choose(th ? 5 : 4); V p; for (int i = 0; i < n; ++i) p.push_back(c.choose(5)); if (!c.go()) return;
    if (dbl) Camera<double>(c, cal, img, n, what, p); else Camera<float>(c, cal, img, n, what, p);
  });
  m.family("schedules", "the pooled kernels under every order of their tasks (3 frames / sequences / scenarios: 6 orders; 4: 24), and under every placement of one preemption at an allocation inside a task: same numbers as unpooled", [=](mc::Ctx& c) {
    const int kind = c.choose(3), tab = c.choose(th ? 12 : 4), n = 3; V ord = {0, 1, 2}; int p = c.choose(6); const int pre = c.choose(3) - 1; const int ats = pre < 0 ? 1 : th ? 400 : 60; const int at = c.choose(ats);
    if (!c.go()) return;
    while (p--) std::next_permutation(ord.begin(), ord.end());
    const auto cfg = Cfg(Label::Box::TYPE_3D, cuts); Outs in; tfop::Op* k = nullptr;
    if (kind < 2) { Table t; for (int i = 0; i < n; ++i) { Cell(&t, kind ? "s" + std::to_string(i) : "", i * 7 - 3, 3 + (tab + i * (1 + tab / 4)) % 4, 7); if (kind) Cell(&t, "s" + std::to_string(i), i * 7 - 2, 3 + (tab + 2 * i) % 4, 7); } in = In(t, 7, kind); k = Kernel(kind ? "TrackingMetrics" : "DetectionMetrics", kind ? kTrk : kDet, cfg.SerializeAsString()); }
    else {
      const auto mcfg = mr::Config(1, 1, 1, 3, {0, 2}, 2); F pt, ps, gt; V gv, mk; std::vector<int64_t> gi, ty, id; std::vector<std::string> sid;
      for (int b = 0; b < n; ++b) { Scenario s; sid.push_back("s" + std::to_string(b)); for (int a = 0; a < 2; ++a) { Track* t = mr::AddTrack(&s, mcfg, 7 + a, 1 + (a + b + tab) % 3, 30 * a, b, .3 * a, 3 + a + b); for (auto& o : t->states()) { for (double x : {o.center_x(), o.center_y(), (double)o.length(), (double)o.width(), (double)o.heading(), (double)o.velocity_x(), (double)o.velocity_y()}) gt.push_back(x); gv.push_back(1); } ty.push_back(t->object_type()); id.push_back(t->id()); gi.push_back(a); mk.push_back(1); }
        for (int a = 0; a < 2; ++a) for (int q = 0; q < 2; ++q) { ps.push_back(.4 + .1 * ((q + b + tab) % 3)); for (int st = 0; st < 3; ++st) { pt.push_back(s.tracks(a).states(2 + st).center_x() + .4 * q); pt.push_back(s.tracks(a).states(2 + st).center_y() + .3 * b); } } }
      in = {Tn<float>(pt, {n, 2, 2, 1, 3, 2}), Tn<float>(ps, {n, 2, 2}), Tn<float>(gt, {n, 2, 5, 7}), Tb(gv, {n, 2, 5}), Tn<int64_t>(gi, {n, 2, 1}), Tb(mk, {n, 2, 1}), Tn<int64_t>(ty, {n, 2}), Tn<int64_t>(id, {n, 2}), Ts(sid)}; k = Kernel("MotionMetrics", kMot, mcfg.SerializeAsString());
    }
    Outs base, got; if (!k->ok() || !k->Run(in, &base)) { c.fail("error", k->err()); return; }
    auto& S = tfop::S(); S = tfop::State(); S.deferred = true; S.plan.order = ord; if (!k->Run(in, &got)) { S.deferred = false; c.fail("error", k->err()); return; }
    c.step(2); const int tasks = S.tasks; long na = pre >= 0 && pre < (int)S.allocs.size() ? S.allocs[ord[pre]] : 0; std::string how = "order " + mc::Str(ord);
    auto cmp = [&] { for (size_t i = 0; i < base.size(); ++i) if (!Close(Fl(got[i]), Fl(base[i]))) { c.fail("schedule", "kernel " + std::to_string(kind) + " table " + std::to_string(tab) + " output " + std::to_string(i) + ": " + Df(Fl(got[i]), Fl(base[i])) + " under " + how); return false; } return true; };
    if (!cmp()) { S = tfop::State(); return; }
    if (pre >= 0) for (long a = at; a < na; a += ats) {   // this leaf's share of the preemption points
      S = tfop::State(); S.deferred = true; S.plan.order = ord; S.plan.pre = pre; S.plan.at = a; const bool r = k->Run(in, &got); c.step(); const bool did = S.preempted, blk = S.blocked; how = "order " + mc::Str(ord) + ", task " + std::to_string(pre) + " preempted at allocation " + std::to_string(a);
      if (!r) { c.fail("error", k->err()); break; } if (!cmp()) break; c.state(mc::Mix(mc::Mix(kind * 100 + tab, a), mc::HashStr(how))); c.outcome(blk ? "second task waits for the first" : did ? "preempted" : "not reached");
    }
    S = tfop::State(); c.outcome("tasks " + std::to_string(tasks)); c.state(mc::Mix(kind * 100 + tab, mc::HashStr(how)));
  });
  return m.run();
}
