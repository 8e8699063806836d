// Reference rules for breakdown shards, shared by harnesses.
#ifndef BDREF_H_
#define BDREF_H_
#include "mc.h"
#include "wod.h"
#include "waymo_open_dataset/protos/breakdown.pb.h"
using namespace waymo::open_dataset;
static const std::vector<Breakdown::GeneratorId> kGen = {Breakdown::ONE_SHARD, Breakdown::OBJECT_TYPE, Breakdown::RANGE, Breakdown::VELOCITY, Breakdown::ALL_BUT_SIGN, Breakdown::SIZE, Breakdown::CAMERA};
static const char* kType[5] = {"", "TYPE_VEHICLE", "TYPE_PEDESTRIAN", "TYPE_SIGN", "TYPE_CYCLIST"};
struct GenRef { std::string prefix; std::vector<std::string> sub; bool per_type; };
static GenRef Ref(int id) {
  switch (id) {
    case Breakdown::ONE_SHARD: return {"", {"ONE_SHARD"}, false};
    case Breakdown::ALL_BUT_SIGN: return {"", {"ALL_BUT_SIGN", "SIGN"}, false};
    case Breakdown::OBJECT_TYPE: return {"OBJECT_TYPE_", {""}, true};
    case Breakdown::RANGE: return {"RANGE_", {"_[0, 30)", "_[30, 50)", "_[50, +inf)"}, true};
    case Breakdown::VELOCITY: return {"VELOCITY_", {"_STATIONARY", "_SLOW", "_MEDIUM", "_FAST", "_VERY_FAST"}, true};
    case Breakdown::SIZE: return {"SIZE_", {"_small", "_large"}, true};
    default: return {"CAMERA_", {"_FRONT", "_FRONT-LEFT", "_FRONT-RIGHT", "_SIDE-LEFT", "_SIDE-RIGHT"}, true};
  }
}
static std::vector<std::string> RefNames(int id) {
  GenRef g = Ref(id); std::vector<std::string> n;
  for (int t = 1; t <= (g.per_type ? 4 : 1); ++t) for (auto& s : g.sub) n.push_back(g.prefix + (g.per_type ? kType[t] : "") + s);
  return n;
}
// an object described by the quantities breakdowns look at
struct O { int type; double x, y, z, l, w, h; bool has_v; double vx, vy; int cam2d; int vis; double score; };   // cam2d -1: none; vis -1: none, 9: invalid, 10: empty
static const char* kCam[9] = {"UNKNOWN", "FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT", "REAR_LEFT", "REAR", "REAR_RIGHT"};
static Object Mk(const O& o) {
  Object r; r.set_score(o.score); auto* L = r.mutable_object(); L->set_type((Label::Type)o.type);
  *L->mutable_box() = MkBox(o.x, o.y, o.z, o.l, o.w, o.h, 0.3);
  if (o.has_v) { L->mutable_metadata()->set_speed_x(o.vx); L->mutable_metadata()->set_speed_y(o.vy); }
  if (o.cam2d >= 0) r.set_camera_name((CameraName::Name)o.cam2d);
  if (o.vis >= 0) L->set_most_visible_camera_name(o.vis == 9 ? "NO_SUCH" : o.vis == 10 ? "" : kCam[o.vis]);
  return r;
}
static std::string Show(const O& o) { char b[300]; snprintf(b, 300, "type %d at (%g,%g,%g) size %gx%gx%g v %d (%g,%g) cam2d %d vis %d score %g", o.type, o.x, o.y, o.z, o.l, o.w, o.h, o.has_v, o.vx, o.vy, o.cam2d, o.vis, o.score); return b; }
static std::vector<int> Fov(const O& o) {   // camera shards whose +-25.2 degree cone contains the centre
  const double dir[5] = {0, 45, -45, 90, -90}; double a = std::atan2(o.y, o.x) * 180 / M_PI; std::vector<int> r;
  for (int i = 0; i < 5; ++i) if (std::fabs(a - dir[i]) < 25.2) r.push_back(i);
  return r;
}
static int RShard(int id, const O& o) {
  if (id == Breakdown::ONE_SHARD) return 0;
  if (id == Breakdown::ALL_BUT_SIGN) return o.type == 3;
  if (o.type == 0) return -1;
  const int t = o.type - 1;
  switch (id) {
    case Breakdown::OBJECT_TYPE: return t;
    case Breakdown::RANGE: { double r = std::sqrt(o.x * o.x + o.y * o.y + o.z * o.z); return 3 * t + (r < 30 ? 0 : r < 50 ? 1 : 2); }
    case Breakdown::SIZE: return 2 * t + (std::max({o.l, o.w, o.h}) < 7 ? 0 : 1);
    case Breakdown::VELOCITY: { double v = o.has_v ? std::hypot(o.vx, o.vy) : 0; return 5 * t + (v < .2 ? 0 : v < 1 ? 1 : v < 3 ? 2 : v < 10 ? 3 : 4); }
    default: {
      int cam = -1;
      if (o.cam2d >= 0) cam = o.cam2d - 1;
      else if (o.vis >= 0) cam = o.vis > 8 ? -1 : o.vis - 1;
      else { auto f = Fov(o); if (!f.empty()) cam = f[0]; }
      return cam < 0 || cam > 4 ? -1 : 5 * t + cam;
    }
  }
}
static bool GtOnly(int id) { return id == Breakdown::VELOCITY || id == Breakdown::CAMERA; }
static std::vector<int> RMatch(int id, const O& o) {   // shards in which the object takes part in matching (sorted)
  std::vector<int> r;
  if (!GtOnly(id)) { r.push_back(RShard(id, o)); return r; }
  if (o.type == 0) return r;
  if (id == Breakdown::VELOCITY) { for (int i = 0; i < 5; ++i) r.push_back(5 * (o.type - 1) + i); return r; }
  if (o.cam2d >= 0) { int s = RShard(id, o); if (s >= 0) r.push_back(s); return r; }
  for (int f : Fov(o)) r.push_back(5 * (o.type - 1) + f);
  std::sort(r.begin(), r.end());
  return r;
}
static O Base(int type = 1) { return {type, 10, 0, 0, 4, 2, 1.5, true, 0, 0, -1, -1, 1}; }
#endif
