// C15: scenario -> example conversion against a reference converter.
#include "mc.h"
#include "waymo_open_dataset/data_conversion/scenario_conversion.h"
using namespace waymo::open_dataset;
using Config = MotionExampleConversionConfig;
using Feats = std::map<std::string, std::vector<double>>;
struct P3 { double x, y, z; };
static P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static P3 operator*(double k, P3 a) { return {k * a.x, k * a.y, k * a.z}; }
static double Dist(P3 a, P3 b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }
template <class R> static std::vector<P3> Pts(const R& r) { std::vector<P3> v; for (const auto& p : r) v.push_back({p.x(), p.y(), p.z()}); return v; }

static std::vector<P3> RefLine(const std::vector<P3>& p, const Config& c) {   // samples every `to` metres of a line given every `from` metres
  std::vector<P3> out; if (p.empty()) return out;
  const double from = c.source_polyline_spacing(), to = c.polyline_sample_spacing() > 0 ? c.polyline_sample_spacing() : from;
  const int n = p.size();
  for (int k = 0;; ++k) {
    const double s = k * to / from; const int i = (int)std::floor(s); if (i >= n - 1) break; const double t = s - i;
    if (i == 0 || i + 2 >= n) out.push_back((1 - t) * p[i] + t * p[i + 1]);
    else {   // Catmull-Rom through p[i-1..i+2]
      const double t2 = t * t, t3 = t2 * t;
      out.push_back(0.5 * ((-t + 2 * t2 - t3) * p[i - 1] + (2 - 5 * t2 + 3 * t3) * p[i] + (t + 4 * t2 - 3 * t3) * p[i + 1] + (-t2 + t3) * p[i + 2]));
    }
  }
  if (out.empty() || Dist(out.back(), p.back()) > 0.01) out.push_back(p.back());
  return out;
}
static std::vector<P3> RefPolygon(const std::vector<P3>& p, const Config& c) {
  std::vector<P3> out; if (p.empty()) return out;
  for (size_t i = 0; i < p.size(); ++i) {
    const P3 a = p[i], b = p[(i + 1) % p.size()]; int n = 1;
    if (c.polygon_sample_spacing() > 0) n = std::max(1, (int)std::floor(Dist(a, b) / c.polygon_sample_spacing()));
    for (int j = 0; j < n; ++j) { const double t = double(j) / n; out.push_back((1 - t) * a + t * b); }
  }
  out.push_back(p[0]);
  return out;
}
static int RefType(const MapFeature& f) {
  switch (f.feature_data_case()) {
    case MapFeature::kLane: { const int t[] = {0, 1, 2, 3}; return t[f.lane().type()]; }
    case MapFeature::kRoadLine: return 5 + f.road_line().type();
    case MapFeature::kRoadEdge: return 14 + f.road_edge().type();
    case MapFeature::kStopSign: return 17;
    case MapFeature::kCrosswalk: return 18;
    case MapFeature::kSpeedBump: return 19;
    case MapFeature::kDriveway: return 20;
    default: return -1;
  }
}
static void RefMap(const Scenario& s, const Config& c, Feats* o) {
  const MapFeature::FeatureDataCase order[] = {MapFeature::kLane, MapFeature::kRoadLine, MapFeature::kStopSign, MapFeature::kCrosswalk, MapFeature::kSpeedBump, MapFeature::kRoadEdge, MapFeature::kDriveway};
  int left = c.max_roadgraph_samples(); const std::string R = "roadgraph_samples/";
  for (auto k : order) for (const auto& f : s.map_features()) {
    if (f.feature_data_case() != k) continue;
    std::vector<P3> v;
    if (k == MapFeature::kLane) v = RefLine(Pts(f.lane().polyline()), c);
    if (k == MapFeature::kRoadLine) v = RefLine(Pts(f.road_line().polyline()), c);
    if (k == MapFeature::kRoadEdge) v = RefLine(Pts(f.road_edge().polyline()), c);
    if (k == MapFeature::kStopSign) v = {{f.stop_sign().position().x(), f.stop_sign().position().y(), f.stop_sign().position().z()}};
    if (k == MapFeature::kCrosswalk) v = RefPolygon(Pts(f.crosswalk().polygon()), c);
    if (k == MapFeature::kSpeedBump) v = RefPolygon(Pts(f.speed_bump().polygon()), c);
    if (k == MapFeature::kDriveway) v = RefPolygon(Pts(f.driveway().polygon()), c);
    if ((int)v.size() > left) v.resize(left);
    left -= v.size();
    for (size_t i = 0; i < v.size(); ++i) {
      (*o)[R + "id"].push_back(f.id()); (*o)[R + "type"].push_back(RefType(f)); (*o)[R + "valid"].push_back(1);
      for (double x : {v[i].x, v[i].y, v[i].z}) (*o)[R + "xyz"].push_back(x);
      P3 d{0, 0, 0}; if (i + 1 < v.size()) { const double l = Dist(v[i], v[i + 1]); if (l > 0) d = (1 / l) * (v[i + 1] + (-1.0) * v[i]); }
      for (double x : {d.x, d.y, d.z}) (*o)[R + "dir"].push_back(x);
    }
  }
  for (; left > 0; --left) {
    (*o)[R + "id"].push_back(-1); (*o)[R + "type"].push_back(-1); (*o)[R + "valid"].push_back(0);
    for (int q = 0; q < 3; ++q) { (*o)[R + "xyz"].push_back(-1); (*o)[R + "dir"].push_back(-1); }
  }
}
static std::string Phase(int t, const Config& c) { return t < c.num_past_steps() - 1 ? "past/" : t == c.num_past_steps() - 1 ? "current/" : "future/"; }
static void RefLights(const Scenario& s, const Config& c, Feats* o) {
  for (int t = 0; t < c.num_past_steps() + c.num_future_steps(); ++t) {
    const std::string k = "traffic_light_state/" + Phase(t, c); const bool has = t < s.dynamic_map_states_size();
    (*o)[k + "timestamp_micros"].push_back(has ? s.timestamps_seconds(t) * 1e6 : -1);
    for (int i = 0; i < c.max_traffic_light_control_points_per_step(); ++i) {
      const TrafficSignalLaneState* l = has && i < s.dynamic_map_states(t).lane_states_size() ? &s.dynamic_map_states(t).lane_states(i) : nullptr;
      (*o)[k + "x"].push_back(l ? l->stop_point().x() : -1); (*o)[k + "y"].push_back(l ? l->stop_point().y() : -1); (*o)[k + "z"].push_back(l ? l->stop_point().z() : -1);
      (*o)[k + "state"].push_back(l ? l->state() : -1); (*o)[k + "id"].push_back(l ? l->lane() : -1); (*o)[k + "valid"].push_back(l ? 1 : 0);
    }
  }
}
static void RefAgent(const Scenario& s, const Config& c, int i, bool context, Feats* o) {   // i < 0: padding
  const Track* t = i < 0 ? nullptr : &s.tracks(i); const std::string S = "state/"; bool ooi = false; int diff = 0;
  if (t) for (int x : s.objects_of_interest()) ooi |= x == t->id();
  if (t) for (int q = s.tracks_to_predict_size() - 1; q >= 0; --q) if (s.tracks_to_predict(q).track_index() == i) diff = s.tracks_to_predict(q).difficulty();
  auto add = [&](const char* k, double v) { (*o)[S + k].push_back(t ? v : -1); };
  add("id", t ? t->id() : 0); add("type", t ? t->object_type() : 0); add("objects_of_interest", ooi); add("is_sdc", i == s.sdc_track_index()); add("is_context", context); add("tracks_to_predict", !context); add("difficulty_level", diff);
  for (int q = 0; q < c.num_past_steps() + c.num_future_steps(); ++q) {
    const ObjectState* st = t && t->object_type() != Track::TYPE_UNSET && q < t->states_size() && t->states(q).valid() ? &t->states(q) : nullptr;
    auto put = [&](const char* k, double v, double pad = -1) { (*o)[S + Phase(q, c) + k].push_back(st ? v : pad); };
    static const ObjectState none; const ObjectState& z = st ? *st : none;
    put("valid", 1, 0); put("timestamp_micros", st ? s.timestamps_seconds(q) * 1e6 : 0);
    put("x", z.center_x()); put("y", z.center_y()); put("z", z.center_z()); put("width", z.width()); put("length", z.length()); put("height", z.height());
    put("velocity_x", z.velocity_x()); put("velocity_y", z.velocity_y()); put("speed", std::hypot(z.velocity_x(), z.velocity_y())); put("bbox_yaw", z.heading()); put("vel_yaw", std::atan2(z.velocity_y(), z.velocity_x()));
  }
}
static std::vector<double> Vals(const tensorflow::Feature& f) {
  std::vector<double> v; for (float x : f.float_list().value()) v.push_back(x); for (auto x : f.int64_list().value()) v.push_back(x); return v;
}
// Empty string: the example is one that the description admits.
static std::string Judge(const Scenario& s, const Config& c, const tensorflow::Example& ex) {
  std::ostringstream w; const auto& fm = ex.features().feature(); Feats e;
  RefMap(s, c, &e); RefLights(s, c, &e);
  const int cur = c.num_past_steps() - 1;
  std::vector<int> want, ctx;
  const int cap = std::min(c.max_num_modeled_agents(), c.max_num_agents());
  for (const auto& r : s.tracks_to_predict()) if (s.tracks(r.track_index()).states(cur).valid() && (int)want.size() < cap && !std::count(want.begin(), want.end(), r.track_index())) want.push_back(r.track_index());
  std::sort(want.begin(), want.end(), [&](int a, int b) { return s.tracks(a).id() < s.tracks(b).id(); });
  using Key = std::pair<int, double>;
  auto key = [&](int i) { const auto& o = s.tracks(i).states(cur); if (o.valid()) { const auto& d = s.tracks(s.sdc_track_index()).states(cur); return Key(0, std::hypot(o.center_x() - d.center_x(), o.center_y() - d.center_y())); } int n = 0; for (const auto& x : s.tracks(i).states()) n += x.valid(); return Key(1, -n); };
  for (int i = 0; i < s.tracks_size(); ++i) if (!std::count(want.begin(), want.end(), i)) ctx.push_back(i);
  std::stable_sort(ctx.begin(), ctx.end(), [&](int a, int b) { return key(a) < key(b); });
  // The order among equal context keys is open: take the one in the example.
  std::vector<int> slots = want; std::set<int> used;
  const auto ids = fm.contains("state/id") ? Vals(fm.at("state/id")) : std::vector<double>();
  if ((int)ids.size() != c.max_num_agents()) { w << "state/id has " << ids.size() << " slots, expected " << c.max_num_agents(); return w.str(); }
  for (size_t i = want.size(); i < ids.size(); ++i) {
    const size_t q = i - want.size(); if (q >= ctx.size()) { slots.push_back(-1); continue; }
    int hit = -1; for (int x : ctx) if (s.tracks(x).id() == ids[i] && key(x) == key(ctx[q]) && !used.count(x)) hit = x;
    if (hit < 0) { w << "slot " << i << " holds agent " << ids[i] << ", expected context agent " << s.tracks(ctx[q]).id(); return w.str(); }
    used.insert(hit); slots.push_back(hit);
  }
  for (size_t i = 0; i < slots.size(); ++i) RefAgent(s, c, slots[i], i >= want.size(), &e);
  std::set<std::string> keys; for (auto& k : e) keys.insert(k.first); for (auto& k : fm) keys.insert(k.first);
  for (const auto& k : keys) {
    if (k == "scenario/id") { if (fm.at(k).bytes_list().value_size() != 1 || fm.at(k).bytes_list().value(0) != s.scenario_id()) return "wrong scenario/id"; continue; }
    const auto g = fm.contains(k) ? Vals(fm.at(k)) : std::vector<double>(); const auto& x = e[k];
    if (g.size() != x.size()) { w << k << " has " << g.size() << " values, expected " << x.size(); return w.str(); }
    for (size_t i = 0; i < g.size(); ++i) {
      double d = std::fabs(g[i] - x[i]); const bool ts = k.find("micros") != std::string::npos;
      if (k.find("yaw") != std::string::npos && d > 3.2) d = std::fabs(d - 2 * M_PI);
      if (!(d <= (ts ? 1.5 + std::fabs(x[i]) * 2e-7 : 1e-4 + std::fabs(x[i]) * 1e-6))) { w << k << "[" << i << "] = " << g[i] << ", expected " << x[i]; return w.str(); }
    }
  }
  if (!fm.contains("scenario/id")) return "no scenario/id";
  return "";
}
static Scenario Base(int tracks, int steps) {
  Scenario s; s.set_scenario_id("sc"); s.set_sdc_track_index(0);
  for (int t = 0; t < steps; ++t) { s.add_timestamps_seconds(t * 0.1 + 0.05); s.add_dynamic_map_states(); }
  for (int i = 0; i < tracks; ++i) {
    auto* k = s.add_tracks(); k->set_id(30 - 7 * i); k->set_object_type((Track::ObjectType)(1 + i % 4));
    for (int t = 0; t < steps; ++t) { auto* o = k->add_states(); o->set_center_x(100 + i * 10 + t); o->set_center_y(50 + i * i + 0.5 * t); o->set_center_z(3 + i + 0.25 * t); o->set_length(4 + i); o->set_width(2 + i * .5f); o->set_height(1 + i * .25f); o->set_heading(-1.5f + i * .5f + t * .25f); o->set_velocity_x(i - 1.5f); o->set_velocity_y(t - 1.f); o->set_valid(true); }
  }
  return s;
}
static Config Cfg(int past, int future, int agents, int modeled, int samples = 0, int lights = 0) { Config c; c.set_num_past_steps(past); c.set_num_future_steps(future); c.set_max_num_agents(agents); c.set_max_num_modeled_agents(modeled); c.set_max_roadgraph_samples(samples); c.set_max_traffic_light_control_points_per_step(lights); return c; }
static void Run(mc::Ctx& c, const Scenario& s, const Config& f, const std::string& what, bool want_ok = true) {
  std::map<std::string, int> counters; c.step();
  auto r = ScenarioToExample(s, f, &counters);
  if (r.ok() != want_ok) return c.fail(want_ok ? "rejected" : "accepted", std::string(want_ok ? "well-formed scenario rejected: " + std::string(r.status().message()).substr(0, 80) : "malformed scenario accepted") + ": " + what);
  if (!r.ok()) { c.outcome("error"); return; }
  const std::string d = Judge(s, f, *r); if (!d.empty()) c.fail(d.substr(0, d.find_first_of("/ [")), d + ": " + what);
  c.outcome("converted"); c.sample([&] { return what; });
  std::string all; std::map<std::string, std::string> so; for (auto& k : r->features().feature()) so[k.first] = k.second.SerializeAsString(); for (auto& k : so) all += k.first + k.second; c.state(all);
}
static MapFeature Feature(int kind, int id, const std::vector<P3>& p) {
  MapFeature f; f.set_id(id); auto put = [&](MapPoint* m, P3 q) { m->set_x(q.x); m->set_y(q.y); m->set_z(q.z); };
  if (kind == 0) { f.mutable_lane()->set_type(LaneCenter::TYPE_SURFACE_STREET); for (auto& q : p) put(f.mutable_lane()->add_polyline(), q); }
  if (kind == 1) { f.mutable_road_line()->set_type(RoadLine::TYPE_SOLID_SINGLE_WHITE); for (auto& q : p) put(f.mutable_road_line()->add_polyline(), q); }
  if (kind == 2) { f.mutable_road_edge()->set_type(RoadEdge::TYPE_ROAD_EDGE_MEDIAN); for (auto& q : p) put(f.mutable_road_edge()->add_polyline(), q); }
  if (kind == 3) { f.mutable_stop_sign(); if (!p.empty()) put(f.mutable_stop_sign()->mutable_position(), p[0]); }
  if (kind == 4) { f.mutable_crosswalk(); for (auto& q : p) put(f.mutable_crosswalk()->add_polygon(), q); }
  if (kind == 5) { f.mutable_speed_bump(); for (auto& q : p) put(f.mutable_speed_bump()->add_polygon(), q); }
  if (kind == 6) { f.mutable_driveway(); for (auto& q : p) put(f.mutable_driveway()->add_polygon(), q); }
  return f;
}
static Scenario MapBase() { Scenario s = Base(1, 1); s.add_tracks_to_predict()->set_track_index(0); return s; }
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  static const std::vector<int> zero = {0};
  m.family("agents", "all scenarios of 3 (thorough 4) tracks with 3 steps: per track 4 validity patterns and 2 positions, every list of up to 2 (thorough 3) agents to predict, every sdc, 4-6 size limits", [=](mc::Ctx& c) {
    const int n = th ? 4 : 3; Scenario s = Base(n, 3); std::string w; static const int pat[] = {7, 5, 1, 2};   // bit t: valid at step t; current is step 1
    static const std::vector<std::pair<int, int>> lim = {{4, 2}, {2, 2}, {1, 1}, {3, 1}, {2, 8}, {8, 8}};
    for (int i = 0; i < n; ++i) { const int p = pat[c.choose(4)]; w += std::to_string(p) + " "; for (int t = 0; t < 3; ++t) s.mutable_tracks(i)->mutable_states(t)->set_valid(p >> t & 1); }
    s.set_sdc_track_index(c.choose(n)); w += "sdc " + std::to_string(s.sdc_track_index()) + " ";
    for (int i = 0; i < n; ++i) if (i != s.sdc_track_index() && c.flip()) { w += "far" + std::to_string(i) + " "; s.mutable_tracks(i)->mutable_states(1)->set_center_y(-200 - 90 * i); }
    const int k = c.choose(th ? 4 : 3); for (int i = 0; i < k; ++i) { auto* r = s.add_tracks_to_predict(); r->set_track_index(c.choose(n)); r->set_difficulty((RequiredPrediction::DifficultyLevel)((i + r->track_index()) % 3)); w += "predict " + std::to_string(r->track_index()) + " "; }
    const auto l = lim[c.choose(lim.size())]; w += "limits " + std::to_string(l.first) + "/" + std::to_string(l.second);
    s.add_objects_of_interest(30); s.add_objects_of_interest(16); s.add_objects_of_interest(99);
    if (!c.go()) return;
    bool some = false; for (auto& r : s.tracks_to_predict()) some |= s.tracks(r.track_index()).states(1).valid();
    Run(c, s, Cfg(2, 1, l.first, l.second), w, some);
  });
  m.family("steps", "all validity patterns of 2 tracks over scenarios of 1-5 (thorough 6) steps, in windows of 1-3 past and 0-3 future steps", [=](mc::Ctx& c) {
    const int past = c.choose(3) + 1, fut = c.choose(4), steps = c.choose(th ? 6 : 5) + 1; Scenario s = Base(2, steps); std::string w = "past " + std::to_string(past) + " future " + std::to_string(fut) + " valid ";
    for (int i = 0; i < 2; ++i) for (int t = 0; t < steps; ++t) { const bool v = !c.flip(); s.mutable_tracks(i)->mutable_states(t)->set_valid(v); w += v ? '1' : '0'; }
    s.add_tracks_to_predict()->set_track_index(1);
    if (!c.go()) return;
    Run(c, s, Cfg(past, fut, 3, 2), w, steps >= past && s.tracks(1).states(past - 1).valid());
  });
  m.family("state fields", "all values of each state field, object type, id and heading for one agent", [=](mc::Ctx& c) {
    Scenario s = Base(1, 3); s.add_tracks_to_predict()->set_track_index(0); auto* t = s.mutable_tracks(0); t->set_object_type((Track::ObjectType)c.choose(5)); auto* o = t->mutable_states(c.choose(3));
    static const std::vector<double> vals = {0, -1, 1, -12345.625, 3e5, 0.1}; const int f = c.choose(8); const double v = c.pick(vals), u = c.pick(vals);
    if (f == 0) o->set_center_x(v), o->set_center_y(u); if (f == 1) o->set_center_z(v); if (f == 2) o->set_length(v), o->set_width(u); if (f == 3) o->set_height(v); if (f == 4) o->set_heading(v > 4 || v < -4 ? 3 : v); if (f == 5 || f == 6) o->set_velocity_x(v), o->set_velocity_y(u); if (f == 7) t->set_id(std::abs(v) + u * u);
    if (!c.go()) return;
    if (f == 7) t->set_id(int(std::abs(v) + std::abs(u)));
    Run(c, s, Cfg(2, 1, 2, 1), "field " + std::to_string(f) + " = " + std::to_string(v) + ", " + std::to_string(u));
  });
  static const std::vector<std::pair<double, double>> spacing = {{.5, 1}, {.5, .5}, {.5, 0}, {.5, .25}, {.5, .75}, {1, .5}, {.5, 1.25}, {.5, 3}, {.5, .4921875}, {.5, .9375}};
  m.family("lines", "all polylines of 0-6 (thorough 8) points in 9 shapes (also ending in a piece of 4 mm to 20 cm) of 3 kinds, 10 spacings, 6 sample limits", [=](mc::Ctx& c) {
    const int kind = c.choose(3), n = c.choose(th ? 9 : 7), shape = c.choose(9); const auto& sp = spacing[c.choose(spacing.size())]; static const std::vector<int> lims = {40, 1, 2, 3, 5, 0}; const int lim = c.pick(lims);
    if (!c.go()) return;
    std::vector<P3> p; for (int i = 0; i < n; ++i) { const double d = i * sp.first; p.push_back(shape == 0 ? P3{10 + d, 5, 0} : shape == 1 ? P3{10 * std::sin(d / 4), 10 * std::cos(d / 4), d * .1} : shape == 2 ? P3{i % 2 ? 1. : 0., d, -2} : shape == 3 ? P3{7, 7, 7} : shape == 4 ? P3{-d, d * d * .3, 1 - d} : P3{3, i < 3 ? d : 2 * sp.first, double(i / 3)}); }
    if (shape > 5) { p.clear(); for (int i = 0; i < n; ++i) p.push_back({i * sp.first, 1, 2}); if (n > 1) p[n - 1].x = p[n - 2].x + (shape == 6 ? .004 : shape == 7 ? .05 : .2); }
    Scenario s = MapBase(); *s.add_map_features() = Feature(kind, 41, p); Config f = Cfg(1, 0, 1, 1, lim); f.set_source_polyline_spacing(sp.first); f.set_polyline_sample_spacing(sp.second);
    Run(c, s, f, "kind " + std::to_string(kind) + " points " + std::to_string(n) + " shape " + std::to_string(shape) + " spacing " + std::to_string(sp.first) + "->" + std::to_string(sp.second) + " limit " + std::to_string(lim));
  });
  m.family("polygons", "all polygons of 0-4 vertices from a 5-point grid in 3 kinds, 5 spacings, 5 limits", [=](mc::Ctx& c) {
    const int kind = 4 + c.choose(3), n = c.choose(th ? 5 : 4); static const std::vector<P3> grid = {{0, 0, 0}, {1.3, 0, 0}, {0, 2.45, 1}, {-.3, -.2, 0}, {3.1, 4.7, -2}}; std::vector<P3> p; std::string w; for (int i = 0; i < n; ++i) { const int q = c.choose(5); p.push_back(grid[q]); w += std::to_string(q); }
    static const std::vector<double> sps = {1, 0, .3, 10, -1}; const double sp = c.pick(sps); static const std::vector<int> lims = {90, 1, 2, 4, 0}; const int lim = c.pick(lims);
    if (!c.go()) return;
    Scenario s = MapBase(); *s.add_map_features() = Feature(kind, 41, p); Config f = Cfg(1, 0, 1, 1, lim); f.set_polygon_sample_spacing(sp);
    Run(c, s, f, "kind " + std::to_string(kind) + " vertices " + w + " spacing " + std::to_string(sp) + " limit " + std::to_string(lim));
  });
  m.family("map order", "all lists of 3 (thorough 4) map features of 7 kinds x 2 sizes, every cut-off from 1 to 14 samples", [=](mc::Ctx& c) {
    Scenario s = MapBase(); std::string w; const int n = th ? 4 : 3;
    for (int i = 0; i < n; ++i) { const int k = c.choose(7), z = c.choose(2); std::vector<P3> p; for (int q = 0; q < (z ? 3 : 2); ++q) p.push_back({i * 10. + q * .5, i * 3. - q * q * .25, 1. * k}); *s.add_map_features() = Feature(k, 60 - i * 11, p); w += " " + std::to_string(k) + (z ? "L" : "s"); }
    const int lim = c.choose(14) + 1; Config f = Cfg(1, 0, 1, 1, lim);
    if (!c.go()) return;
    Run(c, s, f, "features" + w + " limit " + std::to_string(lim));
  });
  m.family("map types", "every lane, line and edge type, and map features without data", [=](mc::Ctx& c) {
    const int k = c.choose(4), t = c.choose(k == 0 ? 4 : k == 1 ? 9 : k == 2 ? 3 : 1); if (!c.go()) return;
    Scenario s = MapBase(); MapFeature f = Feature(k == 3 ? 9 : k, 5, {{0, 0, 0}, {.5, 0, 0}, {1, 0, 0}});
    if (k == 0) f.mutable_lane()->set_type((LaneCenter::LaneType)t); if (k == 1) f.mutable_road_line()->set_type((RoadLine::RoadLineType)t); if (k == 2) f.mutable_road_edge()->set_type((RoadEdge::RoadEdgeType)t);
    *s.add_map_features() = f; Run(c, s, Cfg(1, 0, 1, 1, 6), "kind " + std::to_string(k) + " type " + std::to_string(t));
  });
  m.family("lights", "all scenarios of 3 steps with 0-3 lights per step, 0-3 recorded steps, 4 size limits, windows of 1-4 steps", [=](mc::Ctx& c) {
    Scenario s = Base(1, 3); s.add_tracks_to_predict()->set_track_index(0); s.clear_dynamic_map_states(); std::string w; const int rec = c.choose(4);
    for (int t = 0; t < rec; ++t) { auto* d = s.add_dynamic_map_states(); const int k = c.choose(4); w += std::to_string(k) + " "; for (int i = 0; i < k; ++i) { auto* l = d->add_lane_states(); l->set_lane(100 + 10 * t + i); l->set_state((TrafficSignalLaneState::State)((t * 3 + i * 2) % 9)); l->mutable_stop_point()->set_x(t + i * .5); l->mutable_stop_point()->set_y(-t - i); l->mutable_stop_point()->set_z(t * i); } }
    const int lim = c.choose(4), past = c.choose(3) + 1, fut = c.choose(3); if (!c.go()) return;
    Run(c, s, Cfg(past, fut, 1, 1, 0, lim), "lights per step " + w + "limit " + std::to_string(lim) + " past " + std::to_string(past) + " future " + std::to_string(fut));
  });
  m.family("malformed", "every single and double defect of a scenario: missing or extra states, bad sdc or prediction index, missing timestamps, unknown ids, empty tracks or map parts", [=](mc::Ctx& c) {
    const int a = c.choose(13), b = c.choose(13), past = c.choose(2) * 3 + 1; if (!c.go()) return;
    Scenario s = Base(2, 3); s.add_tracks_to_predict()->set_track_index(1); static const char* names[] = {"none", "sdc -1", "sdc 2", "predict 2", "predict -1", "no timestamps", "extra state", "missing state", "no tracks", "nothing to predict", "unknown object of interest", "empty map features", "predict 1000000"};
    for (int d : {a, b}) {
      if (d == 1) s.set_sdc_track_index(-1); if (d == 2) s.set_sdc_track_index(2); if (d == 3) s.add_tracks_to_predict()->set_track_index(2); if (d == 4) s.add_tracks_to_predict()->set_track_index(-1);
      if (d == 5) s.clear_timestamps_seconds(); if (d == 6 && s.tracks_size()) s.mutable_tracks(0)->add_states(); if (d == 7 && s.tracks_size()) s.mutable_tracks(1)->mutable_states()->RemoveLast(); if (d == 8) s.clear_tracks();
      if (d == 9) s.clear_tracks_to_predict(); if (d == 10) s.add_objects_of_interest(12345); if (d == 11) for (int k = 0; k < 10; ++k) *s.add_map_features() = Feature(k, 3, {}); if (d == 12) s.add_tracks_to_predict()->set_track_index(1000000);
    }
    // Every defect but the last three harmless ones makes the scenario malformed.
    bool harmless = past == 1; for (int d : {a, b}) harmless = harmless && (d == 0 || d == 10 || d == 11);
    Run(c, s, Cfg(past, 1, 3, 2, 4, 1), std::string(names[a]) + " + " + names[b] + " past " + std::to_string(past), harmless);
  });
  return m.run();
}
