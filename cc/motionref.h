// Reference for the motion metrics, written from the definitions in motion_metrics.proto / .h.
#ifndef MOTIONREF_H_
#define MOTIONREF_H_
#include "mc.h"
#include "wod.h"
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/metrics/motion_metrics_utils.h"
using namespace waymo::open_dataset;
namespace mr {
struct Acc { double total = 0; int n = 0; void Add(double v) { total += v; ++n; } void Merge(const Acc& o) { total += o.total; n += o.n; } double Mean() const { return n ? total / n : 0; } };
struct Bucket { std::multiset<std::pair<float, bool>> s; int n = 0; };
struct One { Acc ade, fde, miss, ovl; std::map<int, Bucket> ap, soft; };
using Ref = std::map<std::pair<int, int>, One>;   // (object type, step)
inline void Merge(Ref* a, const Ref& b) {
  for (auto& [k, o] : b) {
    One& t = (*a)[k]; t.ade.Merge(o.ade); t.fde.Merge(o.fde); t.miss.Merge(o.miss); t.ovl.Merge(o.ovl);
    for (auto& [i, x] : o.ap) { t.ap[i].s.insert(x.s.begin(), x.s.end()); t.ap[i].n += x.n; }
    for (auto& [i, x] : o.soft) { t.soft[i].s.insert(x.s.begin(), x.s.end()); t.soft[i].n += x.n; }
  }
}
// Area under the precision/recall curve where the precision at a recall is the best precision at that recall or beyond.
inline double AP(const Bucket& b) {
  std::vector<std::pair<float, bool>> v(b.s.begin(), b.s.end());
  std::sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first != y.first ? x.first > y.first : x.second < y.second; });
  const int n = v.size(); std::vector<double> pr(n); std::vector<int> tp(n); int t = 0;
  for (int i = 0; i < n; ++i) { t += v[i].second; tp[i] = t; pr[i] = double(t) / (i + 1); }
  double a = 0;
  for (int r = 1; r <= t; ++r) { double best = 0; for (int i = 0; i < n; ++i) if (tp[i] >= r) best = std::max(best, pr[i]); a += best / b.n; }
  return a;
}
inline double MAP(const std::map<int, Bucket>& m) { double t = 0; int n = 0; for (auto& [k, b] : m) if (!b.s.empty()) { t += AP(b); ++n; } return n ? t / n : 0; }
inline int TStep(const MotionMetricsConfig& c, int i) { return c.track_history_samples() + (i + 1) * (c.track_steps_per_second() / c.prediction_steps_per_second()); }
// Shape of a ground truth track; -1: cannot be classified.
inline int Shape(const Track& t, int cur) {
  int last = -1; for (int i = cur + 1; i < t.states_size(); ++i) if (t.states(i).valid()) last = i;
  if (last < 0 || !t.states(cur).valid()) return -1;
  const auto& a = t.states(cur); const auto& b = t.states(last);
  const double X = b.center_x() - a.center_x(), Y = b.center_y() - a.center_y(), h = a.heading();
  const double dx = X * cos(h) + Y * sin(h), dy = -X * sin(h) + Y * cos(h);
  const double dh = std::remainder(double(b.heading()) - double(a.heading()), 2 * M_PI);
  const double v = std::max(std::hypot(a.velocity_x(), a.velocity_y()), std::hypot(b.velocity_x(), b.velocity_y()));
  if (v < 2 && std::hypot(X, Y) < 3) return TrajectoryType::STATIONARY;
  if (std::fabs(dh) < M_PI / 6) return std::fabs(dy) < 2.5 ? TrajectoryType::STRAIGHT : dy < 0 ? TrajectoryType::STRAIGHT_RIGHT : TrajectoryType::STRAIGHT_LEFT;
  if (dy < 0) return dx < 0 ? TrajectoryType::RIGHT_U_TURN : TrajectoryType::RIGHT_TURN;
  return dx < 0 ? TrajectoryType::LEFT_U_TURN : TrajectoryType::LEFT_TURN;
}
inline int ShapePri(int t) { static const std::vector<int> order = {TrajectoryType::STATIONARY, TrajectoryType::STRAIGHT, TrajectoryType::STRAIGHT_RIGHT, TrajectoryType::STRAIGHT_LEFT, TrajectoryType::RIGHT_TURN, TrajectoryType::LEFT_TURN, TrajectoryType::LEFT_U_TURN, TrajectoryType::RIGHT_U_TURN}; return std::find(order.begin(), order.end(), t) - order.begin(); }
inline int TypePri(int t) { return t == Track::TYPE_CYCLIST ? 4 : t == Track::TYPE_PEDESTRIAN ? 3 : t == Track::TYPE_VEHICLE ? 2 : t == Track::TYPE_OTHER ? 1 : 0; }
inline double Heading(const SingleTrajectory& t, int i) {
  auto ang = [&](int a, int b) { return atan2(double(t.center_y(b)) - t.center_y(a), double(t.center_x(b)) - t.center_x(a)); };
  const int n = t.center_x_size();
  if (i == 0) return ang(0, 1);
  if (i == n - 1) return ang(n - 2, n - 1);
  const double p = ang(i - 1, i), q = ang(i, i + 1);
  return atan2(sin(p) + sin(q), cos(p) + cos(q));
}
// Everything the metrics accumulate for one scenario. The request must be well-formed. *amb is set when an overlap cannot be decided safely.
inline Ref Compute(const MotionMetricsConfig& c, const ScenarioPredictions& P, const Scenario& S, bool* amb) {
  Ref out; const int cur = c.track_history_samples();
  std::map<int, const Track*> tr; for (auto& r : S.tracks_to_predict()) tr[S.tracks(r.track_index()).id()] = &S.tracks(r.track_index());
  for (auto& mm : P.multi_modal_predictions()) {
    if (mm.joint_predictions_size() == 0 || mm.joint_predictions(0).trajectories_size() == 0) continue;
    const int K = std::min(c.max_predictions(), mm.joint_predictions_size());
    int type = Track::TYPE_UNSET, shape = -1;
    for (auto& t : mm.joint_predictions(0).trajectories()) {
      const Track& g = *tr.at(t.object_id());
      if (TypePri(g.object_type()) > TypePri(type)) type = g.object_type();
      const int s = Shape(g, cur); if (s >= 0 && (shape < 0 || ShapePri(s) > ShapePri(shape))) shape = s;
    }
    if (shape == TrajectoryType::RIGHT_U_TURN) shape = TrajectoryType::RIGHT_TURN;
    for (auto& sc : c.step_configurations()) {
      const int st = sc.measurement_step(); One& o = out[{type, st}];
      double ade = -1, fde = -1; std::vector<int> hit(K);   // hit: -1 unknown, 0 miss, 1 match
      for (int k = 0; k < K; ++k) {
        const auto& j = mm.joint_predictions(k); double A = 0, F = 0; bool aok = true, fok = true, h = true;
        for (auto& t : j.trajectories()) {
          const Track& g = *tr.at(t.object_id()); double e = 0; int n = 0;
          for (int i = 0; i <= st; ++i) { const auto& x = g.states(TStep(c, i)); if (x.valid()) { e += std::hypot(t.center_x(i) - x.center_x(), t.center_y(i) - x.center_y()); ++n; } }
          if (n) A += e / n; else aok = false;
          const auto& x = g.states(TStep(c, st));
          if (!x.valid()) { fok = false; continue; }
          const double dx = t.center_x(st) - x.center_x(), dy = t.center_y(st) - x.center_y(); F += std::hypot(dx, dy);
          const double lon = dx * cos(x.heading()) + dy * sin(x.heading()), lat = -dx * sin(x.heading()) + dy * cos(x.heading());
          const auto& s0 = g.states(cur); const double v = std::hypot(s0.velocity_x(), s0.velocity_y());
          const double f = v < c.speed_lower_bound() ? 0 : v > c.speed_upper_bound() ? 1 : (v - c.speed_lower_bound()) / (c.speed_upper_bound() - c.speed_lower_bound());
          const double scale = c.speed_scale_lower() + f * (c.speed_scale_upper() - c.speed_scale_lower());
          if (std::fabs(lat) > scale * sc.lateral_miss_threshold() || std::fabs(lon) > scale * sc.longitudinal_miss_threshold()) h = false;
        }
        const int n = j.trajectories_size();
        if (aok && (ade < 0 || A / n < ade)) ade = A / n;
        if (fok && (fde < 0 || F / n < fde)) fde = F / n;
        hit[k] = fok ? h : -1;
      }
      if (ade >= 0) o.ade.Add(ade);
      if (fde >= 0) o.fde.Add(fde);
      bool any = false, got = false; for (int h : hit) { any |= h >= 0; got |= h == 1; }
      if (any) o.miss.Add(!got);
      // overlap of the most confident trajectories (first one on ties) with the other objects present now
      int best = 0; for (int k = 1; k < K; ++k) if (mm.joint_predictions(k).confidence() > mm.joint_predictions(best).confidence()) best = k;
      bool ov = false;
      for (auto& t : mm.joint_predictions(best).trajectories()) {
        const Track& g = *tr.at(t.object_id());
        if (t.center_x_size() < 2) continue;
        for (int i = 0; i <= st; ++i) {
          const auto& me = g.states(TStep(c, i));
          const auto A = BoxPoly(t.center_x(i), t.center_y(i), me.length(), me.width(), Heading(t, i));
          for (auto& u : S.tracks()) {
            if (u.id() == g.id() || !u.states(cur).valid() || !u.states(TStep(c, i)).valid()) continue;
            const auto& x = u.states(TStep(c, i));
            const double a = PolyArea(Clip(A, BoxPoly(x.center_x(), x.center_y(), x.length(), x.width(), x.heading())));
            if (a > 1e-4) ov = true; else if (a > 0 && amb) *amb = true;
          }
        }
      }
      o.ovl.Add(ov);
      if (shape < 0) continue;
      std::vector<int> idx(K); for (int k = 0; k < K; ++k) idx[k] = k;
      std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) { return mm.joint_predictions(a).confidence() > mm.joint_predictions(b).confidence(); });
      bool found = false, meas = false;
      for (int k : idx) if (hit[k] >= 0) {
        const float cf = mm.joint_predictions(k).confidence();
        o.ap[shape].s.insert({cf, hit[k] && !found});
        if (!(hit[k] && found)) o.soft[shape].s.insert({cf, hit[k] == 1});
        found |= hit[k] == 1; meas = true;
      }
      if (meas) { ++o.ap[shape].n; ++o.soft[shape].n; }
    }
  }
  return out;
}
inline std::string Diff(const MeanAveragePrecisionStats& r, const std::map<int, Bucket>& m, const char* what) {
  for (int b = 0; b < std::max<int>(r.pr_buckets.size(), TrajectoryType::NUM_TYPES); ++b) {
    Bucket g; if (b < (int)r.pr_buckets.size()) { for (auto& s : r.pr_buckets[b].samples) g.s.insert({s.confidence, s.true_positive}); g.n = r.pr_buckets[b].num_trajectories; }
    auto it = m.find(b); const Bucket e = it == m.end() ? Bucket() : it->second;
    if (g.s != e.s || g.n != e.n) {
      std::ostringstream o; o << what << " of shape " << b << " is"; for (auto& x : g.s) o << " " << x.first << (x.second ? "+" : "-"); o << " of " << g.n << ", expected"; for (auto& x : e.s) o << " " << x.first << (x.second ? "+" : "-"); o << " of " << e.n; return o.str();
    }
  }
  return "";
}
inline bool AccEq(const Accumulator& a, const Acc& e) { return a.num_measurements == e.n && std::fabs(a.total - e.total) <= 1e-5 * (1 + std::fabs(e.total)); }
// "" when the library's statistics equal the reference
inline std::string Diff(const BucketedMetricsStats& r, const Ref& e, bool overlap) {
  std::set<std::pair<int, int>> keys; for (auto& [t, m] : r.stats) for (auto& [s, x] : m) keys.insert({t, s});
  std::set<std::pair<int, int>> ek; for (auto& [k, x] : e) ek.insert(k);
  if (keys != ek) { std::ostringstream o; o << "results for (type,step)"; for (auto& k : keys) o << " (" << k.first << "," << k.second << ")"; o << ", expected"; for (auto& k : ek) o << " (" << k.first << "," << k.second << ")"; return o.str(); }
  for (auto& [k, x] : e) {
    const MetricsStats& g = r.stats.at((Track::ObjectType)k.first).at(k.second);
    std::ostringstream o; o << "type " << k.first << " step " << k.second << ": ";
    auto chk = [&](const char* n, const Accumulator& a, const Acc& b) { if (AccEq(a, b)) return false; o << n << " " << a.total << "/" << a.num_measurements << ", expected " << b.total << "/" << b.n; return true; };
    if (chk("average displacement", g.min_average_displacement, x.ade) || chk("final displacement", g.min_final_displacement, x.fde) || chk("misses", g.miss_rate, x.miss) || (overlap && chk("overlaps", g.overlap_rate, x.ovl))) return o.str();
    std::string d = Diff(g.mean_average_precision, x.ap, "samples"); if (d.empty()) d = Diff(g.soft_mean_average_precision, x.soft, "soft samples");
    if (!d.empty()) return o.str() + d;
  }
  return "";
}
inline MotionMetricsConfig Config(int tps, int pps, int hist, int fut, const std::vector<int>& steps, int K) {
  MotionMetricsConfig c; c.set_track_steps_per_second(tps); c.set_prediction_steps_per_second(pps); c.set_track_history_samples(hist); c.set_track_future_samples(fut);
  c.set_speed_lower_bound(1.4); c.set_speed_upper_bound(11); c.set_speed_scale_lower(.5); c.set_speed_scale_upper(1); c.set_max_predictions(K);
  double f = 1; for (int s : steps) { auto* x = c.add_step_configurations(); x->set_measurement_step(s); x->set_lateral_miss_threshold(f); x->set_longitudinal_miss_threshold(2 * f); f *= 1.5; }
  return c;
}
inline int Len(const MotionMetricsConfig& c) { return c.track_future_samples() * c.prediction_steps_per_second() / c.track_steps_per_second(); }
inline std::string Show(const MotionMetricsConfig& c, const ScenarioPredictions& p, const Scenario& s) {
  std::ostringstream o; o << "config tps " << c.track_steps_per_second() << " pps " << c.prediction_steps_per_second() << " hist " << c.track_history_samples() << " fut " << c.track_future_samples() << " K " << c.max_predictions() << " steps"; for (auto& x : c.step_configurations()) o << " " << x.measurement_step();
  o << " | tracks"; for (auto& t : s.tracks()) { o << " #" << t.id() << " type " << t.object_type() << " ("; for (auto& x : t.states()) { if (x.valid()) o << " " << x.center_x() << "," << x.center_y() << "@" << x.heading(); else o << " -"; } o << " )"; if (t.states_size() > c.track_history_samples() && c.track_history_samples() >= 0) { auto& x = t.states(c.track_history_samples()); o << " v " << x.velocity_x() << "," << x.velocity_y() << " size " << x.length() << "x" << x.width(); } }
  o << " | predict"; for (auto& r : s.tracks_to_predict()) o << " " << r.track_index();
  for (auto& m : p.multi_modal_predictions()) { o << " | group"; for (auto& j : m.joint_predictions()) { o << " [" << j.confidence() << ":"; for (auto& t : j.trajectories()) { o << " #" << t.object_id(); for (int i = 0; i < t.center_x_size() && i < t.center_y_size(); ++i) o << " " << t.center_x(i) << "," << t.center_y(i); } o << "]"; } }
  return o.str().substr(0, 1600);
}
// Adds a track moving from (x,y) along heading h at v m/s (1/tps s per state), turning by turn per state.
inline Track* AddTrack(Scenario* s, const MotionMetricsConfig& c, int id, int type, double x, double y, double h, double v, double turn = 0, double L = 4, double W = 2) {
  Track* t = s->add_tracks(); t->set_id(id); t->set_object_type((Track::ObjectType)type);
  for (int i = 0; i < c.track_history_samples() + 1 + c.track_future_samples(); ++i) {
    ObjectState* o = t->add_states(); o->set_center_x(x); o->set_center_y(y); o->set_center_z(0); o->set_heading(h); o->set_length(L); o->set_width(W); o->set_height(1.5); o->set_velocity_x(v * cos(h)); o->set_velocity_y(v * sin(h)); o->set_valid(true);
    x += v / c.track_steps_per_second() * cos(h); y += v / c.track_steps_per_second() * sin(h); h += turn;
  }
  return t;
}
// Trajectory equal to the track plus an offset in the track's frame per step.
inline void AddTraj(JointTrajectories* j, const MotionMetricsConfig& c, const Track& t, std::function<std::pair<double, double>(int)> lonlat) {
  SingleTrajectory* o = j->add_trajectories(); o->set_object_id(t.id());
  for (int i = 0; i < Len(c); ++i) { const auto& x = t.states(TStep(c, i)); auto [lo, la] = lonlat(i); o->add_center_x(x.center_x() + lo * cos(x.heading()) - la * sin(x.heading())); o->add_center_y(x.center_y() + lo * sin(x.heading()) + la * cos(x.heading())); }
}
}  // namespace mr
#endif
