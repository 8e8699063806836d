// C09: merging detection measurements, the P/R curve, automatic cutoffs.
#include <functional>
#include "bdref.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
using V = std::vector<int>;
using DM = std::vector<DetectionMeasurements>;
struct PR { double p, r; };
// area under the interpolated curve. Returns false when a gap is too close to a multiple of the step to call.
static bool RefAP(const std::vector<PR>& v, double delta, double* ap) {
  *ap = 0; if (v.empty()) return true;
  std::map<double, double> best; best[0] = 1;
  for (auto& x : v) { double& b = best.insert({x.r, 0}).first->second; b = std::max(b, x.p); }
  double hi = -1, P = 0;
  for (auto it = best.rbegin(); it != best.rend(); ++it) {
    if (hi < 0) { hi = it->first; P = it->second; continue; }
    const double lo = it->first, g = hi - lo, Pl = lo == 0 ? P : std::max(P, it->second);
    const double q = g / delta; double k = std::floor(q); if (std::fabs(q - std::round(q)) * delta < 2e-7) k = std::round(q) - 1; else if (std::fabs(q - std::round(q)) * delta < 5e-5) return false;
    if (k < 0) k = 0;
    *ap += k * delta * P + (g - k * delta) * (P + Pl) / 2;
    hi = lo; P = Pl;
  }
  return true;
}
static std::string ShowPR(const std::vector<PR>& v) { std::ostringstream s; for (auto& x : v) s << "(" << x.p << "," << x.r << ")"; return s.str(); }
struct M1 { int tp, fp, fn; double ha, la; };
static DetectionMeasurement MkM(const M1& a, double cut) { DetectionMeasurement m; m.set_num_tps(a.tp); m.set_num_fps(a.fp); m.set_num_fns(a.fn); m.set_sum_ha(a.ha); m.set_sum_longitudinal_affinity(a.la); m.set_score_cutoff(cut); return m; }
static void CheckMetrics(mc::Ctx& c, const std::vector<M1>& v, const std::vector<double>& cuts, double minp, double delta, const DetectionMetrics& g, const std::string& ds) {
  const int n = v.size();
  if (g.precisions_size() != n || g.recalls_size() != n || g.precisions_ha_weighted_size() != n || g.recalls_ha_weighted_size() != n || g.precisions_longitudinal_affinity_weighted_size() != n || g.recalls_longitudinal_affinity_weighted_size() != n || g.score_cutoffs_size() != n || g.measurements().measurements_size() != n) { c.fail("metric-sizes", ds); return; }
  std::vector<PR> a[3];
  for (int i = 0; i < n; ++i) {
    const int P = v[i].tp + v[i].fp, R = v[i].tp + v[i].fn; const double num[3] = {(double)v[i].tp, v[i].ha, v[i].la};
    const float gp[3] = {g.precisions(i), g.precisions_ha_weighted(i), g.precisions_longitudinal_affinity_weighted(i)}, gr[3] = {g.recalls(i), g.recalls_ha_weighted(i), g.recalls_longitudinal_affinity_weighted(i)};
    for (int k = 0; k < 3; ++k) {
      double p = P ? num[k] / P : 0; if (p < minp) p = 0;
      const double r = R ? double(v[i].tp) / R : 0; if (r == 0) p = 1;
      if (std::fabs(gp[k] - p) > 1e-5 || std::fabs(gr[k] - r) > 1e-5) c.fail("precision-recall", ds + " kind " + std::to_string(k) + " cutoff " + std::to_string(i) + " got " + std::to_string(gp[k]) + "/" + std::to_string(gr[k]) + " want " + std::to_string(p) + "/" + std::to_string(r));
      a[k].push_back({p, r});
    }
    if (std::fabs(g.score_cutoffs(i) - cuts[i]) > 1e-6) c.fail("metric-cutoff", ds);
    const auto& m = g.measurements().measurements(i);
    if (m.num_tps() != v[i].tp || m.num_fps() != v[i].fp || m.num_fns() != v[i].fn || std::fabs(m.sum_ha() - v[i].ha) > 1e-4 || std::fabs(m.sum_longitudinal_affinity() - v[i].la) > 1e-4) c.fail("counts", ds + " cutoff " + std::to_string(i) + " got " + m.ShortDebugString());
  }
  const float ga[3] = {g.mean_average_precision(), g.mean_average_precision_ha_weighted(), g.mean_average_precision_longitudinal_affinity_weighted()};
  for (int k = 0; k < 3; ++k) { double ap; if (RefAP(a[k], delta, &ap) && std::fabs(ap - ga[k]) > 1e-4) c.fail("average-precision", ds + " kind " + std::to_string(k) + " " + ShowPR(a[k]) + " delta " + std::to_string(delta) + " got " + std::to_string(ga[k]) + " want " + std::to_string(ap)); }
}
static Config Cfg(const std::vector<double>& cuts, bool details) {
  Config c; for (int id : {(int)Breakdown::ONE_SHARD, (int)Breakdown::OBJECT_TYPE, (int)Breakdown::VELOCITY}) { c.add_breakdown_generator_ids((Breakdown::GeneratorId)id); auto* d = c.add_difficulties(); d->add_levels(Label::LEVEL_1); d->add_levels(Label::LEVEL_2); }
  for (double x : cuts) c.add_score_cutoffs(x);
  for (int i = 0; i < 5; ++i) c.add_iou_thresholds(.5);
  c.set_matcher_type(MatcherProto::TYPE_HUNGARIAN); c.set_box_type(Label::Box::TYPE_2D);
  if (details) c.set_include_details_in_measurements(true);
  return c;
}
static Object Ob(int fr, const char* tag, int k, int type, double x, double hd, double score, int diff) {
  O o = Base(type); o.x = x; o.score = score; o.vx = diff == 1 ? .5 : 5; Object r = Mk(o);
  r.mutable_object()->set_id(std::string(tag) + std::to_string(fr) + "_" + std::to_string(k)); r.mutable_object()->mutable_box()->set_heading(hd);
  r.mutable_object()->set_detection_difficulty_level((Label::DifficultyLevel)diff); return r;
}
// small frame alphabet: exact hits, misses, false positives, two types, inaccurate headings, empty
static void MkFrame(int kind, int fr, std::vector<Object>* pd, std::vector<Object>* gt) {
  switch (kind) {
    case 0: break;
    case 1: pd->push_back(Ob(fr, "p", 0, 1, 10, .3, .9, 1)); gt->push_back(Ob(fr, "g", 0, 1, 10, 0, 1, 1)); break;
    case 2: gt->push_back(Ob(fr, "g", 0, 1, 10, 0, 1, 2)); gt->push_back(Ob(fr, "g", 1, 2, 30, 0, 1, 1)); pd->push_back(Ob(fr, "p", 0, 2, 30, 3.1415926, .4, 1)); break;
    case 3: pd->push_back(Ob(fr, "p", 0, 1, 10, 0, .6, 1)); pd->push_back(Ob(fr, "p", 1, 1, 50, 0, .2, 1)); gt->push_back(Ob(fr, "g", 0, 1, 10, 3.1415926, 1, 1)); break;
    case 4: pd->push_back(Ob(fr, "p", 0, 1, 80, 0, .95, 1)); break;
    case 5: gt->push_back(Ob(fr, "g", 0, 2, 20, 0, 1, 1)); break;
    default: for (int i = 0; i < 3; ++i) { pd->push_back(Ob(fr, "p", i, 1 + i % 2, 20 * i, 1.5707963 * i, .3 * i + .1, 1)); gt->push_back(Ob(fr, "g", i, 1 + i % 2, 20 * i, 0, 1, 1 + i % 2)); }
  }
}
static bool Near(double a, double b) { return std::fabs(a - b) < 1e-4; }
// same numbers; details as a sequence of per-frame entries
static std::string Diff(const DM& a, const DM& b, bool ordered) {
  if (a.size() != b.size()) return "different number of breakdowns";
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].breakdown().SerializeAsString() != b[i].breakdown().SerializeAsString() || a[i].measurements_size() != b[i].measurements_size()) return "breakdown " + std::to_string(i);
    for (int k = 0; k < a[i].measurements_size(); ++k) {
      const auto &x = a[i].measurements(k), &y = b[i].measurements(k);
      if (x.num_tps() != y.num_tps() || x.num_fps() != y.num_fps() || x.num_fns() != y.num_fns() || !Near(x.sum_ha(), y.sum_ha()) || !Near(x.sum_longitudinal_affinity(), y.sum_longitudinal_affinity()) || x.score_cutoff() != y.score_cutoff()) return "numbers of breakdown " + std::to_string(i) + " cutoff " + std::to_string(k) + ": " + x.ShortDebugString() + " vs " + y.ShortDebugString();
      std::vector<std::string> u, v; for (auto& d : x.details()) u.push_back(d.SerializeAsString()); for (auto& d : y.details()) v.push_back(d.SerializeAsString());
      if (!ordered) { std::sort(u.begin(), u.end()); std::sort(v.begin(), v.end()); }
      if (u != v) return "details of breakdown " + std::to_string(i) + " cutoff " + std::to_string(k) + ": " + std::to_string(u.size()) + " vs " + std::to_string(v.size()) + " entries";
    }
  }
  return "";
}
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  m.family("groupings", "every sequence of 1..4 frames from 7 frame kinds; every order and every way of merging pairs of partial results (binary trees), n-ary merges, direct evaluation; details on/off", [=](mc::Ctx& c) {
    int n = 1 + c.choose(th ? 5 : 4); V k; for (int i = 0; i < n; ++i) k.push_back(c.choose(n >= 4 ? (th && n == 4 ? 7 : 4) : 7));
    bool det = c.flip();
    if (!c.go()) return;
    const std::vector<double> cuts = {0, .35, .7}; Config cfg = Cfg(cuts, det);
    std::vector<std::vector<Object>> pd(n), gt(n); std::vector<DM> ms;
    for (int i = 0; i < n; ++i) { MkFrame(k[i], i, &pd[i], &gt[i]); ms.push_back(ComputeDetectionMeasurements(cfg, pd[i], gt[i])); c.step(); }
    std::string ds = "frames " + mc::Str(k) + (det ? " with details" : "");
    // reference: sums in frame order
    DM want = ms[0];
    for (int f = 1; f < n; ++f) for (size_t i = 0; i < want.size(); ++i) for (int q = 0; q < 3; ++q) {
      auto* x = want[i].mutable_measurements(q); const auto& y = ms[f][i].measurements(q);
      x->set_num_tps(x->num_tps() + y.num_tps()); x->set_num_fps(x->num_fps() + y.num_fps()); x->set_num_fns(x->num_fns() + y.num_fns()); x->set_sum_ha(x->sum_ha() + y.sum_ha()); x->set_sum_longitudinal_affinity(x->sum_longitudinal_affinity() + y.sum_longitudinal_affinity());
      for (auto& d : y.details()) *x->add_details() = d;
    }
    auto judge = [&](const std::vector<DetectionMetrics>& g, bool ordered, const std::string& how) {
      DM got; for (auto& x : g) got.push_back(x.measurements());
      std::string d = Diff(got, want, ordered); if (!d.empty()) { c.fail("merge", ds + " " + how + ": " + d); return; }
      for (size_t i = 0; i < g.size(); ++i) { if (g[i].breakdown().SerializeAsString() != want[i].breakdown().SerializeAsString()) c.fail("breakdown", ds); std::vector<M1> v; for (auto& x : want[i].measurements()) v.push_back({x.num_tps(), x.num_fps(), x.num_fns(), x.sum_ha(), x.sum_longitudinal_affinity()}); CheckMetrics(c, v, cuts, 0, .05, g[i], ds + " " + how); }
    };
    judge(ComputeDetectionMetrics(cfg, pd, gt), true, "from objects");
    judge(ComputeDetectionMetrics(cfg, ms), true, "from measurements");
    // all binary trees over the frame order
    std::map<std::pair<int, int>, std::vector<DM>> memo;
    std::function<const std::vector<DM>&(int, int)> trees = [&](int a, int b) -> const std::vector<DM>& {
      auto& r = memo[{a, b}]; if (!r.empty()) return r;
      std::vector<DM> o; if (b - a == 1) o.push_back(ms[a]);
      for (int s = a + 1; s < b; ++s) { auto L = trees(a, s), R = trees(s, b); for (auto& l : L) for (auto& q : R) { o.push_back(MergeDetectionMeasurements(cfg, {l, q})); c.step(); } }
      return r = o;
    };
    auto all = trees(0, n);
    for (size_t t = 0; t < all.size(); ++t) { std::string d = Diff(all[t], want, true); if (!d.empty()) c.fail("merge", ds + " merge tree " + std::to_string(t) + ": " + d); }
    judge(ComputeDetectionMetrics(cfg, std::vector<DM>{all.back()}), true, "from a merged measurement");
    { std::string d = Diff(MergeDetectionMeasurements(cfg, ms), want, true); if (!d.empty()) c.fail("merge", ds + " n-ary: " + d); }
    V p(n); for (int i = 0; i < n; ++i) p[i] = i;
    if (n <= 4) while (std::next_permutation(p.begin(), p.end())) {
      std::vector<DM> q; for (int i : p) q.push_back(ms[i]);
      judge(ComputeDetectionMetrics(cfg, q), false, "order " + mc::Str(p)); c.step();
    }
    c.state(mc::HashStr(ds)); c.outcome(std::to_string(all.size()) + " trees"); c.sample([&] { return ds; });
  });
  m.family("metrics from counts", "every pair of count triples (tp,fp,fn in 0..3) at two cutoffs plus three-cutoff lists, heading/affinity sums full/half, minimum precision {0,.45}, recall steps {.05,.3,1}", [=](mc::Ctx& c) {
    int n = 1 + c.choose(3); std::vector<M1> v;
    for (int i = 0; i < n; ++i) { int mx = n == 3 ? (th ? 3 : 2) : 4; M1 a; a.tp = c.choose(mx); a.fp = c.choose(mx); a.fn = c.choose(mx); if (n == 3 && mx == 2) { a.tp *= 1 + i; a.fn *= 2; } v.push_back(a); }
    int s = c.choose(2); double minp = c.flip() ? .45 : 0; static const double D[3] = {.05, .3, 1}; double dl = D[c.choose(3)];
    if (!c.go()) return;
    std::vector<double> cuts; for (int i = 0; i < n; ++i) { v[i].ha = v[i].tp * (s ? .55 : 1); v[i].la = v[i].tp * (s ? .8 - .1 * i : 1); cuts.push_back(.25 * i); }
    Config cfg = Cfg(cuts, false); cfg.set_min_precision(minp); cfg.set_desired_recall_delta(dl);
    DetectionMeasurements x; x.mutable_breakdown()->set_generator_id(Breakdown::ONE_SHARD); x.mutable_breakdown()->set_shard(0); x.mutable_breakdown()->set_difficulty_level(Label::LEVEL_2);
    std::ostringstream ds; ds << "counts "; for (int i = 0; i < n; ++i) { *x.add_measurements() = MkM(v[i], cuts[i]); ds << v[i].tp << "/" << v[i].fp << "/" << v[i].fn << " "; } ds << "min_precision " << minp << " delta " << dl << " s " << s;
    auto g = ComputeDetectionMetrics(cfg, std::vector<DM>{{x}}); c.step();
    if (g.size() != 1) { c.fail("metric-sizes", ds.str()); return; }
    CheckMetrics(c, v, cuts, minp, dl, g[0], ds.str());
    c.outcome("ap " + std::to_string((int)(g[0].mean_average_precision() * 10))); c.state(mc::HashStr(ds.str())); c.sample([&] { return ds.str() + " ap " + std::to_string(g[0].mean_average_precision()); });
  });
  m.family("long runs", "n frames (n in {40,300}) in every periodic pattern of two or three of the 7 frame kinds, evaluated from objects, from measurements, merged one by one and in halves: sums over all frames", [=](mc::Ctx& c) {
    const int n = c.pick(V{40, 300}), a = c.choose(7), b = c.choose(7), d = n == 40 || th ? c.choose(7) : a; const bool det = n == 40 && c.flip();
    if (!c.go()) return;
    const std::vector<double> cuts = {0, .35, .7}; Config cfg = Cfg(cuts, det);
    std::vector<std::vector<Object>> pd(n), gt(n); std::vector<DM> kind(7), ms; std::string ds = std::to_string(n) + " frames of kinds " + mc::Str(V{a, b, d}) + (det ? " with details" : "");
    for (int i = 0; i < n; ++i) { const int k = i % 3 == 0 ? a : i % 3 == 1 ? b : d; MkFrame(k, i, &pd[i], &gt[i]); ms.push_back(ComputeDetectionMeasurements(cfg, pd[i], gt[i])); }
    c.step(n);
    DM want = ms[0]; std::vector<std::vector<M1>> sum(want.size(), std::vector<M1>(3, M1{0, 0, 0, 0, 0}));
    for (size_t i = 0; i < want.size(); ++i) for (int q = 0; q < 3; ++q) {
      auto* x = want[i].mutable_measurements(q); x->clear_details(); M1& t = sum[i][q];
      for (int f = 0; f < n; ++f) { const auto& y = ms[f][i].measurements(q); t.tp += y.num_tps(); t.fp += y.num_fps(); t.fn += y.num_fns(); t.ha += y.sum_ha(); t.la += y.sum_longitudinal_affinity(); for (auto& e : y.details()) *x->add_details() = e; }
      x->set_num_tps(t.tp); x->set_num_fps(t.fp); x->set_num_fns(t.fn); x->set_sum_ha(t.ha); x->set_sum_longitudinal_affinity(t.la);
    }
    auto near = [&](const DM& x, const std::string& how) {
      if (x.size() != want.size()) { c.fail("merge", ds + " " + how); return; }
      DM y = x; for (size_t i = 0; i < y.size(); ++i) for (int q = 0; q < y[i].measurements_size() && q < 3; ++q) { auto* e = y[i].mutable_measurements(q); const auto& w = want[i].measurements(q); if (std::fabs(e->sum_ha() - w.sum_ha()) < 1e-5 * n * (1 + w.sum_ha())) e->set_sum_ha(w.sum_ha()); if (std::fabs(e->sum_longitudinal_affinity() - w.sum_longitudinal_affinity()) < 1e-5 * n * (1 + w.sum_ha())) e->set_sum_longitudinal_affinity(w.sum_longitudinal_affinity()); }
      std::string r = Diff(y, want, true); if (!r.empty()) c.fail("merge", ds + " " + how + ": " + r);
    };
    auto judge = [&](const std::vector<DetectionMetrics>& g, const std::string& how) {
      DM got; for (auto& x : g) got.push_back(x.measurements()); near(got, how); if (got.size() != want.size()) return;
      for (size_t i = 0; i < g.size(); ++i) for (int q = 0; q < 3; ++q) { const M1& t = sum[i][q]; const int P = t.tp + t.fp, R = t.tp + t.fn; const double r = R ? double(t.tp) / R : 0, p = r == 0 ? 1 : P ? double(t.tp) / P : 0; if (g[i].precisions_size() != 3 || g[i].recalls_size() != 3 || std::fabs(g[i].precisions(q) - p) > 1e-5 || std::fabs(g[i].recalls(q) - r) > 1e-5) { c.fail("precision-recall", ds + " " + how); return; } }
    };
    judge(ComputeDetectionMetrics(cfg, pd, gt), "from objects"); judge(ComputeDetectionMetrics(cfg, ms), "from measurements");
    DM one = ms[0]; for (int i = 1; i < n; ++i) one = MergeDetectionMeasurements(cfg, {one, ms[i]}); near(one, "one by one");
    std::vector<DM> lv = ms; while (lv.size() > 1) { std::vector<DM> nx; for (size_t i = 0; i < lv.size(); i += 2) nx.push_back(i + 1 < lv.size() ? MergeDetectionMeasurements(cfg, {lv[i], lv[i + 1]}) : lv[i]); lv = nx; } near(lv[0], "in halves");
    c.step(2 * n); c.state(mc::HashStr(ds)); c.outcome(std::to_string(n)); c.sample([&] { return ds; });
  });
  m.family("large counts", "counts of {0, 1, 7, 30000, 70000, 16777217, 100000000} true positives x false positives x false negatives at one or two cutoffs, one measurement or split in two: exact sums, precision and recall", [=](mc::Ctx& c) {
    static const int N[7] = {0, 1, 7, 30000, 70000, 16777217, 100000000}; const int n = 1 + c.choose(2); std::vector<M1> v; for (int i = 0; i < n; ++i) { M1 a; a.tp = N[c.choose(7)]; a.fp = N[i ? c.choose(4) : c.choose(7)]; a.fn = N[i ? 5 : c.choose(7)]; a.ha = .5 * a.tp; a.la = .25 * a.tp; v.push_back(a); } const int split = c.choose(3);
    if (!c.go()) return;
    std::vector<double> cuts; for (int i = 0; i < n; ++i) cuts.push_back(.25 * i);
    Config cfg = Cfg(cuts, false); std::vector<DM> in; std::ostringstream ds; ds << "counts "; for (auto& a : v) ds << a.tp << "/" << a.fp << "/" << a.fn << " "; ds << "split " << split;
    auto put = [&](int part) { DetectionMeasurements x; x.mutable_breakdown()->set_generator_id(Breakdown::ONE_SHARD); x.mutable_breakdown()->set_shard(0); x.mutable_breakdown()->set_difficulty_level(Label::LEVEL_2); for (int i = 0; i < n; ++i) { M1 a = v[i]; if (split) { M1 h{a.tp / 3, a.fp / 2, a.fn / 5, a.ha / 2, a.la / 2}; a = part == 0 ? h : M1{a.tp - h.tp, a.fp - h.fp, a.fn - h.fn, a.ha / 2, a.la / 2}; } *x.add_measurements() = MkM(a, cuts[i]); } in.push_back({x}); };
    put(0); if (split) put(1); if (split == 2) std::swap(in[0], in[1]);
    auto g = ComputeDetectionMetrics(cfg, in); c.step();
    if (g.size() != 1) { c.fail("metric-sizes", ds.str()); return; }
    for (int i = 0; i < n; ++i) {
      const auto& t = g[0].measurements().measurements(i); const M1& a = v[i]; const double P = double(a.tp) + a.fp, R = double(a.tp) + a.fn;
      if (t.num_tps() != a.tp || t.num_fps() != a.fp || t.num_fns() != a.fn || std::fabs(t.sum_ha() - a.ha) > 1e-6 * (1 + a.ha) || std::fabs(t.sum_longitudinal_affinity() - a.la) > 1e-6 * (1 + a.la)) { c.fail("counts", ds.str() + " got " + t.ShortDebugString()); return; }
      const double r = R ? a.tp / R : 0, p = a.tp && R ? a.tp / P : 1, h = a.tp && R ? a.ha / P : 1;
      if (std::fabs(g[0].precisions(i) - p) > 1e-5 || std::fabs(g[0].recalls(i) - r) > 1e-5 || std::fabs(g[0].precisions_ha_weighted(i) - h) > 1e-5) { c.fail("precision-recall", ds.str() + " got " + std::to_string(g[0].precisions(i)) + "/" + std::to_string(g[0].recalls(i))); return; }
    }
    c.state(mc::HashStr(ds.str())); c.outcome("n=" + std::to_string(n)); c.sample([&] { return ds.str(); });
  });
  m.family("curve", "every list of 0..3 (thorough 4) precision/recall points over 5x7 values, recall steps {.03,.05,.1,.2,.25,.3,.5,1}; precision and recall lists in every order", [=](mc::Ctx& c) {
    static const double P[5] = {1, .9, .5, .2, 0}, R[7] = {0, .25, .33, .5, .6, .75, 1}, D[8] = {.03, .05, .1, .2, .25, .3, .5, 1};
    int n = c.choose(th ? 5 : 4); std::vector<PR> v; for (int i = 0; i < n; ++i) { double p = P[c.choose(n == 4 ? 4 : 5)], r = R[c.choose(n == 4 ? 5 : 7)]; v.push_back({p, r}); }
    double dl = D[c.choose(n == 4 ? 3 : 8)];
    if (!c.go()) return;
    std::vector<float> p, r; for (auto& x : v) { p.push_back(x.p); r.push_back(x.r); }
    float g = internal::ComputeMeanAveragePrecision(p, r, dl); c.step();
    double ap; bool sure = RefAP(v, dl, &ap);
    c.outcome(!sure ? "gap too close to the step" : ap == 0 ? "zero" : ap > .999 ? "one" : "between");
    if (sure && std::fabs(g - ap) > 1e-4) c.fail("average-precision", ShowPR(v) + " delta " + std::to_string(dl) + " got " + std::to_string(g) + " want " + std::to_string(ap));
    c.state(mc::HashStr(ShowPR(v))); c.sample([&] { return ShowPR(v) + " -> " + std::to_string(g); });
  });
  auto cut_check = [](mc::Ctx& c, std::vector<double> s, int n, const std::vector<float>& g, const std::string& ds) {
    std::sort(s.begin(), s.end());
    if (n == 1) { if (g.size() != 1 || g[0] != 0) c.fail("cutoffs", ds + " got " + mc::Str(g)); return; }
    if ((int)g.size() != n) { c.fail("cutoffs", ds + " got " + mc::Str(g)); return; }
    const int N = s.size();
    if (n >= N) { for (int i = 0; i < n; ++i) if (std::fabs(g[i] - double(i) / (n - 1)) > 1e-4) { c.fail("cutoffs", ds + " not uniform: " + mc::Str(g)); return; } return; }
    // first = smallest score, last = 1, the others start buckets of (almost) equal size
    bool ok = std::fabs(g[0] - s[0]) < 1e-6 && std::fabs(g[n - 1] - 1) < 1e-6;
    std::set<int> at = {0}; const int B = n - 1, lo = N / B, hi = lo + (N % B != 0);
    for (int i = 1; i < B && ok; ++i) { std::set<int> nx; for (int a : at) for (int z = lo; z <= hi; ++z) if (a + z < N && std::fabs(s[a + z] - g[i]) < 1e-6) nx.insert(a + z); at = nx; ok = !at.empty(); }
    if (ok) { bool fit = false; for (int a : at) fit |= N - a >= lo && N - a <= hi; ok = fit; }
    if (!ok) c.fail("cutoffs", ds + " do not split the scores evenly: " + mc::Str(g));
  };
  m.family("cutoffs", "every multiset of 0..7 (thorough 9) scores over 5 values x 1..9 desired cutoffs, and 0..200 distinct scores x 1..101 cutoffs; directly and through frames in every distribution over 3 frames, with ground truth in all, some or no frames and predictions of mixed types", [=](mc::Ctx& c) {
    bool big = c.flip(); std::vector<double> s; int n, split = 0;
    if (big) { int N = c.choose(th ? 201 : 60); n = 1 + c.choose(th ? 101 : 40); for (int i = 0; i < N; ++i) s.push_back((i + .5) / 201); split = c.choose(2); }
    else { int N = c.choose(th ? 10 : 8), last = 0; static const double S[5] = {0, .2, .5, .9, 1}; for (int i = 0; i < N; ++i) { last += c.choose(5 - last); s.push_back(S[last]); } n = 1 + c.choose(9); split = c.choose(3); }
    if (!c.go()) return;
    std::string ds = "scores " + mc::Str(s) + " desired " + std::to_string(n);
    std::vector<float> sf(s.begin(), s.end());
    if (n < 2 || !s.empty()) { cut_check(c, s, n, internal::DecideScoreCutoffs(sf, n), ds); c.step(); }
    Config cfg = Cfg({}, false); cfg.set_num_desired_score_cutoffs(n);
    std::vector<std::vector<Object>> pd(3), gt(3);
    for (size_t i = 0; i < s.size(); ++i) pd[split == 0 ? i % 3 : split == 1 ? 2 : (2 * i < s.size() ? 1 : 0)].push_back(Ob(0, "p", i, 1, 5 * i, 0, s[split == 2 ? s.size() - 1 - i : i], 1));
    for (auto& f : pd) std::reverse(f.begin(), f.end());
    const int truth = (s.size() + n) % 3; if (truth) for (int f = 0; f < (truth == 1 ? 1 : 3); ++f) gt[f].push_back(Ob(0, "g", f, 1, -300, 0, 1, 1));
    if (s.size() % 2) for (auto& f : pd) for (size_t i = 1; i < f.size(); i += 2) f[i].mutable_object()->set_type(Label::TYPE_PEDESTRIAN);
    Config e = EstimateScoreCutoffs(cfg, pd, gt); c.step();
    cut_check(c, s, n, std::vector<float>(e.score_cutoffs().begin(), e.score_cutoffs().end()), ds + " via frames");
    if (!big && s.size() <= 4 && n <= 4) {   // evaluation without cutoffs uses the chosen ones
      auto g = ComputeDetectionMetrics(cfg, pd, gt); bool ok = !g.empty() && g[0].score_cutoffs_size() == e.score_cutoffs_size();
      for (int i = 0; ok && i < e.score_cutoffs_size(); ++i) ok = std::fabs(g[0].score_cutoffs(i) - e.score_cutoffs(i)) < 1e-6;
      if (!ok) c.fail("cutoffs", ds + " not used by the evaluation");
      for (int i = 0; ok && i < g[0].score_cutoffs_size(); ++i) { int above = 0; for (double x : s) above += float(x) >= e.score_cutoffs(i); if (g[0].measurements().measurements(i).num_fps() != above) c.fail("cutoffs", ds + " predictions above the cutoff"); }
    }
    c.state(mc::HashStr(ds)); c.sample([&] { return ds; });
  });
  return m.run();
}
