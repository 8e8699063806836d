// C14: segmentation counting, resets and merges, in lockstep with a reference confusion matrix.
#include "mc.h"
#include "waymo_open_dataset/metrics/segmentation_metrics.h"
using namespace waymo::open_dataset;
using V = std::vector<int>;
struct Model {
  V cls; std::map<std::pair<int, int>, long> n;
  bool In(int c) const { return std::count(cls.begin(), cls.end(), c) > 0; }
  void Add(const V& pd, const V& gt) { for (size_t i = 0; i < pd.size(); ++i) if (In(gt[i])) ++n[{gt[i], In(pd[i]) ? pd[i] : -1}]; }
  void Counts(int c, long* in, long* un) const { *in = *un = 0; for (auto& [k, v] : n) { if (k.first == c && k.second == c) *in += v; if (k.first == c || k.second == c) *un += v; } }
};
static std::string Check(const SegmentationMetrics& m, const V& cls, const std::vector<std::pair<long, long>>& iu) {
  double sum = 0; std::ostringstream o;
  if ((size_t)m.per_class_iou_size() != cls.size() || (size_t)m.segmentation_measurements().intersections_size() != cls.size() || (size_t)m.segmentation_measurements().unions_size() != cls.size()) { o << "results for " << m.per_class_iou_size() << " classes, expected " << cls.size(); return o.str(); }
  for (size_t i = 0; i < cls.size(); ++i) {
    const double e = iu[i].second > 0 ? double(iu[i].first) / iu[i].second : 1; sum += e;
    if (m.segmentation_measurements().intersections(i) != iu[i].first || m.segmentation_measurements().unions(i) != iu[i].second) { o << "class " << cls[i] << " counts " << m.segmentation_measurements().intersections(i) << "/" << m.segmentation_measurements().unions(i) << ", expected " << iu[i].first << "/" << iu[i].second; return o.str(); }
    auto it = m.per_class_iou().find(cls[i]);
    if (it == m.per_class_iou().end() || std::fabs(it->second - e) > 1e-5) { o << "class " << cls[i] << " iou " << (it == m.per_class_iou().end() ? -1 : it->second) << ", expected " << e; return o.str(); }
  }
  if (std::fabs(m.miou() - sum / cls.size()) > 1e-5) { o << "miou " << m.miou() << ", expected " << sum / cls.size(); return o.str(); }
  return "";
}
static std::vector<std::pair<long, long>> IU(const Model& m) { std::vector<std::pair<long, long>> r; for (int c : m.cls) { long a, b; m.Counts(c, &a, &b); r.push_back({a, b}); } return r; }
static Status Up(SegmentationMetricsIOU* s, const V& pd, const V& gt) { std::vector<Segmentation::Type> a, b; for (int x : pd) a.push_back((Segmentation::Type)x); for (int x : gt) b.push_back((Segmentation::Type)x); return s->Update(a, b); }
static const std::vector<V> kCls = {{1, 2}, {7, 1}, {2}, {1, 2, 7}, {22, 1, 0}};
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  m.family("frames", "all frames of up to 3 (thorough 4) points over 5 true x 5 predicted classes, 5 evaluated class lists", [=](mc::Ctx& c) {
    const V& cls = c.pick(kCls); const int n = c.choose(th ? 5 : 4); V pd, gt; static const V vals = {0, 1, 2, 7, 22}; for (int i = 0; i < n; ++i) { gt.push_back(c.pick(vals)); pd.push_back(c.pick(vals)); }
    if (!c.go()) return;
    SegmentationMetricsConfig cf; for (int x : cls) cf.add_segmentation_types((Segmentation::Type)x);
    SegmentationMetricsIOU s(cf); Model md{cls, {}}; md.Add(pd, gt);
    const Status st = Up(&s, pd, gt); c.step(2); const std::string d = Check(s.ComputeIOU(), cls, IU(md));
    if (!st.ok()) c.fail("rejected", "well-formed frame rejected"); else if (!d.empty()) c.fail("count", d + " for truth " + mc::Str(gt) + " prediction " + mc::Str(pd) + " classes " + mc::Str(cls));
    c.state(mc::Str(gt) + mc::Str(pd) + mc::Str(cls)); c.outcome("points " + std::to_string(n)); c.sample([&] { return "truth " + mc::Str(gt) + " prediction " + mc::Str(pd); });
  });
  // histories over two accumulators
  static const std::vector<std::pair<V, V>> frames = {{{1, 1, 2}, {1, 2, 2}}, {{0, 1}, {1, 0}}, {{7}, {2}}, {{}, {}}, {{2, 7, 1, 1}, {7, 7, 1, 0}}};   // (prediction, truth)
  static const std::vector<std::pair<V, V>> bad = {{{1, 2}, {1}}, {{}, {2}}, {{1, 1, 1, 1}, {1, 1}}};
  m.family("histories", "all sequences of 5 (thorough 6) operations (update with 5 frames, malformed updates, reset, compute, snapshot) on an accumulator, followed by a merge of all snapshots", [=](mc::Ctx& c) {
    static const std::vector<V> two = {{1, 2}, {7, 2, 1}}; const V& cls = c.pick(two); V ops; const int n = th ? 6 : 5; for (int i = 0; i < n; ++i) ops.push_back(c.choose(9));
    if (!c.go()) return;
    SegmentationMetricsConfig cf; for (int x : cls) cf.add_segmentation_types((Segmentation::Type)x);
    SegmentationMetricsIOU s(cf); Model md{cls, {}}; std::vector<SegmentationMeasurements> snaps; std::vector<std::pair<long, long>> tot(cls.size());
    auto where = [&](int i) { return " after operation " + std::to_string(i) + " of " + mc::Str(ops) + " (0-4 frame, 5 malformed, 6 reset, 7 compute, 8 snapshot) classes " + mc::Str(cls); };
    for (int i = 0; i < n; ++i) {
      const int o = ops[i]; c.step();
      if (o < 5) { if (!Up(&s, frames[o].first, frames[o].second).ok()) return c.fail("rejected", "well-formed frame rejected" + where(i)); md.Add(frames[o].first, frames[o].second); }
      else if (o == 5) { if (Up(&s, bad[i % 3].first, bad[i % 3].second).ok()) return c.fail("accepted", "frame with different lengths accepted" + where(i)); }
      else if (o == 6) { s.Reset(); md.n.clear(); }
      else { const auto r = s.ComputeIOU(); const std::string d = Check(r, cls, IU(md)); if (!d.empty()) return c.fail("history", d + where(i)); if (o == 8) { snaps.push_back(r.segmentation_measurements()); const auto iu = IU(md); for (size_t q = 0; q < cls.size(); ++q) { tot[q].first += iu[q].first; tot[q].second += iu[q].second; } } }
      c.state(mc::Mix(mc::HashStr(mc::Str(cls)), mc::HashStr([&] { std::string t; for (auto& [k, v] : md.n) t += std::to_string(k.first * 100 + k.second) + ":" + std::to_string(v) + " "; return t; }()) + snaps.size()));
    }
    std::string d = Check(s.MergeResults(snaps), cls, tot); if (!d.empty()) return c.fail("merge", "merge of the snapshots: " + d + where(n));
    std::reverse(snaps.begin(), snaps.end()); d = Check(s.MergeResults(snaps), cls, tot); if (!d.empty()) return c.fail("merge", "merge in reverse order: " + d + where(n));
    d = Check(s.ComputeIOU(), cls, IU(md)); if (!d.empty()) return c.fail("history", "after a merge: " + d + where(n)); c.step(3);
    c.outcome("snapshots " + std::to_string(snaps.size()));
  });
  m.family("long runs", "frames of up to 300000 points and up to 400 frames: every pair of periodic patterns (true and predicted class sequences of period 3 over 4 classes), all 23 classes evaluated in one configuration", [=](mc::Ctx& c) {
    static const V vals = {0, 1, 7, 22}; V g, p; for (int i = 0; i < 3; ++i) { g.push_back(c.pick(vals)); p.push_back(c.pick(vals)); } static const int S[3][2] = {{300000, 1}, {70000, 4}, {31, 400}}; const int sz = c.choose(3), all = c.choose(2); if (sz < 2 && !th && ((g[0] + g[1] + g[2] + p[0] + p[1] + p[2]) % 3)) return;
    if (!c.go()) return;
    V cls = {1, 22, 7}; if (all) { cls.clear(); for (int i = 22; i >= 0; --i) cls.push_back(i); }
    SegmentationMetricsConfig cf; for (int x : cls) cf.add_segmentation_types((Segmentation::Type)x);
    SegmentationMetricsIOU s(cf); Model md{cls, {}}; V pd, gt; for (int i = 0; i < S[sz][0]; ++i) { gt.push_back(g[i % 3]); pd.push_back(p[i % 3]); }
    for (int f = 0; f < S[sz][1]; ++f) { if (!Up(&s, pd, gt).ok()) return c.fail("rejected", "well-formed frame rejected"); md.Add(pd, gt); } c.step(S[sz][1]);
    const auto r = s.ComputeIOU(); std::string d = Check(r, cls, IU(md)); const std::string w = " for " + std::to_string(S[sz][1]) + " frames of " + std::to_string(S[sz][0]) + " points, truth " + mc::Str(g) + " prediction " + mc::Str(p);
    if (!d.empty()) return c.fail("count", d + w);
    SegmentationMetricsIOU s2(cf); auto iu = IU(md); std::vector<SegmentationMeasurements> v(300, r.segmentation_measurements()); for (auto& x : iu) { x.first *= 300; x.second *= 300; } d = Check(s2.MergeResults(v), cls, iu); if (!d.empty()) return c.fail("merge", "300 times merged: " + d + w);
    c.state(w); c.outcome(std::to_string(S[sz][1])); c.sample([&] { return w; });
  });
  m.family("large merges", "all merges of 1-3 measurements with counts from 0 to 2^40", [=](mc::Ctx& c) {
    const V cls = {1, 9}; const int n = c.choose(3) + 1; std::vector<SegmentationMeasurements> v; std::vector<std::pair<long, long>> tot(2); std::string w;
    static const std::vector<long> big = {0, 3, 2147483647L, 2147483648L, 4294967299L, 1099511627776L};
    for (int i = 0; i < n; ++i) { SegmentationMeasurements x; for (int q = 0; q < 2; ++q) { const long b = c.pick(big); const long a = (q + i) % 2 ? b : b / 3; x.add_intersections(a); x.add_unions(b); tot[q].first += a; tot[q].second += b; w += " " + std::to_string(a) + "/" + std::to_string(b); } v.push_back(x); }
    if (!c.go()) return;
    SegmentationMetricsConfig cf; for (int x : cls) cf.add_segmentation_types((Segmentation::Type)x);
    SegmentationMetricsIOU s(cf); const std::string d = Check(s.MergeResults(v), cls, tot); c.step();
    if (!d.empty()) c.fail("large-merge", d + " for the merge of" + w);
    c.state(w); c.outcome("n" + std::to_string(n)); c.sample([&] { return w; });
  });
  return m.run();
}
