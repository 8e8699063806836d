// C07: breakdown shards, subsets, names and the order of metric outputs.
#include "mc.h"
#include "bdref.h"
#include "waymo_open_dataset/metrics/breakdown_generator.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
using namespace waymo::open_dataset;
static uint64_t HO(const std::string& s) { return mc::HashStr(s); }

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  auto check = [](mc::Ctx& c, const O& o) {
    const Object ob = Mk(o);
    for (int id : kGen) {
      auto g = BreakdownGenerator::Create((Breakdown::GeneratorId)id);
      int s = g->Shard(ob), w = RShard(id, o); c.step(4);
      if (s != w) c.fail("shard", Breakdown::GeneratorId_Name(id) + " " + Show(o) + ": shard " + std::to_string(s) + " want " + std::to_string(w));
      auto ms = g->ShardsForMatching(ob), mw = RMatch(id, o); std::sort(ms.begin(), ms.end());
      if (ms != mw) c.fail("matching-shards", Breakdown::GeneratorId_Name(id) + " " + Show(o) + ": " + mc::Str(ms) + " want " + mc::Str(mw));
      for (int sh = 0; sh < (int)RefNames(id).size(); ++sh) { Breakdown b; b.set_generator_id((Breakdown::GeneratorId)id); b.set_shard(sh); if (internal::IsInBreakdown(ob, b) != (w == sh)) c.fail("in-breakdown", Show(o)); }
      Breakdown b; b.set_generator_id((Breakdown::GeneratorId)id);
      if (internal::IsGroundTruthOnlyBreakdown(b) != GtOnly(id) || g->IsGroundTruthOnlyBreakdown() != GtOnly(id) || g->Id() != id) c.fail("generator", Breakdown::GeneratorId_Name(id));
    }
    c.outcome("shards " + std::to_string(RShard(Breakdown::RANGE, o)) + "/" + std::to_string(RShard(Breakdown::VELOCITY, o)) + "/" + std::to_string(RShard(Breakdown::CAMERA, o)));
    c.state(HO(Show(o))); c.sample([&] { return Show(o); });
  };
  m.family("range", "5 types x every grid position around the 30 m and 50 m limits (exact Pythagorean distances incl. the limits themselves), x/y/z permutations and signs", [=](mc::Ctx& c) {
    static const double P[][3] = {{0, 0, 0}, {29.5, 0, 0}, {30, 0, 0}, {30.5, 0, 0}, {18, 24, 0}, {10, 20, 20}, {24, 18, 0.125}, {17.75, 24, 0}, {50, 0, 0}, {30, 40, 0}, {49.5, 0, 0}, {50.5, 0, 0}, {30, 40, 0.5}, {29.875, 40, 0}, {24, 32, 30}, {29, 29, 29}, {200, 0, 0}, {0, 0, 30}, {0, 0, 50}, {16, 24, 8}, {1, 2, 2}};
    int t = c.choose(5), p = c.choose(21), perm = c.choose(3), sg = c.choose(8);
    if (!c.go()) return;
    O o = Base(t); double v[3]; for (int i = 0; i < 3; ++i) v[i] = P[p][(i + perm) % 3] * (sg >> i & 1 ? -1 : 1);
    o.x = v[0]; o.y = v[1]; o.z = v[2]; check(c, o);
  });
  m.family("size and speed", "5 types x sizes 6.875/7/7.125 in each dimension x velocities around every limit, unset speed, both components", [=](mc::Ctx& c) {
    static const double S[4] = {0.5, 6.875, 7, 7.125}, V[12] = {0, 0.125, 0.25, 0.875, 1, 1.125, 2.875, 3, 3.125, 9.875, 10, 30};
    int t = c.choose(5), l = c.choose(4), w = c.choose(4), h = c.choose(4), v = c.choose(13), dir = c.choose(4);
    if (!c.go()) return;
    O o = Base(t); o.l = S[l]; o.w = S[w]; o.h = S[h]; if (v == 12) o.has_v = false; else { double a = V[v]; o.vx = dir == 0 ? a : dir == 1 ? 0 : dir == 2 ? -a * .6 : a * .8; o.vy = dir == 0 ? 0 : dir == 1 ? -a : dir == 2 ? a * .8 : -a * .6; if (dir >= 2 && (v == 4 || v == 7 || v == 10)) o.vx *= 1.001, o.vy *= 1.001; }
    check(c, o);
  });
  m.family("camera", "5 types x 72+ bearings (every 5 degrees and 0.1 degree either side of each cone limit) x image camera (none, all 9 names) x most visible camera (none, all 9 names, invalid, empty)", [=](mc::Ctx& c) {
    int t = c.choose(5), a = c.choose(72 + 20), cam = c.choose(10) - 1, vis = c.choose(12) - 1;
    if (!c.go()) return;
    double deg;
    if (a < 72) deg = -180 + 5 * a + 0.001; else { const double dir[5] = {0, 45, -45, 90, -90}; int k = a - 72; deg = dir[k / 4] + (k & 1 ? 1 : -1) * 25.2 + (k & 2 ? .1 : -.1); }
    O o = Base(t); o.x = 20 * std::cos(deg * M_PI / 180); o.y = 20 * std::sin(deg * M_PI / 180); o.cam2d = cam; o.vis = vis;
    check(c, o);
  });
  auto mkcfg = [](const std::vector<int>& gens, const std::vector<int>& diff, int ncut) {
    Config cfg;
    for (size_t i = 0; i < gens.size(); ++i) { cfg.add_breakdown_generator_ids((Breakdown::GeneratorId)gens[i]); auto* d = cfg.add_difficulties(); if (diff[i] == 1 || diff[i] == 3) d->add_levels(Label::LEVEL_1); if (diff[i] == 2 || diff[i] == 3) d->add_levels(Label::LEVEL_2); if (diff[i] == 4) { d->add_levels(Label::LEVEL_2); d->add_levels(Label::LEVEL_1); } }
    for (int i = 0; i < ncut; ++i) cfg.add_score_cutoffs(i * 0.25);
    for (int i = 0; i < 5; ++i) cfg.add_iou_thresholds(i ? 0.5 : 0);
    cfg.set_box_type(Label::Box::TYPE_3D); cfg.set_matcher_type(MatcherProto::TYPE_HUNGARIAN);
    return cfg;
  };
  auto levels = [](int d) { return d == 0 || d == 2 ? std::vector<int>{2} : d == 1 ? std::vector<int>{1} : d == 3 ? std::vector<int>{1, 2} : std::vector<int>{2, 1}; };
  m.family("names", "every list of 0..3 generators (7) x difficulty lists {none,{1},{2},{1,2},{2,1}}: names, uniqueness, and the breakdown of every detection and tracking output", [=](mc::Ctx& c) {
    int n = c.choose(th ? 4 : 3); std::vector<int> g, d; for (int i = 0; i < n; ++i) { g.push_back(kGen[c.choose(7)]); d.push_back(c.choose(5)); }
    int nc = 1 + c.choose(2);
    if (!c.go()) return;
    Config cfg = mkcfg(g, d, nc);
    std::vector<std::string> want; std::vector<std::array<int, 3>> wb;
    for (int i = 0; i < n; ++i) { auto nm = RefNames(g[i]); for (size_t s = 0; s < nm.size(); ++s) for (int l : levels(d[i])) { want.push_back(nm[s] + "_LEVEL_" + std::to_string(l)); wb.push_back({g[i], (int)s, l}); } }
    auto got = GetBreakdownNamesFromConfig(cfg); c.step(4);
    std::string ds = "generators " + mc::Str(g) + " difficulties " + mc::Str(d);
    if (got != want) c.fail("names", ds + " got " + mc::Str(got));
    std::set<int> gs(g.begin(), g.end());
    if (gs.size() == g.size() && std::set<std::string>(got.begin(), got.end()).size() != got.size()) c.fail("duplicate-name", ds);
    std::vector<std::vector<Object>> frames(1, {Mk(Base(1)), Mk(Base(3))});
    for (auto& o : frames[0]) { o.mutable_object()->set_id("a"); o.mutable_object()->set_detection_difficulty_level(Label::LEVEL_1); o.mutable_object()->set_tracking_difficulty_level(Label::LEVEL_1); }
    frames[0][1].mutable_object()->set_id("b");
    auto dm = ComputeDetectionMetrics(cfg, frames, frames);
    auto tm = ComputeTrackingMetrics(cfg, std::vector<std::vector<std::vector<Object>>>{frames}, {frames});
    auto same = [&](auto& v, const char* what) {
      if (v.size() != wb.size()) { c.fail("output-order", ds + " " + what + " size " + std::to_string(v.size())); return; }
      for (size_t i = 0; i < v.size(); ++i) { const Breakdown& b = v[i].breakdown(); if (b.generator_id() != wb[i][0] || b.shard() != wb[i][1] || b.difficulty_level() != wb[i][2]) { c.fail("output-order", ds + " " + what + " entry " + std::to_string(i)); return; } }
    };
    same(dm, "detection"); same(tm, "tracking");
    for (int i = 0; i < n; ++i) { auto l = internal::GetDifficultyLevels(cfg, i); std::vector<int> li(l.begin(), l.end()); if (li != levels(d[i])) c.fail("difficulty-levels", ds); }
    if (internal::HasVelocityBreakdown(cfg) != (gs.count(Breakdown::VELOCITY) > 0)) c.fail("has-velocity", ds);
    c.state(HO(ds + std::to_string(nc))); c.outcome(std::to_string(want.size()) + " names"); c.sample([&] { return ds; });
  });
  m.family("subsets", "every list of up to 3 objects over 9 kinds x 3 scores x generator pairs (7x7) x cutoff lists x ground truth/prediction x detection/tracking", [=](mc::Ctx& c) {
    int n = c.choose(th ? 4 : 3); std::vector<O> os;
    for (int i = 0; i < n; ++i) {
      int k = c.choose(9); O o = Base(k % 3 + 1); if (k == 8) o.type = 0;
      if (k >= 3 && k < 6) { o.x = 30; o.y = 30; o.vx = 5; o.l = 9; } if (k == 6 || k == 7) { o.x = -60; o.cam2d = k == 7 ? 7 : 2; o.vy = -20; }
      const double S[3] = {0.0, 0.25, 0.75}; o.score = S[c.choose(i == 0 ? 3 : 2)]; os.push_back(o);
    }
    int g1 = c.choose(7), g2 = c.choose(7), nc = c.choose(4);
    if (!c.go()) return;
    std::vector<Object> ob; std::string ds; for (auto& o : os) { ob.push_back(Mk(o)); ds += Show(o) + "; "; }
    Config cfg = mkcfg({kGen[g1], kGen[g2]}, {0, 0}, nc);
    for (int gt = 0; gt < 2; ++gt) for (int det = 0; det < 2; ++det) {
      auto r = internal::BuildSubsets(cfg, ob, gt, det); c.step();
      size_t k = 0; bool bad = false;
      for (int gi = 0; gi < 2; ++gi) { int id = kGen[gi ? g2 : g1];
        for (int s = 0; s < (int)RefNames(id).size(); ++s, ++k) {
          std::vector<int> in; for (int i = 0; i < n; ++i) { bool w; if (det && GtOnly(id)) { auto ms = RMatch(id, os[i]); w = std::count(ms.begin(), ms.end(), s) > 0; } else w = RShard(id, os[i]) == s; if (w) in.push_back(i); }
          if (k >= r.size() || r[k].breakdown_generator_id_index != gi || r[k].breakdown_shard != s || (int)r[k].indices.size() != (gt ? 1 : nc)) { bad = true; break; }
          for (int q = 0; q < (gt ? 1 : nc); ++q) { std::vector<int> w; for (int i : in) if (gt || os[i].score >= q * .25) w.push_back(i); auto got = r[k].indices[q]; std::sort(got.begin(), got.end()); if (got != w) c.fail("subset", ds + " generator " + std::to_string(id) + " shard " + std::to_string(s) + " cutoff " + std::to_string(q) + " gt " + std::to_string(gt) + " det " + std::to_string(det) + " got " + mc::Str(got) + " want " + mc::Str(w)); }
        } }
      if (bad || k != r.size()) c.fail("subset-layout", ds);
    }
    c.state(HO(ds + std::to_string(g1 * 100 + g2 * 10 + nc))); c.sample([&] { return ds; });
  });
  return m.run();
}
