// C11: tracking metrics over scenes: subsets, aggregation, operating point, cutoffs.
#include "bdref.h"
#include "matchref.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
using V = std::vector<int>;
using TM = std::vector<TrackingMeasurements>;
struct D { O o; int diff = 1; bool nlz = false; std::string id; };
struct FrameR { std::vector<D> pd, gt; };
using Scene = std::vector<FrameR>;
struct Tot { int miss = 0, fp = 0, mm = 0, match = 0, gt = 0; double cost = 0; int details = 0; std::vector<std::string> det; };
static Object MkD(const D& d) {
  Object r = Mk(d.o); r.mutable_object()->set_id(d.id); r.mutable_object()->mutable_box()->set_heading(0);
  r.mutable_object()->set_tracking_difficulty_level((Label::DifficultyLevel)d.diff); r.mutable_object()->set_detection_difficulty_level((Label::DifficultyLevel)(3 - d.diff));
  if (d.nlz) r.set_overlap_with_nlz(true);
  return r;
}
static double IoU(const O& a, const O& b) {   // axis-aligned boxes of one size
  if (a.type != b.type) return 0;
  double ix = std::max(0.0, a.l - std::fabs(a.x - b.x)), iy = std::max(0.0, a.w - std::fabs(a.y - b.y)); return ix * iy / (2 * a.l * a.w - ix * iy);
}
// reference evaluation of one scene in one shard
static Tot RefMot(const Scene& sc, int id, int shard, int level, double cut, bool details) {
  Tot t; std::map<std::string, std::string> mem;
  for (auto& f : sc) {
    std::vector<const D*> ps, gs; std::map<std::string, std::string> match; std::set<std::string> here, used;
    std::vector<const D*> pu, gu;
    for (auto& p : f.pd) if (RShard(id, p.o) == shard && p.o.score >= cut) ps.push_back(&p);
    for (auto& g : f.gt) if (RShard(id, g.o) == shard) { gs.push_back(&g); here.insert(g.id); }
    for (auto* g : gs) for (auto* p : ps) if (mem.count(g->id) && mem[g->id] == p->id && IoU(p->o, g->o) >= .5) { match[g->id] = p->id; used.insert(p->id); t.cost += 1 - IoU(p->o, g->o); }
    for (auto* p : ps) if (!used.count(p->id)) pu.push_back(p);
    for (auto* g : gs) if (!match.count(g->id)) gu.push_back(g);
    MatchRef mr{(int)pu.size(), (int)gu.size(), [&](int i, int j) { return IoU(pu[i]->o, gu[j]->o) >= .5; }, [&](int i, int j) { return IoU(pu[i]->o, gu[j]->o); }, [&](int i) { return pu[i]->o.score; }};
    auto o = mr.Outcomes(true)[0];
    for (size_t i = 0; i < pu.size(); ++i) if (o[i] >= 0) { match[gu[o[i]]->id] = pu[i]->id; used.insert(pu[i]->id); t.cost += 1 - IoU(pu[i]->o, gu[o[i]]->o); }
    std::string d = "tp"; std::set<std::string> fn, fp;
    for (auto& kv : match) {
      ++t.match; ++t.gt; d += " " + kv.first + "-" + kv.second;
      if (mem.count(kv.first) && mem[kv.first] != kv.second) ++t.mm;
      for (auto& q : mem) if (q.first != kv.first && q.second == kv.second && !here.count(q.first)) ++t.mm;
    }
    for (auto* g : gs) if (!match.count(g->id) && g->diff <= level) { ++t.miss; ++t.gt; fn.insert(g->id); }
    for (auto* p : ps) if (!used.count(p->id) && !p->nlz) { ++t.fp; fp.insert(p->id); }
    for (auto& kv : match) for (auto it = mem.begin(); it != mem.end();) { if (it->second == kv.second) it = mem.erase(it); else ++it; }
    for (auto& kv : match) mem[kv.first] = kv.second;
    d += " fn"; for (auto& x : fn) d += " " + x; d += " fp"; for (auto& x : fp) d += " " + x; t.det.push_back(d);
  }
  if (!details) t.det.clear();
  return t;
}
static std::vector<std::string> Det(const TrackingMeasurement& m) {
  std::vector<std::string> r;
  for (auto& x : m.details()) {
    std::map<std::string, std::string> tp; std::set<std::string> fn(x.fn_gt_ids().begin(), x.fn_gt_ids().end()), fp(x.fp_pred_ids().begin(), x.fp_pred_ids().end());
    for (int i = 0; i < std::min(x.tp_gt_ids_size(), x.tp_pred_ids_size()); ++i) tp[x.tp_gt_ids(i)] = x.tp_pred_ids(i);
    std::string d = "tp"; for (auto& kv : tp) d += " " + kv.first + "-" + kv.second; d += " fn"; for (auto& v : fn) d += " " + v; d += " fp"; for (auto& v : fp) d += " " + v; r.push_back(d);
  }
  return r;
}
static std::string ShowT(const Tot& t) { std::ostringstream s; s << "misses " << t.miss << " fps " << t.fp << " mismatches " << t.mm << " matches " << t.match << " gts " << t.gt << " cost " << t.cost; for (auto& d : t.det) s << " [" << d << "]"; return s.str(); }
static Tot Conv(const TrackingMeasurement& m) { Tot t; t.miss = m.num_misses(); t.fp = m.num_fps(); t.mm = m.num_mismatches(); t.match = m.num_matches(); t.gt = m.num_objects_gt(); t.cost = m.matching_cost(); t.det = Det(m); return t; }
static bool Eq(const Tot& a, const Tot& b, bool ordered = true) { auto x = a.det, y = b.det; if (!ordered) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); } return a.miss == b.miss && a.fp == b.fp && a.mm == b.mm && a.match == b.match && a.gt == b.gt && std::fabs(a.cost - b.cost) < 1e-4 && x == y; }
static void Add(Tot* a, const Tot& b) { a->miss += b.miss; a->fp += b.fp; a->mm += b.mm; a->match += b.match; a->gt += b.gt; a->cost += b.cost; a->det.insert(a->det.end(), b.det.begin(), b.det.end()); }
static void CheckPoint(mc::Ctx& c, const std::vector<Tot>& v, const std::vector<double>& cuts, const TrackingMetrics& g, const std::string& ds) {
  std::vector<double> mota; double best = -1e30; int ngt = -1; bool same = true;
  for (auto& t : v) { if (t.gt == 0) { mota.push_back(-1e30); continue; } if (ngt < 0) ngt = t.gt; same &= ngt == t.gt; mota.push_back(1 - double(t.miss + t.fp + t.mm) / t.gt); best = std::max(best, mota.back()); }
  if (g.measurements().measurements_size() != (int)v.size()) { c.fail("measurements", ds); return; }
  if (same && ngt >= 0 && g.num_objects_gt() != ngt) c.fail("ground-truths", ds + " got " + std::to_string(g.num_objects_gt()));
  auto show = [&] { std::ostringstream s; s << ds << " got mota " << g.mota() << " motp " << g.motp() << " miss " << g.miss() << " mismatch " << g.mismatch() << " fp " << g.fp() << " cutoff " << g.score_cutoff() << "; best mota " << best << "; per cutoff: "; for (auto& t : v) s << "(" << ShowT(t) << ") "; return s.str(); };
  bool ok = false;
  if (best < 2e-6) ok = g.mota() < 2e-6 && g.motp() == 0 && g.miss() == 0 && g.fp() == 0 && g.mismatch() == 0 && !g.has_score_cutoff();
  if (best > -2e-6) for (size_t i = 0; i < v.size() && !ok; ++i) {
    if (mota[i] < best - 2e-6) continue;
    bool dup = false; for (size_t k = 0; k < i; ++k) dup |= v[k].miss == v[i].miss && v[k].fp == v[i].fp && v[k].mm == v[i].mm && v[k].gt == v[i].gt;
    if (dup) continue;
    const Tot& t = v[i]; auto near = [](double a, double b) { return std::fabs(a - b) < 1e-5; };
    ok = near(g.mota(), mota[i]) && near(g.motp(), t.match ? t.cost / t.match : 0) && near(g.miss(), double(t.miss) / t.gt) && near(g.fp(), double(t.fp) / t.gt) && near(g.mismatch(), double(t.mm) / t.gt) && near(g.score_cutoff(), cuts[i]);
  }
  if (!ok) c.fail("operating-point", show());
}
static Config Cfg(const V& gens, const std::vector<V>& lv, const std::vector<double>& cuts, bool details) {
  Config c; for (size_t i = 0; i < gens.size(); ++i) { c.add_breakdown_generator_ids((Breakdown::GeneratorId)gens[i]); auto* d = c.add_difficulties(); for (int l : lv[i]) d->add_levels((Label::DifficultyLevel)l); }
  for (double x : cuts) c.add_score_cutoffs(x);
  for (int i = 0; i < 5; ++i) c.add_iou_thresholds(.5);
  c.set_matcher_type(MatcherProto::TYPE_HUNGARIAN); c.set_box_type(Label::Box::TYPE_2D); if (details) c.set_include_details_in_measurements(true);
  return c;
}
static void ToObj(const Scene& s, std::vector<std::vector<Object>>* pd, std::vector<std::vector<Object>>* gt) { for (auto& f : s) { pd->emplace_back(); gt->emplace_back(); for (auto& d : f.pd) pd->back().push_back(MkD(d)); for (auto& d : f.gt) gt->back().push_back(MkD(d)); } }
// reference of everything: [breakdown entry][cutoff]
struct Entry { int id, shard, level; std::vector<Tot> t; };
static std::vector<Entry> RefAll(const std::vector<Scene>& scs, const V& gens, const std::vector<V>& lv, const std::vector<double>& cuts, bool details) {
  std::vector<Entry> r;
  for (size_t i = 0; i < gens.size(); ++i) for (size_t s = 0; s < RefNames(gens[i]).size(); ++s) for (int l : lv[i].empty() ? V{2} : lv[i]) { Entry e{gens[i], (int)s, l}; for (double q : cuts) { Tot t; for (auto& sc : scs) Add(&t, RefMot(sc, gens[i], s, l, q, details)); e.t.push_back(t); } r.push_back(e); }
  return r;
}
static bool CheckAll(mc::Ctx& c, const TM& got, const std::vector<Entry>& want, const std::vector<double>& cuts, const std::string& ds, bool ordered = true) {
  if (got.size() != want.size()) { c.fail("layout", ds + ": " + std::to_string(got.size()) + " outputs"); return false; }
  for (size_t i = 0; i < got.size(); ++i) {
    const auto& b = got[i].breakdown();
    if (b.generator_id() != want[i].id || b.shard() != want[i].shard || b.difficulty_level() != want[i].level || got[i].measurements_size() != (int)cuts.size()) { c.fail("layout", ds + " output " + std::to_string(i)); return false; }
    for (size_t q = 0; q < cuts.size(); ++q) {
      Tot g = Conv(got[i].measurements(q));
      if (!Eq(g, want[i].t[q], ordered) || std::fabs(got[i].measurements(q).score_cutoff() - cuts[q]) > 1e-6) { c.fail("counts", ds + " " + RefNames(want[i].id)[want[i].shard] + " level " + std::to_string(want[i].level) + " cutoff " + std::to_string(cuts[q]) + " got " + ShowT(g) + " want " + ShowT(want[i].t[q])); return false; }
    }
  }
  return true;
}
static std::string ShowS(const Scene& s) { std::ostringstream o; for (auto& f : s) { o << "{"; for (auto& g : f.gt) o << g.id << ":type" << g.o.type << "@" << g.o.x << "," << g.o.y << " v" << g.o.vx << " d" << g.diff << " "; o << "|"; for (auto& p : f.pd) o << " " << p.id << ":type" << p.o.type << "@" << p.o.x << "," << p.o.y << " s" << p.o.score << (p.o.has_v ? " v" + std::to_string(p.o.vx) : "") << (p.nlz ? " nlz" : ""); o << "} "; } return o.str(); }
// ground truth j: 0 absent, 1 near and slow, 2 far and fast.
static D Gt(int j, int st, int type, int diff) { D d; d.o = Base(type); d.o.x = st == 2 ? 40 : 10; d.o.y = 10 * j; d.o.vx = st == 2 ? 5 : .05; d.id = "gS4P9aeq8kK0kBvmp0QCCw_100508g" + std::to_string(j); d.diff = diff; return d; }
// track i placed on ground truth (st 1, 2), or away from everything (3)
static D Pd(int i, int st, const int* gst, int type, double score) { D d; d.o = Base(type); d.o.x = st == 3 ? 10 : gst[st - 1] == 2 ? 40 : 10; d.o.y = st == 3 ? 100 + 20 * i : 10 * (st - 1); d.o.x += .75 * i; d.o.vx = st != 3 && gst[st - 1] == 2 ? 5 : .05; d.o.score = score; d.id = "gS4P9aeq8kK0kBvmp0QCCw_100508p" + std::to_string(i); return d; }
// speed taken over from the nearest ground truth when predictions carry none
static void Estimate(Scene* s) { for (auto& f : *s) for (auto& p : f.pd) { double best = 1e30; p.o.vx = p.o.vy = 0; for (auto& g : f.gt) { double d = std::hypot(p.o.x - g.o.x, p.o.y - g.o.y); if (d < best) { best = d; p.o.vx = g.o.vx; p.o.vy = g.o.vy; } } p.o.has_v = true; } }
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  const V G4 = {Breakdown::ONE_SHARD, Breakdown::OBJECT_TYPE, Breakdown::RANGE, Breakdown::VELOCITY};
  const std::vector<V> L4 = {{1, 2}, {2}, {}, {1, 2}};
  auto run = [=](mc::Ctx& c, const Scene& sc, const std::vector<double>& cuts, bool details, bool speeds) {
    Scene shown = sc; if (!speeds) for (auto& f : shown) for (auto& p : f.pd) p.o.has_v = false;
    Scene ref = sc; if (!speeds) Estimate(&ref);
    std::vector<std::vector<Object>> pd, gt; ToObj(shown, &pd, &gt);
    Config cfg = Cfg(G4, L4, cuts, details); std::string ds = ShowS(shown);
    auto want = RefAll({ref}, G4, L4, cuts, details);
    TM got = ComputeTrackingMeasurements(cfg, pd, gt); c.step();
    if (!CheckAll(c, got, want, cuts, ds)) return;
    auto mt = ComputeTrackingMetrics(cfg, std::vector<TM>{got}); c.step();
    if (mt.size() != want.size()) { c.fail("layout", ds); return; }
    for (size_t i = 0; i < mt.size(); ++i) { CheckPoint(c, want[i].t, cuts, mt[i], ds); if (mt[i].breakdown().SerializeAsString() != got[i].breakdown().SerializeAsString()) c.fail("layout", ds + " metric breakdown"); }
    c.outcome("mismatches " + std::to_string(want[1].t[0].mm) + " misses " + std::to_string(want[1].t[0].miss)); c.state(mc::HashStr(ds)); c.sample([&] { return ds; });
  };
  m.family("scenes of 2 frames", "2 ground truths (absent, near and slow, far and fast) x 2 tracks (absent, on either ground truth, elsewhere) in each of 2 frames; per-frame scores, levels, no-label-zone; breakdowns by type, range and velocity with own or estimated speeds", [=](mc::Ctx& c) {
    int st[2][4]; for (auto& s : st) { s[0] = c.choose(3); s[1] = c.choose(3); s[2] = c.choose(4); s[3] = c.choose(4); }
    int var = c.choose(th ? 4 : 2); if (!c.go()) return;
    Scene sc; for (int f = 0; f < 2; ++f) { FrameR fr; for (int j = 0; j < 2; ++j) if (st[f][j]) fr.gt.push_back(Gt(j, st[f][j], 1, 1 + j)); for (int i = 0; i < 2; ++i) if (st[f][2 + i]) { D d = Pd(i, st[f][2 + i], st[f], 1, i ? .6 : f ? .3 : .9); d.nlz = i && (var & 2); fr.pd.push_back(d); } sc.push_back(fr); }
    run(c, sc, {0, .5, .8}, true, var & 1);
  });
  m.family("scenes of 3 frames", "2 ground truths (absent/present) x 2 tracks (absent, on either, elsewhere) in 3 frames, cutoffs {0,.5}, types differing in the last frame, predictions listed in reverse in the second frame", [=](mc::Ctx& c) {
    int st[3][4]; for (auto& s : st) { s[0] = c.choose(2); s[1] = c.choose(2); s[2] = c.choose(4); s[3] = c.choose(th ? 4 : 3); }
    if (!c.go()) return;
    Scene sc; for (int f = 0; f < 3; ++f) { FrameR fr; for (int j = 0; j < 2; ++j) if (st[f][j]) fr.gt.push_back(Gt(j, 1, 1, 2 - j)); for (int i = 0; i < 2; ++i) if (st[f][2 + i]) fr.pd.push_back(Pd(i, st[f][2 + i], st[f], 1, i ? .6 : .4)); if (f == 1) std::reverse(fr.pd.begin(), fr.pd.end()); sc.push_back(fr); }
    run(c, sc, {0, .5}, false, true);
  });
  m.family("speed estimation", "scenes of 1-3 frames, some without predictions (also the first): predictions without speed take the speed of the nearest ground truth", [=](mc::Ctx& c) {
    int n = 1 + c.choose(3); Scene sc; for (int f = 0; f < n; ++f) { FrameR fr; int k = c.choose(5), a = c.choose(4); if (a & 1) fr.gt.push_back(Gt(0, 1, 1, 1)); if (a & 2) fr.gt.push_back(Gt(1, 2, 1, 1)); int g[2] = {1, 2}; if (k & 1) fr.pd.push_back(Pd(0, 1, g, 1, .9)); if (k & 2) fr.pd.push_back(Pd(1, 2, g, 1, .9)); if (k == 4) fr.pd.push_back(Pd(0, 2, g, 1, .9)); sc.push_back(fr); }
    if (!c.go()) return;
    run(c, sc, {0}, true, false);
  });
  m.family("scene grouping", "every list of 0..4 scenes out of 6 scene kinds sharing object ids: from objects, from per-scene measurements, every order; details on/off", [=](mc::Ctx& c) {
    int n = c.choose(5); V ks; for (int i = 0; i < n; ++i) ks.push_back(c.choose(n == 4 && !th ? 4 : 6)); bool det = c.flip();
    if (!c.go()) return;
    const std::vector<double> cuts = {0, .5}; Config cfg = Cfg(G4, L4, cuts, det); std::vector<Scene> scs; std::vector<std::vector<std::vector<Object>>> pd, gt; std::vector<TM> ms;
    for (int k : ks) {
      Scene s; int g[2] = {1, 1};
      auto fr = [&](std::vector<int> on) { FrameR f; f.gt = {Gt(0, 1, 1, 1), Gt(1, 1, 1, 2)}; for (size_t i = 0; i < on.size(); ++i) if (on[i]) f.pd.push_back(Pd(i, on[i], g, 1, i ? .6 : .3)); s.push_back(f); };
      if (k == 0) fr({1, 2}); if (k == 1) { fr({2, 1}); fr({2, 1}); } if (k == 2) { fr({1, 2}); fr({2, 1}); } if (k == 3) fr({0, 3}); if (k == 5) { s.push_back(FrameR()); fr({3, 2}); }
      scs.push_back(s); pd.emplace_back(); gt.emplace_back(); ToObj(s, &pd.back(), &gt.back()); ms.push_back(ComputeTrackingMeasurements(cfg, pd.back(), gt.back())); c.step();
    }
    std::string ds = "scene kinds " + mc::Str(ks);
    auto want = RefAll(scs, G4, L4, cuts, det);
    bool none = true; for (auto& s : scs) none &= s.empty(); if (none) want.clear();   // nothing evaluated
    auto judge = [&](const std::vector<TrackingMetrics>& g, bool ordered, const std::string& how) { TM t; for (auto& x : g) t.push_back(x.measurements()); if (!CheckAll(c, t, want, cuts, ds + " " + how, ordered)) return; for (size_t i = 0; i < g.size(); ++i) CheckPoint(c, want[i].t, cuts, g[i], ds + " " + how); };
    judge(ComputeTrackingMetrics(cfg, pd, gt), true, "from objects"); judge(ComputeTrackingMetrics(cfg, ms), true, "from measurements"); c.step(2);
    V p(n); for (int i = 0; i < n; ++i) p[i] = i;
    while (std::next_permutation(p.begin(), p.end())) { std::vector<TM> q; for (int i : p) q.push_back(ms[i]); judge(ComputeTrackingMetrics(cfg, q), false, "order " + mc::Str(p)); c.step(); }
    c.state(mc::HashStr(ds)); c.sample([&] { return ds; });
  });
  m.family("crowds and long scenes", "scenes of n groups of 2 ground truths and 2 tracks (n in {5,20}) over f frames (f in {3,12}; also 1 group over 150 frames) and runs of 1 or 25 such scenes: per group every periodic pattern of 3 of 7 frame kinds (steady, swapped, lost, hidden, elsewhere, one only, empty), neighbouring groups shifted; all counts are sums over groups and scenes", [=](mc::Ctx& c) {
    static const int S[4][3] = {{5, 3, 1}, {20, 12, 1}, {1, 150, 1}, {2, 3, 25}}; const int sz = c.choose(4), k0 = c.choose(7), k1 = c.choose(7), k2 = c.choose(sz == 1 && !th ? 2 : 7); const bool rev = c.flip();
    if (!c.go()) return;
    const int n = S[sz][0], nf = S[sz][1], ns = S[sz][2]; const std::vector<double> cuts = {0, .5}; Config cfg = Cfg(G4, L4, cuts, false); std::string ds = std::to_string(ns) + " scenes of " + std::to_string(n) + " groups over " + std::to_string(nf) + " frames of kinds " + mc::Str(V{k0, k1, k2}) + (rev ? " reversed" : "");
    std::vector<Entry> want; std::vector<std::vector<std::vector<Object>>> pd, gt; std::vector<TM> ms;
    for (int s = 0; s < ns; ++s) {
      Scene all(nf);
      for (int g = 0; g < n; ++g) {
        Scene one;
        for (int f = 0; f < nf; ++f) {
          const int z = (f + g + s) % 3, k = z == 0 ? k0 : z == 1 ? k1 : k2; static const int kind[7][4] = {{1, 1, 1, 2}, {1, 1, 2, 1}, {1, 1, 1, 0}, {1, 0, 1, 0}, {1, 2, 1, 3}, {0, 1, 0, 2}, {0, 0, 0, 0}}; const int* t = kind[k];
          FrameR fr; for (int j = 0; j < 2; ++j) if (t[j]) fr.gt.push_back(Gt(j, t[j], 1 + g % 2, 1 + j)); for (int i = 0; i < 2; ++i) if (t[2 + i]) fr.pd.push_back(Pd(i, t[2 + i], t, 1 + g % 2, i ? .6 : .3 + .001 * g));
          for (auto* v : {&fr.gt, &fr.pd}) for (auto& d : *v) { d.o.y += 1000 * g; d.id += "." + std::to_string(g); }
          one.push_back(fr);
          auto& o = all[f]; o.gt.insert(o.gt.end(), fr.gt.begin(), fr.gt.end()); o.pd.insert(o.pd.end(), fr.pd.begin(), fr.pd.end());
        }
        auto r = RefAll({one}, G4, L4, cuts, false); if (want.empty()) want = r; else for (size_t i = 0; i < r.size(); ++i) for (size_t q = 0; q < cuts.size(); ++q) Add(&want[i].t[q], r[i].t[q]);
      }
      if (rev) for (auto& f : all) std::reverse(f.pd.begin(), f.pd.end());
      pd.emplace_back(); gt.emplace_back(); ToObj(all, &pd.back(), &gt.back()); ms.push_back(ComputeTrackingMeasurements(cfg, pd.back(), gt.back())); c.step(nf);
    }
    if (ns == 1 && !CheckAll(c, ms[0], want, cuts, ds)) return;
    auto judge = [&](const std::vector<TrackingMetrics>& g, const std::string& how) { TM t; for (auto& x : g) t.push_back(x.measurements()); if (!CheckAll(c, t, want, cuts, ds + " " + how)) return; for (size_t i = 0; i < g.size(); ++i) CheckPoint(c, want[i].t, cuts, g[i], ds + " " + how); };
    judge(ComputeTrackingMetrics(cfg, pd, gt), "from objects"); judge(ComputeTrackingMetrics(cfg, ms), "from measurements");
    c.state(mc::HashStr(ds)); c.outcome("size " + std::to_string(sz) + " mismatches " + std::to_string(std::min(want[1].t[0].mm, 9))); c.sample([&] { return ds; });
  });
  m.family("operating point", "every pair and triple of per-cutoff counts (misses, false positives, switches, matches, extra costs) incl. ties, no ground truth, negative MOTA", [=](mc::Ctx& c) {
    int n = 1 + c.choose(3); std::vector<Tot> v; for (int i = 0; i < n; ++i) { Tot t; int mx = n == 3 ? 2 : 3; t.match = c.choose(n == 3 ? 3 : 4); t.miss = c.choose(mx); t.fp = c.choose(mx); t.mm = n == 3 && !th ? (t.fp && t.miss) : c.choose(mx); if (t.mm > t.match) t.mm = t.match; t.gt = t.match + t.miss; t.cost = t.match * .125 * (1 + i); v.push_back(t); }
    if (!c.go()) return;
    TrackingMeasurements x; x.mutable_breakdown()->set_generator_id(Breakdown::ONE_SHARD); x.mutable_breakdown()->set_shard(0); x.mutable_breakdown()->set_difficulty_level(Label::LEVEL_2); std::vector<double> cuts; std::string ds;
    for (int i = 0; i < n; ++i) { cuts.push_back(.25 * i + .125); auto* q = x.add_measurements(); q->set_num_misses(v[i].miss); q->set_num_fps(v[i].fp); q->set_num_mismatches(v[i].mm); q->set_num_matches(v[i].match); q->set_num_objects_gt(v[i].gt); q->set_matching_cost(v[i].cost); q->set_score_cutoff(cuts[i]); ds += "(" + ShowT(v[i]) + ") "; }
    auto g = ComputeTrackingMetrics(Cfg({Breakdown::ONE_SHARD}, {{2}}, cuts, false), std::vector<TM>{{x}}); c.step();
    if (g.size() != 1) { c.fail("layout", ds); return; }
    CheckPoint(c, v, cuts, g[0], ds);
    c.outcome(g[0].has_score_cutoff() ? "cutoff " + std::to_string(g[0].score_cutoff()) : "none positive"); c.state(mc::HashStr(ds)); c.sample([&] { return ds; });
  });
  m.family("cutoffs", "every distribution of 0..6 predictions with 4 score values over up to 2 scenes x 3 frames, 2..5 desired cutoffs, ground truth in every frame, only in first frames or nowhere, types equal or mixed, some predictions in no-label zones: cutoffs come from exactly these scores", [=](mc::Ctx& c) {
    int ns = 1 + c.choose(2), nd = 2 + c.choose(th ? 4 : 3), tot = 0; const int truth = c.choose(3), kind = c.choose(3); static const double S[4] = {.1, .4, .4, .8}; std::vector<std::vector<std::vector<Object>>> pd(ns), gt(ns); std::vector<double> s; std::string ds;
    for (int a = 0; a < ns; ++a) { int nf = 1 + c.choose(ns == 1 ? 3 : 2); pd[a].resize(nf); gt[a].resize(nf); for (int f = 0; f < nf; ++f) { int k = c.choose(4); ds += std::to_string(k) + (f + 1 < nf ? "," : ";"); for (int i = 0; i < k; ++i) { D d = Gt(i, 1, 1, 1); d.o.score = S[(a * 7 + f * 3 + i + tot) % 4] + .01 * f; d.id = "gS4P9aeq8kK0kBvmp0QCCw_100508p" + std::to_string(i); s.push_back(d.o.score); pd[a][f].push_back(MkD(d)); } tot += k; if (truth == 0 || (truth == 1 && f == 0)) gt[a][f].push_back(MkD(Gt(0, 1, 1, 1))); } }
    for (auto& sc : pd) for (auto& fr : sc) for (size_t i = 0; i < fr.size(); ++i) { if (kind == 1) fr[i].mutable_object()->set_type(Label::Type(1 + (i + fr.size()) % 4 )); if (kind == 2 && i % 2) fr[i].set_overlap_with_nlz(true); }
    ds += std::string(" truths ") + (truth == 0 ? "in every frame" : truth == 1 ? "in first frames only" : "none") + (kind == 1 ? ", mixed types" : kind == 2 ? ", some in no-label zones" : "");
    if (!c.go()) return;
    Config cfg = Cfg({Breakdown::ONE_SHARD}, {{2}}, {}, false); cfg.set_num_desired_score_cutoffs(nd);
    Config e = EstimateScoreCutoffs(cfg, pd, gt); c.step();
    std::sort(s.begin(), s.end()); const int N = s.size(); std::vector<float> g(e.score_cutoffs().begin(), e.score_cutoffs().end()); ds = "predictions per frame " + ds + " desired " + std::to_string(nd) + " got " + mc::Str(g);
    bool ok = (int)g.size() == nd;
    if (ok && nd >= N) { for (int i = 0; i < nd; ++i) ok &= std::fabs(g[i] - double(i) / (nd - 1)) < 1e-4; }
    else if (ok) {
      ok = std::fabs(g[0] - s[0]) < 1e-6 && std::fabs(g[nd - 1] - 1) < 1e-6; std::set<int> at = {0}; const int B = nd - 1, lo = N / B, hi = lo + (N % B != 0);
      for (int i = 1; i < B && ok; ++i) { std::set<int> nx; for (int a : at) for (int z = lo; z <= hi; ++z) if (a + z < N && std::fabs(s[a + z] - g[i]) < 1e-6) nx.insert(a + z); at = nx; ok = !at.empty(); }
      if (ok) { bool fit = false; for (int a : at) fit |= N - a >= lo && N - a <= hi; ok = fit; }
    }
    if (!ok) c.fail("cutoffs", ds);
    auto mt = ComputeTrackingMetrics(cfg, pd, gt); c.step();
    if (mt.size() != 1 || mt[0].measurements().measurements_size() != (int)g.size()) { c.fail("cutoffs", ds + " not used"); return; }
    for (size_t i = 0; i < g.size(); ++i) { if (std::fabs(mt[0].measurements().measurements(i).score_cutoff() - g[i]) > 1e-6) c.fail("cutoffs", ds + " not used"); int above = 0; for (double x : s) above += float(x) >= g[i]; const auto& q = mt[0].measurements().measurements(i); if (kind == 2 ? q.num_fps() + q.num_matches() > above : q.num_fps() + q.num_matches() != above) c.fail("cutoffs", ds + " predictions above the cutoff"); }
    c.state(mc::HashStr(ds)); c.sample([&] { return ds; });
  });
  return m.run();
}
