// C08: per-frame detection accounting.
#include "bdref.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
using V = std::vector<int>;

struct D { O o; double heading = 0; int diff = 1; bool nlz = false; std::string id; };
static Object MkD(const D& d) {
  Object r = Mk(d.o);
  r.mutable_object()->mutable_box()->set_heading(d.heading);
  r.mutable_object()->set_id(d.id);
  if (d.diff) { r.mutable_object()->set_detection_difficulty_level((Label::DifficultyLevel)d.diff); r.mutable_object()->set_tracking_difficulty_level((Label::DifficultyLevel)(3 - d.diff)); }
  if (d.nlz) r.set_overlap_with_nlz(true);
  return r;
}
struct Cnt {
  int tp = 0, fp = 0, fn = 0; double ha = 0, la = 0;
  std::set<std::string> tps, fps, fns;   // details
  bool operator==(const Cnt& b) const { return tp == b.tp && fp == b.fp && fn == b.fn && std::fabs(ha - b.ha) < 1e-4 && std::fabs(la - b.la) < 1e-4 && tps == b.tps && fps == b.fps && fns == b.fns; }
  std::string str() const { std::ostringstream s; s << "tp " << tp << " fp " << fp << " fn " << fn << " ha " << ha << " la " << la << " {"; for (auto& x : tps) s << x << " "; s << "|"; for (auto& x : fps) s << x << " "; s << "|"; for (auto& x : fns) s << x << " "; s << "}"; return s.str(); }
};
struct Scn {
  std::vector<D> pd, gt;
  std::vector<std::vector<double>> iou, aff, w;   // reference values per pair; iou is zero across types
  std::vector<double> thr;                        // by type
  bool hung = true, let = false, details = false;
  double min_ha = -1;
};
static double HeadAcc(double a, double b) { double d = std::fabs(std::remainder(a - b, 2 * M_PI)); return std::min(1.0, std::max(0.0, 1 - d / M_PI)); }

// every matching the matcher may return (pd subset position -> gt subset position or -1)
static void All(const Scn& f, const V& ps, const V& gs, size_t i, unsigned used, V& cur, double tot, double* best, std::vector<V>* out) {
  if (i == ps.size()) {
    if (tot > *best + 5e-7) { *best = tot; out->clear(); }
    if (std::fabs(tot - *best) <= 5e-7) out->push_back(cur);
    return;
  }
  cur.push_back(-1); All(f, ps, gs, i + 1, used, cur, tot, best, out); cur.pop_back();
  for (size_t j = 0; j < gs.size(); ++j) {
    const double t = f.thr[f.pd[ps[i]].o.type];
    if (used >> j & 1 || f.iou[ps[i]][gs[j]] < t || (f.let && f.aff[ps[i]][gs[j]] == 0)) continue;
    cur.push_back(j); All(f, ps, gs, i + 1, used | 1u << j, cur, tot + f.w[ps[i]][gs[j]], best, out); cur.pop_back();
  }
}
static void Greedy(const Scn& f, const V& ps, const V& gs, unsigned done, unsigned used, V cur, std::set<V>* out) {
  if (done == (1u << ps.size()) - 1) { out->insert(cur); return; }
  double top = -1e30;
  for (size_t i = 0; i < ps.size(); ++i) if (!(done >> i & 1)) top = std::max(top, f.pd[ps[i]].o.score);
  for (size_t i = 0; i < ps.size(); ++i) {
    if (done >> i & 1 || f.pd[ps[i]].o.score != top) continue;
    double bw = -1;
    auto can = [&](size_t j) { return !(used >> j & 1) && f.iou[ps[i]][gs[j]] >= f.thr[f.pd[ps[i]].o.type] && !(f.let && f.aff[ps[i]][gs[j]] == 0); };
    for (size_t j = 0; j < gs.size(); ++j) if (can(j)) bw = std::max(bw, f.w[ps[i]][gs[j]]);
    if (bw < 0) { Greedy(f, ps, gs, done | 1u << i, used, cur, out); continue; }
    for (size_t j = 0; j < gs.size(); ++j) if (can(j) && f.w[ps[i]][gs[j]] > bw - 5e-7) { V c2 = cur; c2[i] = j; Greedy(f, ps, gs, done | 1u << i, used | 1u << j, c2, out); }
  }
}
static std::string Pair(const D& p, const D& g, double iou, double ha, double la) { char b[200]; snprintf(b, 200, "%s-%s:%.3f:%.3f:%.3f", p.id.c_str(), g.id.c_str(), iou, ha, la); return b; }
// counts for one matching at one level; ties for the largest overlap may be excused either way.
static void Count(const Scn& f, const V& ps, const V& gs, const V& mt, int id, int shard, int level, std::vector<Cnt>* out) {
  Cnt base; std::vector<std::string> maybe; V used(gs.size());
  for (size_t i = 0; i < ps.size(); ++i) {
    const D& p = f.pd[ps[i]];
    if (mt[i] >= 0) {
      used[mt[i]] = 1;
      const D& g = f.gt[gs[mt[i]]];
      if (GtOnly(id) && RShard(id, g.o) != shard) continue;
      double ha = HeadAcc(p.heading, g.heading), la = f.let ? f.aff[ps[i]][gs[mt[i]]] : 1;
      if (ha <= f.min_ha) continue;
      ++base.tp; base.ha += ha; base.la += la;
      if (f.details) base.tps.insert(Pair(p, g, f.iou[ps[i]][gs[mt[i]]], ha, la));
      continue;
    }
    if (p.nlz) continue;
    bool can_fp = true, can_excuse = false;
    if (GtOnly(id)) {
      double mx = 0.01; for (size_t j = 0; j < gs.size(); ++j) mx = std::max(mx, f.iou[ps[i]][gs[j]]);
      bool any = false, in = false, outsh = false;
      for (size_t j = 0; j < gs.size(); ++j) if (f.iou[ps[i]][gs[j]] >= mx) { any = true; (RShard(id, f.gt[gs[j]].o) == shard ? in : outsh) = true; }
      can_excuse = any && outsh; can_fp = !any || in;
    }
    if (can_fp && can_excuse) maybe.push_back(p.id);
    else if (can_fp) { ++base.fp; if (f.details) base.fps.insert(p.id); }
  }
  for (size_t j = 0; j < gs.size(); ++j) {
    const D& g = f.gt[gs[j]];
    if (used[j] || g.diff > level || (GtOnly(id) && RShard(id, g.o) != shard)) continue;
    ++base.fn; if (f.details) base.fns.insert(g.id);
  }
  for (unsigned k = 0; k < 1u << maybe.size(); ++k) { Cnt x = base; for (size_t q = 0; q < maybe.size(); ++q) if (k >> q & 1) { ++x.fp; if (f.details) x.fps.insert(maybe[q]); } out->push_back(x); }
}
static std::string ShowD(const D& d) { std::ostringstream s; s << d.id << "[" << Show(d.o) << " heading " << d.heading << " difficulty " << d.diff << (d.nlz ? " nlz" : "") << "]"; return s.str(); }
static std::string ShowF(const Scn& f) { std::ostringstream s; s << (f.hung ? "hungarian" : "score-first") << " min_ha " << f.min_ha << " pds: "; for (auto& p : f.pd) s << ShowD(p) << " "; s << " gts: "; for (auto& g : f.gt) s << ShowD(g) << " "; s << " iou: "; for (auto& r : f.iou) { for (double x : r) s << x << ","; s << ";"; } if (f.let) { s << " affinity: "; for (auto& r : f.aff) { for (double x : r) s << x << ","; s << ";"; } } return s.str(); }

// Runs the real code on the frame and compares every output.
static void Judge(mc::Ctx& c, Scn& f, const V& gens, const std::vector<V>& levels, const std::vector<double>& cuts, Config cfg, const ComputeIoUFunc& fn) {
  std::vector<Object> pd, gt;
  for (auto& d : f.pd) pd.push_back(MkD(d));
  for (auto& d : f.gt) gt.push_back(MkD(d));
  for (size_t i = 0; i < gens.size(); ++i) { cfg.add_breakdown_generator_ids((Breakdown::GeneratorId)gens[i]); auto* d = cfg.add_difficulties(); for (int l : levels[i]) d->add_levels((Label::DifficultyLevel)l); }
  for (double x : cuts) cfg.add_score_cutoffs(x);
  for (double t : f.thr) cfg.add_iou_thresholds(t);
  cfg.set_matcher_type(f.hung ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST);
  if (cfg.box_type() == Label::Box::TYPE_UNKNOWN) cfg.set_box_type(Label::Box::TYPE_3D);
  if (f.details) cfg.set_include_details_in_measurements(true);
  if (f.min_ha > -1) cfg.set_min_heading_accuracy(f.min_ha);
  auto got = ComputeDetectionMeasurements(cfg, pd, gt, fn); c.step();
  size_t k = 0; int tps = 0, fps = 0, fns = 0; uint64_t h = 0;
  for (size_t gi = 0; gi < gens.size(); ++gi) {
    const int id = gens[gi], ns = RefNames(id).size();
    const V lv = levels[gi].empty() ? V{2} : levels[gi];
    for (int s = 0; s < ns; ++s) {
      V gs, pall;
      for (size_t j = 0; j < f.gt.size(); ++j) { auto m = RMatch(id, f.gt[j].o); if (std::count(m.begin(), m.end(), s)) gs.push_back(j); }
      for (size_t j = 0; j < f.pd.size(); ++j) { auto m = RMatch(id, f.pd[j].o); if (std::count(m.begin(), m.end(), s)) pall.push_back(j); }
      if (k + lv.size() > got.size()) { c.fail("layout", "too few outputs; " + ShowF(f)); return; }
      for (size_t q = 0; q < cuts.size(); ++q) {
        V ps; for (int j : pall) if (f.pd[j].o.score >= cuts[q]) ps.push_back(j);
        std::vector<V> ms;
        if (f.hung) { V cur; double best = 0; All(f, ps, gs, 0, 0, cur, 0, &best, &ms); }
        else { std::set<V> o; Greedy(f, ps, gs, 0, 0, V(ps.size(), -1), &o); ms.assign(o.begin(), o.end()); }
        std::vector<Cnt> g(lv.size());
        for (size_t l = 0; l < lv.size(); ++l) {
          const auto& M = got[k + l];
          if (M.breakdown().generator_id() != id || M.breakdown().shard() != s || M.breakdown().difficulty_level() != lv[l] || M.measurements_size() != (int)cuts.size()) { c.fail("layout", "output " + std::to_string(k + l) + "; " + ShowF(f)); return; }
          const auto& m = M.measurements(q);
          g[l] = {m.num_tps(), m.num_fps(), m.num_fns(), m.sum_ha(), m.sum_longitudinal_affinity()};
          if (std::fabs(m.score_cutoff() - cuts[q]) > 1e-6) c.fail("cutoff", ShowF(f));
          if (m.details_size() != (f.details ? 1 : 0)) { c.fail("details", "wrong number of detail entries; " + ShowF(f)); return; }
          if (f.details) {
            const auto& d = m.details(0);
            const int n = d.tp_pr_ids_size();
            if (d.tp_gt_ids_size() != n || d.tp_ious_size() != n || d.tp_heading_accuracies_size() != n || d.tp_longitudinal_affinities_size() != n) { c.fail("details", "detail lists differ in length; " + ShowF(f)); return; }
            auto find = [](const std::vector<D>& v, const std::string& i) { for (auto& x : v) if (x.id == i) return x; D e; e.id = "?"; return e; };
            for (int i = 0; i < n; ++i) { D p, r; p.id = d.tp_pr_ids(i); r.id = d.tp_gt_ids(i); (void)find; if (!g[l].tps.insert(Pair(p, r, d.tp_ious(i), d.tp_heading_accuracies(i), d.tp_longitudinal_affinities(i))).second) c.fail("details", "listed twice; " + ShowF(f)); }
            for (auto& x : d.fp_ids()) if (!g[l].fps.insert(x).second) c.fail("details", "listed twice; " + ShowF(f));
            for (auto& x : d.fn_ids()) if (!g[l].fns.insert(x).second) c.fail("details", "listed twice; " + ShowF(f));
          }
          tps += g[l].tp; fps += g[l].fp; fns += g[l].fn; h = mc::Mix(h, g[l].tp * 100 + g[l].fp * 10 + g[l].fn);
        }
        bool ok = false;
        for (auto& mt : ms) {   // one matching must explain every level
          bool all = true;
          for (size_t l = 0; l < lv.size() && all; ++l) { std::vector<Cnt> w; Count(f, ps, gs, mt, id, s, lv[l], &w); all = std::find(w.begin(), w.end(), g[l]) != w.end(); }
          if (all) { ok = true; break; }
        }
        if (!ok) {
          std::ostringstream d; d << RefNames(id)[s] << " cutoff " << cuts[q];
          for (size_t l = 0; l < lv.size(); ++l) { std::vector<Cnt> w; if (!ms.empty()) Count(f, ps, gs, ms[0], id, s, lv[l], &w); d << " level " << lv[l] << ": got " << g[l].str() << " want e.g. " << (w.empty() ? "?" : w[0].str()); }
          c.fail(f.details ? "details" : "counts", d.str() + "; " + ShowF(f)); return;
        }
      }
      k += lv.size();
    }
  }
  if (k != got.size()) c.fail("layout", "too many outputs; " + ShowF(f));
  c.outcome("tp" + std::to_string(std::min(tps, 9)) + " fp" + std::to_string(std::min(fps, 9)) + " fn" + std::to_string(std::min(fns, 9)));
  c.state(h); c.sample([&] { return ShowF(f); });
}
// the IoU table is addressed through the z coordinate
static ComputeIoUFunc TableFn(const Scn& f) { return [&f](const Label::Box& a, const Label::Box& b) { return f.iou[std::lround(a.center_z() * 1024)][std::lround(b.center_z() * 1024)]; }; }
static O Var(int v, int type) {   // 0: near, slow, small, front; 1: far, fast, large, front-left; 2: like 0 but also seen front-left
  O o = Base(type);
  if (v == 1) { o.x = 40; o.y = 40; o.l = 9; o.vx = 20; }
  if (v == 2) { o.x = 20; o.y = 8.2; o.l = 3; o.vx = 2; }
  return o;
}
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  const V gens(kGen.begin(), kGen.end());
  const std::vector<V> lv12(7, V{1, 2});
  auto fill = [](Scn& f) {
    for (size_t i = 0; i < f.pd.size(); ++i) { f.pd[i].o.z = i / 1024.0; f.pd[i].id = "p" + std::to_string(i); }
    for (size_t j = 0; j < f.gt.size(); ++j) { f.gt[j].o.z = j / 1024.0; f.gt[j].id = "g" + std::to_string(j); }
    f.w = f.iou;
  };
  m.family("2x2", std::string("2 predictions (2 shard variants x 2 scores x no-label-zone flag) x 2 ground truths (2 shard variants x 2 difficulties), every IoU table over ") + (th ? "{0,.005,.3,.6,.8}" : "{0,.3,.6,.8}") + ", all 7 breakdowns x levels {1,2} x cutoffs {0,.5}, both matchers", [=](mc::Ctx& c) {
    Scn f; f.thr = {0, .5, .5, .5, .5};
    const std::vector<double> al = th ? std::vector<double>{0, .3, .6, .8, .005} : std::vector<double>{0, .3, .6, .8};
    f.iou.assign(2, std::vector<double>(2)); for (auto& r : f.iou) for (auto& x : r) x = c.pick(al);
    for (int i = 0; i < 2; ++i) { D d; d.o = Var(c.choose(2), 1); d.o.score = c.flip() ? .8 - .1 * i : .3; d.nlz = c.flip(); f.pd.push_back(d); }
    for (int i = 0; i < 2; ++i) { D d; d.o = Var(c.choose(2), 1); d.diff = 1 + c.choose(2); f.gt.push_back(d); }
    f.hung = c.flip(); if (!c.go()) return;
    fill(f); Judge(c, f, gens, lv12, {0, .5}, Config(), TableFn(f));
  });
  m.family("types", "2 x 2 over types vehicle/pedestrian/sign/cyclist with thresholds differing per type (.7,.5,.3,.4), every IoU table over {0,.35,.6,.8} on equal types, shard variant 2 for one object, all breakdowns", [=](mc::Ctx& c) {
    Scn f; f.thr = {0, .7, .5, .3, .4};
    for (int i = 0; i < 2; ++i) { D d; d.o = Var(i ? 0 : c.choose(3), 1 + c.choose(4)); d.o.score = i ? .6 : .9; f.pd.push_back(d); }
    for (int i = 0; i < 2; ++i) { D d; d.o = Var(i ? 2 * c.choose(2) : 0, 1 + c.choose(4)); d.diff = 1 + i; f.gt.push_back(d); }
    static const double al[4] = {0, .35, .6, .8};
    f.iou.assign(2, std::vector<double>(2)); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (f.pd[i].o.type == f.gt[j].o.type) f.iou[i][j] = al[c.choose(4)];
    f.hung = c.flip(); if (!c.go()) return;
    fill(f); Judge(c, f, gens, lv12, {0, .75}, Config(), [&f](const Label::Box& a, const Label::Box& b) { return f.iou[std::lround(a.center_z() * 1024)][std::lround(b.center_z() * 1024)]; });
  });
  m.family("3x3", std::string("3 predictions x 3 ground truths, every IoU table over ") + (th ? "{0,.6,.8}" : "{0,.7}") + ", score orders, difficulty/no-label-zone patterns, breakdowns ONE_SHARD, RANGE and VELOCITY", [=](mc::Ctx& c) {
    Scn f; f.thr = {0, .5, .5, .5, .5};
    f.iou.assign(3, std::vector<double>(3)); for (auto& r : f.iou) for (auto& x : r) { int v = c.choose(th ? 3 : 2); x = v == 0 ? 0 : th ? (v == 1 ? .6 : .8) : .7; }
    static const double S[4][3] = {{.9, .6, .3}, {.3, .6, .9}, {.6, .9, .3}, {.6, .6, .9}};
    int so = c.choose(4), np = c.choose(4), df = c.choose(8), sh = c.choose(4);
    for (int i = 0; i < 3; ++i) { D d; d.o = Var(0, 1); d.o.score = S[so][i]; d.nlz = np == i; f.pd.push_back(d); }
    for (int i = 0; i < 3; ++i) { D d; d.o = Var(sh == i, 1); d.diff = 1 + (df >> i & 1); f.gt.push_back(d); }
    f.hung = c.flip(); if (!c.go()) return;
    fill(f); Judge(c, f, {Breakdown::ONE_SHARD, Breakdown::RANGE, Breakdown::VELOCITY}, {{1, 2}, {2}, {}}, {.2, .5, .7}, Config(), TableFn(f));
  });
  m.family("details and heading", "1-2 predictions x 1-2 ground truths, 6-8 headings (incl. turns of 2 pi and the wrap at pi), minimum heading accuracy {none,.3,.8}, tables over {0,.3,.6,.8}, details on/off, difficulty unset/1/2, no-label-zone", [=](mc::Ctx& c) {
    static const double H[8] = {0, 0.4, 1.5, 3.1, -3.1, -1.5, 6.683185307, -6.183185307};
    Scn f; f.thr = {0, .5, .5, .5, .5};
    int np = 1 + c.choose(2), ng = 1 + c.choose(2);
    for (int i = 0; i < np; ++i) { D d; d.o = Var(0, 1); d.o.score = i ? .4 : .9; d.heading = H[i ? c.choose(th ? 8 : 2) : c.choose(th ? 8 : 6)]; d.nlz = i && c.flip(); f.pd.push_back(d); }
    for (int i = 0; i < ng; ++i) { D d; d.o = Var(0, 1); d.heading = H[i ? 3 : 1 + c.choose(th ? 7 : 6)]; d.diff = i ? 2 : c.choose(3); f.gt.push_back(d); }
    static const double al[4] = {0, .3, .6, .8};
    f.iou.assign(np, std::vector<double>(ng)); for (auto& r : f.iou) for (auto& x : r) x = al[c.choose(4)];
    const double mh[3] = {-1, .3, .8}; f.min_ha = mh[c.choose(3)]; f.details = c.flip(); f.hung = c.flip();
    if (!c.go()) return;
    fill(f); Judge(c, f, {Breakdown::ONE_SHARD, Breakdown::VELOCITY}, {{1, 2}, {2, 1}}, {0, .6}, Config(), TableFn(f));
  });
  m.family("empty and sparse", "0-3 predictions x 0-3 ground truths with at least one side empty or single, all variants/types/difficulties, three cutoffs incl. one above every score", [=](mc::Ctx& c) {
    Scn f; f.thr = {0, .5, .5, .5, .5};
    int np = c.choose(4), ng = c.choose(4); if (np > 1 && ng > 1) return;
    for (int i = 0; i < np; ++i) { D d; d.o = Var(c.choose(3), 1 + c.choose(2)); d.o.score = i * .4 + .1; d.nlz = c.flip(); f.pd.push_back(d); }
    for (int i = 0; i < ng; ++i) { D d; d.o = Var(c.choose(3), 1 + c.choose(2)); d.diff = c.choose(3); f.gt.push_back(d); }
    f.iou.assign(np, std::vector<double>(ng)); for (auto& r : f.iou) for (auto& x : r) x = .02;
    for (int i = 0; i < np; ++i) for (int j = 0; j < ng; ++j) if (f.pd[i].o.type != f.gt[j].o.type) f.iou[i][j] = 0;
    f.hung = c.flip(); f.details = c.flip();
    if (!c.go()) return;
    fill(f); Judge(c, f, gens, lv12, {0, .3, .95}, Config(), TableFn(f));
  });
  m.family("longitudinal", "LET: 1-2 predictions x 1-2 ground truths along one or two bearings, range errors around the tolerance, tolerance percent x minimum, aligned/centre aligned/not aligned, real boxes, both matchers, details on", [=](mc::Ctx& c) {
    Scn f; f.thr = {0, .5, .5, .5, .5}; f.let = true; f.details = true;
    int np = 1 + c.choose(2), ng = 1 + c.choose(2), al = c.choose(3), tol = c.choose(2), sz = c.choose(2); f.hung = c.flip();
    const double pct = tol ? .1 : .2, mn = tol ? 4 : 1;
    double pr[2], gr[2], pa[2], ga[2];
    for (int i = 0; i < ng; ++i) { const double R[3] = {20, 28, 60}; gr[i] = R[c.choose(3)] + 2 * i; ga[i] = i ? .5 * c.choose(2) : 0; }
    for (int i = 0; i < np; ++i) { const double R[6] = {0, .5, -1.5, 3, 9, -5}; int k = c.choose(6); pr[i] = gr[0] + R[k] + .125 * i; pa[i] = i ? .5 * c.choose(2) : 0; }
    if (!c.go()) return;
    for (int i = 0; i < np; ++i) { D d; d.o = Base(1); d.o.score = i ? .9 : .7; d.o.x = 1 + pr[i] * std::cos(pa[i]); d.o.y = pr[i] * std::sin(pa[i]); d.o.z = 2; d.o.l = sz ? 4 : 3; d.heading = 0; f.pd.push_back(d); }
    for (int i = 0; i < ng; ++i) { D d; d.o = Base(1); d.o.x = 1 + gr[i] * std::cos(ga[i]); d.o.y = gr[i] * std::sin(ga[i]); d.o.z = 2; d.diff = 1 + i; f.gt.push_back(d); }
    fill(f); for (auto& d : f.pd) d.o.z = 2; for (auto& d : f.gt) d.o.z = 2;
    f.iou.assign(np, std::vector<double>(ng)); f.aff = f.w = f.iou;
    for (int i = 0; i < np; ++i) for (int j = 0; j < ng; ++j) {
      const O &p = f.pd[i].o, &g = f.gt[j].o;
      const double ux = (g.x - 1) / gr[j], uy = g.y / gr[j];
      // error along the ground truth's line of sight
      const double e = (p.x - 1) * ux + p.y * uy - gr[j];
      f.aff[i][j] = std::min(1.0, std::max(0.0, 1 - std::fabs(e) / std::max(pct * gr[j], mn)));
      double px = p.x, py = p.y;
      if (al == 1) { px = g.x; py = g.y; }
      if (al == 0) {   // closest point to the ground truth on the prediction's line of sight
        double vx = (p.x - 1) / pr[i], vy = p.y / pr[i], t = (g.x - 1) * vx + g.y * vy; px = 1 + t * vx; py = t * vy; }
      double ix = std::max(0.0, std::min(px + p.l / 2, g.x + g.l / 2) - std::max(px - p.l / 2, g.x - g.l / 2)), iy = std::max(0.0, std::min(py + p.w / 2, g.y + g.w / 2) - std::max(py - p.w / 2, g.y - g.w / 2));
      double in = ix * iy, un = p.l * p.w + g.l * g.w - in;
      f.iou[i][j] = in / un; f.w[i][j] = f.iou[i][j] * f.aff[i][j];
      if (std::fabs(f.iou[i][j] - .5) < 1e-3 || (f.aff[i][j] > 0 && f.aff[i][j] < 1e-4)) return;   // too close to call
    }
    Config cfg; auto* l = cfg.mutable_let_metric_config(); l->set_enabled(true); l->mutable_sensor_location()->set_x(1); l->mutable_sensor_location()->set_y(0); l->mutable_sensor_location()->set_z(2);
    l->set_longitudinal_tolerance_percentage(pct); l->set_min_longitudinal_tolerance_meter(mn);
    l->set_align_type(al == 0 ? Config::LongitudinalErrorTolerantConfig::TYPE_RANGE_ALIGNED : al == 1 ? Config::LongitudinalErrorTolerantConfig::TYPE_CENTER_ALIGNED : Config::LongitudinalErrorTolerantConfig::TYPE_NOT_ALIGNED);
    cfg.set_box_type(Label::Box::TYPE_2D);
    Judge(c, f, {Breakdown::ONE_SHARD, Breakdown::RANGE}, {{1, 2}, {2}}, {0, .8}, cfg, nullptr);
  });
  m.family("box types", "1 x 1 real boxes with offsets in x and z: box type decides what overlaps (2D ignores height)", [=](mc::Ctx& c) {
    Scn f; f.thr = {0, .5, .5, .5, .5}; f.hung = c.flip(); f.details = true;
    static const double dx[5] = {0, 1, -1.2, 2, 5}, dz[4] = {0, .3, 1, 3}; double ox = dx[c.choose(5)], oz = dz[c.choose(4)]; bool b3 = c.flip();
    if (!c.go()) return;
    D p, g; p.o = g.o = Base(2); p.o.x += ox; p.o.z += oz; p.o.score = .5; p.id = "p0"; g.id = "g0"; f.pd = {p}; f.gt = {g};
    double i2 = std::max(0.0, 4 - std::fabs(ox)) * 2, in = b3 ? i2 * std::max(0.0, 1.5 - oz) : i2, v = b3 ? 12 : 8;
    f.iou = f.w = {{in / (2 * v - in)}}; if (std::fabs(f.iou[0][0] - .5) < 1e-3) return;
    Config cfg; cfg.set_box_type(b3 ? Label::Box::TYPE_3D : Label::Box::TYPE_2D);
    Judge(c, f, {Breakdown::OBJECT_TYPE}, {{2}}, {0}, cfg, nullptr);
  });
  m.family("crowds", "frames of n groups of objects that cannot match each other (n in {7,20,70,300}, thorough also 130; quick: fewer patterns of 300): every pattern of period 3 over 7 group kinds (match, missed of level 1, of level 2, false, false in a no-label zone, too little overlap, two on one), predictions listed forward or backward, both matchers, counts and details", [=](mc::Ctx& c) {
    const int n = c.pick(th ? V{7, 20, 70, 130, 300} : V{7, 20, 70, 300}), k0 = c.choose(7), k1 = c.choose(7), k2 = c.choose(7); const bool rev = c.flip(), hung = c.flip();
    if (n == 300 && !th && (k1 != k2 || rev)) return;
    if (!c.go()) return;
    std::vector<Object> pd, gt; Cnt want[2][2];   // cutoff, level
    for (int b = 0; b < n; ++b) {
      const int k = b % 3 == 0 ? k0 : b % 3 == 1 ? k1 : k2; const std::string B = std::to_string(b);
      auto add = [&](bool p, int sub, double score, int diff, bool nlz) { D d; d.o = Var(0, 1); d.o.z = (4 * b + sub) / 1024.0; d.o.score = score; d.diff = diff; d.nlz = nlz; d.id = (p ? "p" : "g") + B + "." + std::to_string(sub); (p ? pd : gt).push_back(MkD(d)); };
      const double sc = .55 + .001 * ((b * 7) % n); const bool lo = b % 5 == 4;   // every fifth group scores below the second cutoff
      const double s0 = lo ? .3 : sc;
      if (k == 0 || k == 5) { add(1, 0, s0, 1, false); add(0, 0, 0, 2, false); }
      if (k == 1 || k == 2) add(0, 0, 0, k, false);
      if (k == 3 || k == 4) add(1, 0, s0, 1, k == 4);
      if (k == 6) { add(1, 0, sc, 1, false); add(1, 1, lo ? .2 : .4, 1, false); add(0, 0, 0, 1, false); }   // the worse scored one overlaps more
      for (int q = 0; q < 2; ++q) for (int l = 0; l < 2; ++l) {
        Cnt& w = want[q][l]; const bool in = q == 0 || !lo || k == 6;
        char t[96];
        auto tp = [&](int sub, double iou) { ++w.tp; w.ha += 1; w.la += 1; snprintf(t, 96, "p%d.%d-g%d.0:%.3f:%.3f:%.3f", b, sub, b, iou, 1., 1.); w.tps.insert(t); };
        auto fp = [&](int sub) { ++w.fp; w.fps.insert("p" + B + "." + std::to_string(sub)); };
        auto fn = [&] { ++w.fn; w.fns.insert("g" + B + ".0"); };
        if (k == 0) { if (in) tp(0, .75); else if (l == 1) fn(); }
        if (k == 1 || (k == 2 && l == 1)) fn();
        if (k == 3 && in) fp(0);
        if (k == 5) { if (in) fp(0); if (l == 1) fn(); }
        if (k == 6) { if (q == 1) tp(0, .6); else if (hung) { tp(1, .8); fp(0); } else { tp(0, .6); fp(1); } }
      }
    }
    if (rev) std::reverse(pd.begin(), pd.end());
    Config cfg; cfg.add_breakdown_generator_ids(Breakdown::ONE_SHARD); auto* d = cfg.add_difficulties(); d->add_levels(Label::LEVEL_1); d->add_levels(Label::LEVEL_2);
    cfg.add_score_cutoffs(0); cfg.add_score_cutoffs(.5); for (int i = 0; i < 5; ++i) cfg.add_iou_thresholds(.5); cfg.set_include_details_in_measurements(true);
    cfg.set_matcher_type(hung ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST); cfg.set_box_type(Label::Box::TYPE_3D);
    auto kind = [=](int b) { return b % 3 == 0 ? k0 : b % 3 == 1 ? k1 : k2; };
    auto got = ComputeDetectionMeasurements(cfg, pd, gt, [=](const Label::Box& a, const Label::Box& g) { const int i = std::lround(a.center_z() * 1024), j = std::lround(g.center_z() * 1024); if (i / 4 != j / 4) return 0.; return kind(i / 4) == 5 ? .3 : kind(i / 4) == 6 ? (i % 4 ? .8 : .6) : .75; }); c.step();
    std::ostringstream ds; ds << n << " groups of kinds " << k0 << k1 << k2 << (rev ? " backward" : "") << (hung ? " hungarian" : " score-first");
    if (got.size() != 2) { c.fail("layout", ds.str()); return; }
    for (int l = 0; l < 2; ++l) for (int q = 0; q < 2; ++q) {
      if (got[l].measurements_size() != 2 || got[l].measurements(q).details_size() != 1) { c.fail("layout", ds.str()); return; }
      const auto& g = got[l].measurements(q); const auto& e = g.details(0); const Cnt& w = want[q][l]; Cnt r{g.num_tps(), g.num_fps(), g.num_fns(), g.sum_ha(), g.sum_longitudinal_affinity()};
      for (int i = 0; i < e.tp_pr_ids_size(); ++i) { char t[160]; snprintf(t, 160, "%s-%s:%.3f:%.3f:%.3f", e.tp_pr_ids(i).c_str(), i < e.tp_gt_ids_size() ? e.tp_gt_ids(i).c_str() : "?", i < e.tp_ious_size() ? e.tp_ious(i) : -1, i < e.tp_heading_accuracies_size() ? e.tp_heading_accuracies(i) : -1, i < e.tp_longitudinal_affinities_size() ? e.tp_longitudinal_affinities(i) : -1); r.tps.insert(t); }
      r.fps.insert(e.fp_ids().begin(), e.fp_ids().end()); r.fns.insert(e.fn_ids().begin(), e.fn_ids().end());
      if (r.tp != w.tp || r.fp != w.fp || r.fn != w.fn || std::fabs(r.ha - w.ha) > 1e-3 || std::fabs(r.la - w.la) > 1e-3) { c.fail("counts", ds.str() + " cutoff " + std::to_string(q) + " level " + std::to_string(l + 1) + " got " + std::to_string(r.tp) + "," + std::to_string(r.fp) + "," + std::to_string(r.fn) + " want " + std::to_string(w.tp) + "," + std::to_string(w.fp) + "," + std::to_string(w.fn)); return; }
      if (r.tps != w.tps || r.fps != w.fps || r.fns != w.fns || e.tp_pr_ids_size() != w.tp || e.fp_ids_size() != w.fp || e.fn_ids_size() != w.fn) { c.fail("details", ds.str() + " cutoff " + std::to_string(q) + " level " + std::to_string(l + 1)); return; }
    }
    c.outcome("n=" + std::to_string(n)); c.state(mc::HashStr(ds.str())); c.sample([&] { return ds.str(); });
  });
  m.family("estimated speed", "1-2 predictions x 0-3 ground truths at distinct distances: each prediction takes the speed of its nearest ground truth (zero without any)", [=](mc::Ctx& c) {
    int np = 1 + c.choose(2), ng = c.choose(4); static const double X[4] = {0, 7, -12, 30}; V px, gx; for (int i = 0; i < np; ++i) px.push_back(c.choose(4)); for (int j = 0; j < ng; ++j) gx.push_back(c.choose(12));
    if (!c.go()) return;
    std::vector<Object> p, g;
    auto pos = [](int k) { O o = Base(1); double v = X[k % 4]; (k / 4 == 0 ? o.x : k / 4 == 1 ? o.y : o.z) = v + 1; return o; };
    std::vector<O> po, go_; for (int k : px) { po.push_back(pos(k)); po.back().vx = 99; p.push_back(Mk(po.back())); }
    for (int j = 0; j < ng; ++j) { O o = pos(gx[j]); o.vx = j + 1; o.vy = -j - 2; go_.push_back(o); g.push_back(Mk(o)); }
    auto r = internal::EstimateObjectSpeed(p, g); c.step();
    if (r.size() != p.size()) { c.fail("speed", "size"); return; }
    for (int i = 0; i < np; ++i) {
      double best = 1e30; std::set<int> near; for (int j = 0; j < ng; ++j) { double d = std::hypot(std::hypot(po[i].x - go_[j].x, po[i].y - go_[j].y), po[i].z - go_[j].z); if (d < best - 1e-4) { best = d; near.clear(); } if (d < best + 1e-4) near.insert(j); }
      const auto& md = r[i].object().metadata(); bool ok = ng == 0 && md.speed_x() == 0 && md.speed_y() == 0;
      for (int j : near) ok |= md.speed_x() == j + 1 && md.speed_y() == -j - 2;
      if (!ok) c.fail("speed", "prediction " + std::to_string(i) + " at " + Show(po[i]) + " got speed " + std::to_string(md.speed_x()));
      Object a = r[i], b = p[i]; a.mutable_object()->clear_metadata(); b.mutable_object()->clear_metadata();
      if (a.SerializeAsString() != b.SerializeAsString()) c.fail("speed", "changed something else");
    }
    c.state(mc::HashStr(mc::Str(px) + mc::Str(gx))); c.sample([&] { return mc::Str(px) + mc::Str(gx); });
  });
  return m.run();
}
