// C02: per-frame matching of predictions to ground truths.
#include <numeric>
#include "mc.h"
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/metrics/iou.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
using namespace waymo::open_dataset;
using V = std::vector<int>;
using Table = std::vector<std::vector<float>>;

static Object Obj(int id, Label::Type t, float score = 1.0) {
  Object o;
  o.mutable_object()->set_type(t);
  o.mutable_object()->set_id("o" + std::to_string(id));
  o.mutable_object()->mutable_box()->set_center_x(id);
  o.mutable_object()->mutable_box()->set_length(1);
  o.mutable_object()->mutable_box()->set_width(1);
  o.mutable_object()->mutable_box()->set_height(1);
  o.set_score(score);
  return o;
}

// What a model knows: admissibility and integer weight of every pair.
struct Model {
  std::vector<std::vector<char>> can;   // [pd][gt]
  std::vector<V> w;
  std::vector<float> score;
};

static int64_t BestTotal(const Model& m, const V& ps, const V& gs, size_t i, unsigned used) {
  if (i == ps.size()) return 0;
  int64_t best = BestTotal(m, ps, gs, i + 1, used);
  for (size_t j = 0; j < gs.size(); ++j)
    if (!(used >> j & 1) && m.can[ps[i]][gs[j]])
      best = std::max(best, m.w[ps[i]][gs[j]] + BestTotal(m, ps, gs, i + 1, used | 1u << j));
  return best;
}
// All outcomes greedy-by-score may produce (ties in score or weight: any order).
static void Greedy(const Model& m, const V& ps, const V& gs, unsigned done, unsigned used, V cur, std::set<V>* out) {
  if (done == (1u << ps.size()) - 1) { out->insert(cur); return; }
  float top = -1e30;
  for (size_t i = 0; i < ps.size(); ++i) if (!(done >> i & 1)) top = std::max(top, m.score[ps[i]]);
  for (size_t i = 0; i < ps.size(); ++i) {
    if ((done >> i & 1) || m.score[ps[i]] != top) continue;
    int bw = -1;
    for (size_t j = 0; j < gs.size(); ++j)
      if (!(used >> j & 1) && m.can[ps[i]][gs[j]]) bw = std::max(bw, m.w[ps[i]][gs[j]]);
    if (bw < 0) { V c2 = cur; c2[i] = -1; Greedy(m, ps, gs, done | 1u << i, used, c2, out); continue; }
    for (size_t j = 0; j < gs.size(); ++j)
      if (!(used >> j & 1) && m.can[ps[i]][gs[j]] && m.w[ps[i]][gs[j]] == bw) {
        V c2 = cur; c2[i] = j;
        Greedy(m, ps, gs, done | 1u << i, used | 1u << j, c2, out);
      }
  }
}

enum Want { BOTH, PD_ONLY, GT_ONLY };
// Calls Match and compares with the model. outputs are reused across calls on purpose.
static bool RunMatch(mc::Ctx& c, Matcher* mt, bool hung, const Model& m, const V& ps, const V& gs, Want want,
                     V* pout, V* gout, const std::string& d) {
  c.step();
  mt->Match(want == GT_ONLY ? nullptr : pout, want == PD_ONLY ? nullptr : gout);
  V p = *pout, g = *gout;
  const int np = ps.size(), ng = gs.size();
  auto bad = [&](const std::string& k, const std::string& w) {
    c.fail(k, w + " pd=" + mc::Str(p) + " gt=" + mc::Str(g) + " want=" + std::to_string(want) + (hung ? " hungarian; " : " score-first; ") + d);
    return false;
  };
  if (want != GT_ONLY && (int)p.size() != np) return bad("size", "prediction output has wrong size");
  if (want != PD_ONLY && (int)g.size() != ng) return bad("size", "ground truth output has wrong size");
  // Build the missing side, check the two sides agree.
  V p2(np, -1), g2(ng, -1);
  if (want != GT_ONLY)
    for (int i = 0; i < np; ++i) {
      if (p[i] < -1 || p[i] >= ng) return bad("range", "index out of range");
      if (p[i] >= 0) { if (g2[p[i]] != -1) return bad("one-to-one", "ground truth used twice"); g2[p[i]] = i; }
    }
  if (want != PD_ONLY)
    for (int j = 0; j < ng; ++j) {
      if (g[j] < -1 || g[j] >= np) return bad("range", "index out of range");
      if (g[j] >= 0) { if (p2[g[j]] != -1) return bad("one-to-one", "prediction used twice"); p2[g[j]] = j; }
    }
  if (want == BOTH && (p != p2 || g != g2)) return bad("inconsistent", "the two outputs disagree");
  const V& mp = want == GT_ONLY ? p2 : p;
  int64_t tot = 0;
  int k = 0;
  for (int i = 0; i < np; ++i)
    if (mp[i] >= 0) {
      ++k;
      if (!m.can[ps[i]][gs[mp[i]]]) return bad("inadmissible", "matched a pair that cannot match");
      tot += m.w[ps[i]][gs[mp[i]]];
    }
  c.outcome((hung ? "hungarian matched=" : "score-first matched=") + std::to_string(k));
  if (hung) {
    int64_t best = BestTotal(m, ps, gs, 0, 0);
    if (tot != best) return bad("not-maximal", "total weight " + std::to_string(tot) + " optimum " + std::to_string(best));
  } else {
    std::set<V> ok;
    Greedy(m, ps, gs, 0, 0, V(np, -1), &ok);
    if (!ok.count(mp)) return bad("not-greedy", "result is not greedy by score and weight");
  }
  return true;
}

static std::vector<float> Thr(float v, float p, float s, float cy) { return {0.5f, v, p, s, cy}; }

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const Label::Type TV = Label::TYPE_VEHICLE, TP = Label::TYPE_PEDESTRIAN, TC = Label::TYPE_CYCLIST, TS = Label::TYPE_SIGN;

  // 1. every similarity table x score order x subsets, both matchers.
  m.family("tables", "2-3 predictions x 2-3 ground truths; all IoU tables over {0,.4,.5,.8}(2x2,2x3,3x2) or {0,.5,.8}(3x3); score orders; subsets full/reversed/partial", [=](mc::Ctx& c) {
    int shape = c.choose(4);
    int np = shape == 0 ? 2 : shape == 1 ? 2 : 3, ng = shape == 0 ? 2 : shape == 1 ? 3 : shape == 2 ? 2 : 3;
    std::vector<float> al = shape == 3 ? std::vector<float>{0, 0.5, 0.8} : std::vector<float>{0, 0.4, 0.5, 0.8};
    Table t(np, std::vector<float>(ng));
    for (auto& r : t) for (auto& x : r) x = c.pick(al);
    int so = c.choose(shape == 3 ? 3 : 5);
    static const float S[5][3] = {{.9, .5, .1}, {.1, .5, .9}, {.5, .9, .1}, {.5, .5, .5}, {.1, .9, .9}};
    int sub = c.choose(shape == 3 ? 2 : 4);
    bool hung = c.flip();
    if (hung && so > 1) return;
    if (!c.go()) return;
    std::vector<Object> pd, gt;
    Model mod;
    for (int i = 0; i < np; ++i) { pd.push_back(Obj(i, TV, S[so][i])); mod.score.push_back(S[so][i]); }
    for (int j = 0; j < ng; ++j) gt.push_back(Obj(100 + j, TV));
    mod.can.assign(np, std::vector<char>(ng)); mod.w.assign(np, V(ng));
    for (int i = 0; i < np; ++i) for (int j = 0; j < ng; ++j) { mod.can[i][j] = t[i][j] >= 0.5f; mod.w[i][j] = lround(t[i][j] * 1e6); }
    auto mt = Matcher::Create(hung ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST, Thr(.5, .5, .5, .5), Label::Box::TYPE_2D);
    mt->SetCustomIoUComputeFunc([&](const Label::Box& a, const Label::Box& b) { return t[(int)a.center_x()][(int)b.center_x() - 100]; });
    mt->SetPredictions(pd); mt->SetGroundTruths(gt);
    V ps(np), gs(ng);
    std::iota(ps.begin(), ps.end(), 0); std::iota(gs.begin(), gs.end(), 0);
    if (sub == 1) { std::reverse(ps.begin(), ps.end()); std::rotate(gs.begin(), gs.begin() + 1, gs.end()); }
    if (sub == 2) { ps.erase(ps.begin()); }
    if (sub == 3) { gs.erase(gs.begin()); std::swap(ps.front(), ps.back()); }
    mt->SetPredictionSubset(ps); mt->SetGroundTruthSubset(gs);
    std::ostringstream d; d << "table="; for (auto& r : t) d << mc::Str(r); d << " scores=" << mc::Str(mod.score) << " pd_subset=" << mc::Str(ps) << " gt_subset=" << mc::Str(gs);
    V po(5, 3), go(1, 4);  // reused outputs with stale content
    Want order[3] = {BOTH, PD_ONLY, GT_ONLY};
    for (Want w : order) {
      if (w == GT_ONLY) po.assign(1, 7);
      RunMatch(c, mt.get(), hung, mod, ps, gs, w, &po, &go, d.str());
    }
    for (int i = 0; i < np; ++i) for (int j = 0; j < ng; ++j) {
      c.step(2);
      if (mt->CanMatch(i, j) != (bool)mod.can[i][j] || mt->MatchingWeight(i, j) != mod.w[i][j] || mt->IoU(i, j) != t[i][j])
        c.fail("pair", "pairwise answers disagree with the table; " + d.str());
    }
    c.state(d.str());
    c.sample([&] { return d.str() + " -> " + mc::Str(po); });
  });

  // 2. types and per-type thresholds.
  m.family("types", "2 predictions x 2 ground truths, every type assignment over 4 types, thresholds differing per type (permutations of .3/.45/.6/.75), IoU in {.2,.35,.5,.7,.9}", [=](mc::Ctx& c) {
    const std::vector<Label::Type> ty = {TV, TP, TS, TC};
    Label::Type a = c.pick(ty), b = c.pick(ty), x = c.pick(ty), y = c.pick(ty);
    int th = c.choose(3);
    const std::vector<float> al = {.2, .35, .5, .7, .9};
    float base = c.pick(al);
    int var = c.choose(3);
    bool hung = c.flip();
    if (!c.go()) return;
    std::vector<float> T = th == 0 ? Thr(.3, .45, .6, .75) : th == 1 ? Thr(.75, .6, .45, .3) : Thr(.45, .75, .3, .6);
    Table t = {{base, var == 0 ? .9f : .35f}, {var == 1 ? .7f : .5f, var == 2 ? base : .8f}};
    std::vector<Object> pd = {Obj(0, a, .4), Obj(1, b, .6)}, gt = {Obj(100, x), Obj(101, y)};
    Model mod; mod.score = {.4, .6};
    mod.can.assign(2, std::vector<char>(2)); mod.w.assign(2, V(2));
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
      bool same = pd[i].object().type() == gt[j].object().type();
      float iou = same ? t[i][j] : 0;
      mod.can[i][j] = iou >= T[pd[i].object().type()];
      mod.w[i][j] = lround(iou * 1e6);
    }
    auto mt = Matcher::Create(hung ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST, T, Label::Box::TYPE_3D);
    mt->SetCustomIoUComputeFunc([&](const Label::Box& a, const Label::Box& b) { return t[(int)a.center_x()][(int)b.center_x() - 100]; });
    mt->SetPredictions(pd); mt->SetGroundTruths(gt);
    mt->SetPredictionSubset({0, 1}); mt->SetGroundTruthSubset({0, 1});
    V po, go;
    std::string d = "types=" + mc::Str(V{a, b, x, y}) + " thresholds=" + mc::Str(T) + " t=" + mc::Str(t[0]) + mc::Str(t[1]);
    RunMatch(c, mt.get(), hung, mod, {0, 1}, {0, 1}, BOTH, &po, &go, d);
    c.state(d);
    c.sample([&] { return d + " -> " + mc::Str(po); });
  });

  // 3. histories on one matcher object: sets, subsets, matches in any order.
  const int depth = m.thorough() ? 6 : 5;
  m.family("histories", "every history of " + std::to_string(depth) + " operations on one matcher (3 prediction sets of sizes 3/4/3, 3 ground truth sets of sizes 4/2/4, 2 subsets per side, 3 output modes; optimal, score-first, and optimal with longitudinal affinity), compared with a fresh model after every match", [=](mc::Ctx& c) {
    // Identity tables: iou(id_pd, id_gt) is a fixed scrambled function of ids.
    auto iou = [](int a, int b) -> float { static const float L[6] = {0, .9, .55, .3, .7, .62}; return L[(a * 5 + b * 3 + (a * b) % 4) % 6]; };
    int mode = c.choose(3);
    const bool hung = mode != 1, let = mode == 2;
    V ops;
    for (int i = 0; i < depth; ++i) ops.push_back(c.choose(13));
    if (!c.go()) return;
    std::vector<std::vector<Object>> P(3), G(3);
    for (int i = 0; i < 3; ++i) P[2].push_back(Obj(20 + i, i == 0 ? TP : TV, .5f + .2f * ((i + 1) % 3)));
    for (int i = 0; i < 4; ++i) G[2].push_back(Obj(121 + i, i == 2 ? TP : TV));
    for (int i = 0; i < 3; ++i) P[0].push_back(Obj(i, i == 2 ? TP : TV, .2f + .3f * i));
    for (int i = 0; i < 4; ++i) P[1].push_back(Obj(10 + i, i == 1 ? TP : TV, .9f - .2f * i));
    for (int i = 0; i < 4; ++i) G[0].push_back(Obj(100 + i, i == 3 ? TP : TV));
    for (int i = 0; i < 2; ++i) G[1].push_back(Obj(110 + i, i == 0 ? TP : TV));
    auto T = Thr(.5, .6, .5, .5);
    auto mt = Matcher::Create(hung ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST, T, Label::Box::TYPE_2D);
    mt->SetCustomIoUComputeFunc([&](const Label::Box& a, const Label::Box& b) { return iou(a.center_x(), b.center_x()); });
    auto aff = [](int a, int b) -> float { static const float L[5] = {.25, 1, 0, .75, .5}; return L[(a * 2 + b * 3) % 5]; };
    if (let) {
      mt->SetCustomLongitudinalAffinityFunc([&](const Label::Box& a, const Label::Box& b) { return aff(a.center_x(), b.center_x()); });
      mt->SetCustomCanMatchFunc([&](const Matcher& x, int i, int j) { return x.LongitudinalAffinity(i, j) > 0 && x.IoU(i, j) >= T[x.predictions()[i].object().type()]; });
      mt->SetCustomMatchingWeightFunc([&](const Matcher& x, int i, int j) { return x.QuantizedWeight(x.IoU(i, j) * x.LongitudinalAffinity(i, j)); });
    }
    int pi = 0, gi = 0;
    V ps = {0, 1, 2}, gs = {0, 1};
    mt->SetPredictions(P[0]); mt->SetGroundTruths(G[0]);
    mt->SetPredictionSubset(ps); mt->SetGroundTruthSubset(gs);
    V po, go;
    std::string d = "ops=";
    auto model = [&] {
      Model mod;
      for (size_t i = 0; i < P[pi].size(); ++i) {
        mod.score.push_back(P[pi][i].score());
        mod.can.emplace_back(); mod.w.emplace_back();
        for (size_t j = 0; j < G[gi].size(); ++j) {
          auto &a = P[pi][i].object(), &b = G[gi][j].object();
          float v = a.type() == b.type() ? iou(a.box().center_x(), b.box().center_x()) : 0;
          float af = let ? (a.type() == b.type() ? aff(a.box().center_x(), b.box().center_x()) : 0.f) : 1.f;
          mod.can[i].push_back(v >= T[a.type()] && af > 0); mod.w[i].push_back(lround(v * af * 1e6f));
        }
      }
      return mod;
    };
    auto legal = [&] { for (int x : ps) if (x >= (int)P[pi].size()) return false; for (int x : gs) if (x >= (int)G[gi].size()) return false; return true; };
    for (size_t s = 0; s <= ops.size(); ++s) {
      int op = s < ops.size() ? ops[s] : 8;
      if (op == 11) { pi = 2; d += "P2 "; mt->SetPredictions(P[2]); }
      if (op == 12) { gi = 2; d += "G2 "; mt->SetGroundTruths(G[2]); }
      switch (op) {
        case 0: case 1: pi = op; d += "P" + std::to_string(op) + " "; mt->SetPredictions(P[pi]); break;
        case 2: case 3: gi = op - 2; d += "G" + std::to_string(gi) + " "; mt->SetGroundTruths(G[gi]); break;
        case 4: ps = {2, 0}; d += "ps20 "; mt->SetPredictionSubset(ps); break;
        case 5: ps = {0, 1, 2}; if (pi == 1) ps.push_back(3); d += "psAll "; mt->SetPredictionSubset(ps); break;
        case 6: gs = {1, 0}; if (gi != 1) gs.push_back(3); d += "gsRev "; mt->SetGroundTruthSubset(gs); break;
        case 7: gs = {}; d += "gs0 "; mt->SetGroundTruthSubset(gs); break;
        case 8: case 9: case 10: {
          if (!legal()) { d += "skip "; break; }
          d += "match" + std::to_string(op - 8) + " ";
          Model mod = model();
          if (op == 10) po.assign(2, 1);
          if (!RunMatch(c, mt.get(), hung, mod, ps, gs, Want(op - 8), &po, &go, d)) return;
          break;
        }
      }
      c.state(mc::HashStr(d));
    }
    c.sample([&] { return d; });
  });

  // 4. the public factory with real boxes: default IoU, all box types; many objects.
  m.family("real boxes", "1-d rows of n equal boxes with every shift/permutation, n in {1,2,3,5,9,17,40,130,300}, three box types", [=](mc::Ctx& c) {
    int n = c.pick(V{1, 2, 3, 5, 9, 17, 40, 130, 300});
    int extra = c.choose(3);            // extra predictions / extra ground truths
    double shift = c.pick(std::vector<double>{0, 0.3, 0.9, 1.2, 1.9, -0.7});
    int bt = 1 + c.choose(3), perm = c.choose(3);
    bool hung = c.flip();
    if (!c.go()) return;
    Config cfg;
    cfg.set_matcher_type(hung ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST);
    cfg.set_box_type((Label::Box::Type)bt);
    for (float t : Thr(.5, .5, .5, .5)) cfg.add_iou_thresholds(t);
    auto mt = Matcher::Create(cfg);
    std::vector<Object> pd, gt;
    auto mk = [&](double x, float sc) {
      Object o = Obj(0, TV, sc); auto* b = o.mutable_object()->mutable_box();
      b->set_center_x(x); b->set_center_y(3); b->set_center_z(1); b->set_length(4); b->set_width(2); b->set_height(1.5); return o;
    };
    int np = n + (extra == 1 ? 2 : 0), ng = n + (extra == 2 ? 2 : 0);
    for (int i = 0; i < np; ++i) { int k = perm == 0 ? i : perm == 1 ? np - 1 - i : (i * 7 + 3) % np; if (perm == 2 && np % 7 == 0) k = i; pd.push_back(mk(10 * k + shift, 1.0 - .003 * i)); }
    for (int j = 0; j < ng; ++j) gt.push_back(mk(10 * j, 1));
    mt->SetPredictions(pd); mt->SetGroundTruths(gt);
    V ps(np), gs(ng); std::iota(ps.begin(), ps.end(), 0); std::iota(gs.begin(), gs.end(), 0);
    mt->SetPredictionSubset(ps); mt->SetGroundTruthSubset(gs);
    V po, go; c.step(); mt->Match(&po, &go);
    double iou = (4 - std::fabs(shift)) / (4 + std::fabs(shift));
    std::string d = "n=" + std::to_string(n) + " extra=" + std::to_string(extra) + " shift=" + std::to_string(shift) + " perm=" + std::to_string(perm) + " box=" + std::to_string(bt);
    if ((int)po.size() != np || (int)go.size() != ng) { c.fail("size", d); return; }
    V eg(ng, -1);
    for (int i = 0; i < np; ++i) {
      int k = lround((pd[i].object().box().center_x() - shift) / 10);
      int e = iou >= .5 && k < ng ? k : -1;
      if (e >= 0) eg[e] = i;
      if (po[i] != e) { c.fail("real-boxes", d + (hung ? " hungarian" : " score-first") + " pd " + std::to_string(i) + " got " + std::to_string(po[i]) + " want " + std::to_string(e)); return; }
    }
    if (go != eg) c.fail("real-boxes", d + " gt side " + mc::Str(go));
    c.state(d + (hung ? "h" : "s"));
    c.outcome(iou >= .5 ? "all matched" : "none matched");
    c.sample([&] { return d; });
  });

  // 5. longitudinal-error-tolerant configuration.
  m.family("let", "longitudinal-error-tolerant matcher: 2 predictions x 2 ground truths on two rays, radial offsets {-6,-2,0,1,4}, lateral {0,.5}, align types, tolerances, sensor positions; config object destroyed before use", [=](mc::Ctx& c) {
    const std::vector<double> rad = {-6, -2, 0, 1, 4};
    double r0 = c.pick(rad), r1 = c.pick(rad), lat = c.flip() ? .5 : 0;
    int at = 1 + c.choose(6);
    float tol = c.flip() ? .1f : .3f;
    bool off = c.flip(), hung = c.flip();
    int bt = 1 + c.choose(2), ty = c.choose(2);
    if (!c.go()) return;
    auto cfg = std::make_unique<Config>();
    cfg->set_matcher_type(hung ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST);
    cfg->set_box_type((Label::Box::Type)bt);
    for (float t : Thr(.3, .4, .5, .5)) cfg->add_iou_thresholds(t);
    auto* l = cfg->mutable_let_metric_config();
    l->set_enabled(true); l->set_longitudinal_tolerance_percentage(tol); l->set_min_longitudinal_tolerance_meter(.5);
    l->set_align_type((Config::LongitudinalErrorTolerantConfig::AlignType)at);
    double sx = off ? 1.5 : 0, sy = off ? -.5 : 0, sz = off ? 2 : 0;
    l->mutable_sensor_location()->set_x(sx); l->mutable_sensor_location()->set_y(sy); l->mutable_sensor_location()->set_z(sz);
    const Config keep = *cfg;
    auto mt = Matcher::Create(*cfg);
    // The configuration object is overwritten and destroyed: the matcher must not depend on it any more.
    l->set_longitudinal_tolerance_percentage(1e-9); l->set_min_longitudinal_tolerance_meter(1e-9);
    l->mutable_sensor_location()->set_x(777);
    cfg.reset();
    auto mk = [&](double r, double a, double y, Label::Type t, float s) {
      Object o = Obj(0, t, s); auto* b = o.mutable_object()->mutable_box();
      b->set_center_x(sx + r * cos(a) - y * sin(a)); b->set_center_y(sy + r * sin(a) + y * cos(a)); b->set_center_z(sz + .2);
      b->set_length(4); b->set_width(2); b->set_height(1.5); b->set_heading(a); return o;
    };
    std::vector<Object> gt = {mk(20, .1, 0, TV, 1), mk(26, .1, 0, TV, 1)};
    std::vector<Object> pd = {mk(20 + r0, .1, lat, TV, .5), mk(26 + r1, .1, 0, ty ? TP : TV, .7)};
    mt->SetPredictions(pd); mt->SetGroundTruths(gt); mt->SetPredictionSubset({0, 1}); mt->SetGroundTruthSubset({0, 1});
    Model mod; mod.score = {.5, .7};
    mod.can.assign(2, std::vector<char>(2)); mod.w.assign(2, V(2));
    std::string d = "r=" + std::to_string(r0) + "," + std::to_string(r1) + " lat=" + std::to_string(lat) + " align=" + std::to_string(at) + " tol=" + std::to_string(tol) + " sensor_off=" + std::to_string(off) + " box=" + std::to_string(bt) + " type=" + std::to_string(ty);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
      bool same = pd[i].object().type() == gt[j].object().type();
      float aff = same ? ComputeLongitudinalAffinity(pd[i].object().box(), gt[j].object().box(), keep.let_metric_config()) : 0;
      float iou = same ? ComputeLetIoU(pd[i].object().box(), gt[j].object().box(), keep.let_metric_config().sensor_location(), keep.let_metric_config().align_type(), (Label::Box::Type)bt) : 0;
      mod.can[i][j] = aff > 0 && iou >= keep.iou_thresholds(pd[i].object().type());
      mod.w[i][j] = lround(iou * aff * 1e6);
      c.step(3);
      if (mt->CanMatch(i, j) != (bool)mod.can[i][j]) { c.fail("let-canmatch", d); return; }
      if (std::abs(mt->MatchingWeight(i, j) - mod.w[i][j]) > 1 || !mc::Near(mt->LongitudinalAffinity(i, j), aff, 1e-6)) { c.fail("let-weight", d + " got " + std::to_string(mt->MatchingWeight(i, j)) + " want " + std::to_string(mod.w[i][j])); return; }
      mod.w[i][j] = mt->MatchingWeight(i, j);
    }
    V po, go;
    RunMatch(c, mt.get(), hung, mod, {0, 1}, {0, 1}, BOTH, &po, &go, d);
    c.state(d);
    c.sample([&] { return d + " -> " + mc::Str(po); });
  });

  // 6. custom pair predicate / custom weight override the defaults; test-only matcher.
  m.family("custom", "2x3, every boolean admissibility table, 3 weight tables, both matchers; test-only matcher with a set table", [=](mc::Ctx& c) {
    unsigned adm = c.choose(64); int wt = c.choose(3); bool hung = c.flip();
    if (!c.go()) return;
    std::vector<Object> pd = {Obj(0, TV, .9), Obj(1, TV, .3)}, gt = {Obj(100, TV), Obj(101, TP), Obj(102, TV)};
    static const int W[3][2][3] = {{{5, 3, 2}, {4, 3, 1}}, {{1, 1, 1}, {1, 1, 2}}, {{1000000, 999999, 7}, {999999, 1, 8}}};
    Model mod; mod.score = {.9, .3}; mod.can.assign(2, std::vector<char>(3)); mod.w.assign(2, V(3));
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { mod.can[i][j] = adm >> (i * 3 + j) & 1; mod.w[i][j] = W[wt][i][j]; }
    auto mt = Matcher::Create(hung ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST, Thr(.5, .5, .5, .5), Label::Box::TYPE_2D);
    mt->SetCustomCanMatchFunc([&](const Matcher&, int i, int j) { return (bool)mod.can[i][j]; });
    mt->SetCustomMatchingWeightFunc([&](const Matcher&, int i, int j) { return mod.w[i][j]; });
    mt->SetPredictions(pd); mt->SetGroundTruths(gt); mt->SetPredictionSubset({1, 0}); mt->SetGroundTruthSubset({2, 0, 1});
    V po, go; std::string d = "adm=" + std::to_string(adm) + " w=" + std::to_string(wt);
    RunMatch(c, mt.get(), hung, mod, {1, 0}, {2, 0, 1}, BOTH, &po, &go, d);
    RunMatch(c, mt.get(), hung, mod, {1, 0}, {2, 0, 1}, BOTH, &po, &go, d + " (second call)");
    if (hung) {
      TEST_HungarianMatcher tm(Thr(.5, .5, .5, .5), Label::Box::TYPE_2D);
      Table t(2, std::vector<float>(3));
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { t[i][j] = mod.can[i][j] ? .5f + .1f * ((i + j * wt) % 5) : .2f; mod.w[i][j] = lround(t[i][j] * 1e6); }
      tm.SetIoU(t); tm.SetPredictions(pd); tm.SetGroundTruths(gt); tm.SetPredictionSubset({1, 0}); tm.SetGroundTruthSubset({2, 0, 1});
      RunMatch(c, &tm, true, mod, {1, 0}, {2, 0, 1}, BOTH, &po, &go, d + " test matcher");
    }
    c.state(d + (hung ? "h" : "s"));
    c.sample([&] { return d + " -> " + mc::Str(po); });
  });
  return m.run();
}
