// C10: the CLEAR-MOT state machine.
#include "mc.h"
#include "matchref.h"
#include "wod.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/metrics/mot.h"
using namespace waymo::open_dataset;
using V = std::vector<int>;
// One frame: which ground truths / tracks are present, and the similarity table (rows: tracks).
struct Fr { unsigned gt = 0, pd = 0; double iou[3][3] = {}; V ptype = {1, 1, 1}, gtype = {1, 1, 1}, porder = {0, 1, 2}; };
struct World { bool decoy = false; V diff = {1, 1, 1}; V nlz = {0, 0, 0}; std::vector<double> score = {.9, .6, .3}; bool hung = true; int level = 2; int ids = 0; };
// Ids as they are given: short; alike up to their last character; alike from their second character on; the same ones for ground truths and tracks.
static std::string Id(const World& w, char k, int i) {
  const std::string n = std::to_string(i), l = "gS4P9aeq8kK0kBvmp0QCCw_1005081002024129653";
  return w.ids == 1 ? l + k + n : w.ids == 2 ? n + l + k : w.ids == 3 ? "object " + n : k + n;
}
struct Tot { int miss = 0, fp = 0, mm = 0, match = 0, gt = 0; double cost = 0; };
using Mem = std::array<int, 3>;   // ground truth -> track it is remembered with, -1 none
static std::string ShowFr(const Fr& f) { std::ostringstream s; s << "[gt"; for (int i = 0; i < 3; ++i) if (f.gt >> i & 1) s << " g" << i; s << " | pd"; for (int i : f.porder) if (f.pd >> i & 1) s << " p" << i; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if ((f.pd >> i & 1) && (f.gt >> j & 1) && f.iou[i][j] > 0) s << " p" << i << "~g" << j << "=" << f.iou[i][j]; s << "]"; return s.str(); }
static std::string ShowW(const World& w) { return std::string(w.hung ? "hungarian" : "score-first") + " level " + std::to_string(w.level) + " difficulty " + mc::Str(w.diff) + " nlz " + mc::Str(w.nlz) + " scores " + mc::Str(w.score); }
static bool Can(const Fr& f, int p, int g) { return f.ptype[p] == f.gtype[g] && f.iou[p][g] >= .5; }
// keeps what a frame needs alive while the matcher points to it
struct Real {
  std::vector<Object> pd, gt; std::unique_ptr<Matcher> m;
  Real(const World& w, const Fr& f) {
    V ps, gs;
    if (w.decoy) { Object o; o.mutable_object()->set_type(Label::TYPE_VEHICLE); o.mutable_object()->set_id(Id(w, 'p', 0)); o.mutable_object()->mutable_box()->set_center_x(9); pd.push_back(o); o.mutable_object()->set_id(Id(w, 'g', 1)); gt.push_back(o); gt.push_back(o); }   // not in the subsets
    for (int i : f.porder) if (f.pd >> i & 1) { Object o; o.mutable_object()->set_id(Id(w, 'p', i)); o.mutable_object()->set_type((Label::Type)f.ptype[i]); o.mutable_object()->mutable_box()->set_center_x(i); o.set_score(w.score[i]); if (w.nlz[i]) o.set_overlap_with_nlz(true); ps.push_back(pd.size()); pd.push_back(o); }
    for (int j = 0; j < 3; ++j) if (f.gt >> j & 1) { Object o; o.mutable_object()->set_id(Id(w, 'g', j)); o.mutable_object()->set_type((Label::Type)f.gtype[j]); o.mutable_object()->mutable_box()->set_center_x(j); if (w.diff[j]) { o.mutable_object()->set_tracking_difficulty_level((Label::DifficultyLevel)w.diff[j]); o.mutable_object()->set_detection_difficulty_level((Label::DifficultyLevel)(3 - w.diff[j])); } gs.push_back(gt.size()); gt.push_back(o); }
    m = Matcher::Create(w.hung ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST, {.5, .5, .5, .5, .5}, Label::Box::TYPE_2D);
    const Fr ff = f; m->SetCustomIoUComputeFunc([ff](const Label::Box& a, const Label::Box& b) { int i = a.center_x(), j = b.center_x(); return i > 2 || j > 2 ? .95 : ff.iou[i][j]; });
    m->SetPredictions(pd); m->SetGroundTruths(gt); m->SetPredictionSubset(ps); m->SetGroundTruthSubset(gs);
  }
};
struct Ref { Mem mem{{-1, -1, -1}}; Tot t; };
// all successors of the reference state for one frame; the new matching identifies them
struct Succ { Ref r; Mem match; std::set<int> fn, fp; };
static std::vector<Succ> Step(const World& w, const Ref& r, const Fr& f) {
  Mem kept{{-1, -1, -1}}; unsigned pu = f.pd, gu = f.gt;
  for (int g = 0; g < 3; ++g) { int p = r.mem[g]; if (p >= 0 && (f.gt >> g & 1) && (f.pd >> p & 1) && Can(f, p, g)) { kept[g] = p; pu &= ~(1u << p); gu &= ~(1u << g); } }
  V ps, gs; for (int i = 0; i < 3; ++i) { if (pu >> i & 1) ps.push_back(i); if (gu >> i & 1) gs.push_back(i); }
  MatchRef mr{(int)ps.size(), (int)gs.size(), [&](int i, int j) { return Can(f, ps[i], gs[j]); }, [&](int i, int j) { return f.iou[ps[i]][gs[j]]; }, [&](int i) { return w.score[ps[i]]; }};
  std::vector<Succ> out;
  for (auto& o : mr.Outcomes(w.hung)) {
    Succ s; s.r = r; s.match = kept;
    for (size_t i = 0; i < ps.size(); ++i) if (o[i] >= 0) s.match[gs[o[i]]] = ps[i];
    unsigned pm = 0; Tot& t = s.r.t;
    for (int g = 0; g < 3; ++g) if (s.match[g] >= 0) {
      const int p = s.match[g]; pm |= 1u << p; ++t.match; ++t.gt; t.cost += 1 - f.iou[p][g];
      if (r.mem[g] >= 0 && r.mem[g] != p) ++t.mm;
      for (int h = 0; h < 3; ++h) if (h != g && r.mem[h] == p && !(f.gt >> h & 1)) ++t.mm;
    } else if (f.gt >> g & 1) { if (w.diff[g] <= w.level) { ++t.miss; ++t.gt; s.fn.insert(g); } }
    for (int p = 0; p < 3; ++p) if ((f.pd >> p & 1) && !(pm >> p & 1) && !w.nlz[p]) { ++t.fp; s.fp.insert(p); }
    for (int g = 0; g < 3; ++g) if (s.match[g] >= 0) { for (int h = 0; h < 3; ++h) if (h != g && s.r.mem[h] == s.match[g]) s.r.mem[h] = -1; }
    for (int g = 0; g < 3; ++g) if (s.match[g] >= 0) s.r.mem[g] = s.match[g];
    out.push_back(s);
  }
  return out;
}
static std::string ShowT(const TrackingMeasurement& m) { std::ostringstream s; s << "misses " << m.num_misses() << " fps " << m.num_fps() << " mismatches " << m.num_mismatches() << " matches " << m.num_matches() << " gts " << m.num_objects_gt() << " cost " << m.matching_cost(); return s.str(); }
static std::string ShowT(const Tot& t) { std::ostringstream s; s << "misses " << t.miss << " fps " << t.fp << " mismatches " << t.mm << " matches " << t.match << " gts " << t.gt << " cost " << t.cost; return s.str(); }
static bool Eq(const TrackingMeasurement& m, const Tot& t) { return m.num_misses() == t.miss && m.num_fps() == t.fp && m.num_mismatches() == t.mm && m.num_matches() == t.match && m.num_objects_gt() == t.gt && std::fabs(m.matching_cost() - t.cost) < 1e-4; }
// Evaluates one frame with details, and moves the reference along. Returns false on a violation.
static bool Go(mc::Ctx& c, const World& w0, MOT* mot, Ref* r, const Fr& f, int nth, const std::string& ds) {
  World w = w0; w.ids = mc::HashStr(ds) % 4;
  Real re(w, f); mot->Eval(re.m.get(), (Label::DifficultyLevel)w.level, true); c.step();
  const TrackingMeasurement m = mot->measurement();
  if (m.details_size() != nth + 1) { c.fail("details", ds + ": expected one details entry per frame"); return false; }
  const auto& d = m.details(nth); Mem got{{-1, -1, -1}}; std::set<int> fn, fp; bool bad = d.tp_gt_ids_size() != d.tp_pred_ids_size();
  auto num = [&](const std::string& s, char k) { for (int i = 0; i < 3; ++i) if (s == Id(w, k, i)) return i; bad = true; return 0; };
  for (int i = 0; i < d.tp_gt_ids_size() && !bad; ++i) { int g = num(d.tp_gt_ids(i), 'g'), p = num(d.tp_pred_ids(i), 'p'); bad |= got[g] != -1 || std::count(got.begin(), got.end(), p); got[g] = p; }
  for (auto& x : d.fn_gt_ids()) bad |= !fn.insert(num(x, 'g')).second;
  for (auto& x : d.fp_pred_ids()) bad |= !fp.insert(num(x, 'p')).second;
  if (bad) { c.fail("details", ds + " frame " + std::to_string(nth) + ": malformed details"); return false; }
  auto ss = Step(w, *r, f);
  for (auto& s : ss) if (s.match == got) {
    if (!Eq(m, s.r.t)) { c.fail("counts", ds + " frame " + std::to_string(nth) + " got " + ShowT(m) + " want " + ShowT(s.r.t)); return false; }
    if (s.fn != fn || s.fp != fp) { c.fail("details", ds + " frame " + std::to_string(nth) + ": details do not list the counted objects"); return false; }
    *r = s.r; return true;
  }
  c.fail("matching", ds + " frame " + std::to_string(nth) + ": matched " + mc::Str(V(got.begin(), got.end())) + ", no admissible outcome (e.g. " + mc::Str(V(ss[0].match.begin(), ss[0].match.end())) + ")");
  return false;
}
// Observes the memory: a frame holding exactly one ground truth and one track that match.
static void Probe(mc::Ctx& c, const World& w0, const MOT& mot, const Ref& r, const std::string& ds) {
  World w = w0; w.ids = mc::HashStr(ds) % 4;
  for (int g = 0; g < 3; ++g) for (int p = 0; p < 3; ++p) {
    MOT m2 = mot; Fr f; f.gt = 1u << g; f.pd = 1u << p; f.iou[p][g] = .8;
    Real re(w, f); m2.Eval(re.m.get(), (Label::DifficultyLevel)w.level, false); c.step();
    auto s = Step(w, r, f)[0];
    if (!Eq(m2.measurement(), s.r.t)) { c.fail("memory", ds + " then only g" + std::to_string(g) + " with p" + std::to_string(p) + ": got " + ShowT(m2.measurement()) + " want " + ShowT(s.r.t)); return; }
  }
}
static Fr PairFrame(const Mem& mm) { Fr f; for (int g = 0; g < 3; ++g) if (mm[g] >= 0) { f.gt |= 1u << g; f.pd |= 1u << mm[g]; f.iou[mm[g]][g] = .75; } return f; }
static Fr KindFrame(int kind) {
  Fr f; f.gt = f.pd = 7; auto set = [&](int p, int g, double v = .8) { f.iou[p][g] = v; };
  switch (kind) {
    case 0: set(0, 0); set(1, 1); set(2, 2); break;
    case 1: set(1, 0); set(0, 1); set(2, 2); break;
    case 2: f.gt = 6; set(0, 1); set(1, 1, .6); set(2, 2); break;
    case 3: f.pd = 5; set(0, 0); set(2, 1); break;
    case 4: f.gt = 3; f.pd = 6; set(2, 0); set(1, 1, .55); break;
    case 5: f.gt = f.pd = 0; break;
    case 6: set(1, 0); set(2, 1); set(0, 2); break;
    default: set(0, 0, .55); set(1, 0, .9); set(1, 1, .55); set(2, 1, .9); set(2, 2, .55);
  }
  return f;
}
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  std::vector<Mem> mems;
  for (int a = -1; a < 3; ++a) for (int b = -1; b < 3; ++b) for (int d = -1; d < 3; ++d) if (!(a >= 0 && (a == b || a == d)) && !(b >= 0 && b == d)) mems.push_back({{a, b, d}});
  auto pickFr = [](mc::Ctx& c, int ng, int np, const std::vector<double>& al) { Fr f; f.gt = c.choose(1 << ng); f.pd = c.choose(1 << np); for (int i = 0; i < np; ++i) for (int j = 0; j < ng; ++j) if ((f.pd >> i & 1) && (f.gt >> j & 1)) f.iou[i][j] = al[c.choose(al.size())]; return f; };
  m.family("all memory states", std::string("every reachable correspondence memory over 3 ground truths x 3 tracks (34 one-to-one partial maps, reached by real frames) x every frame: presence of every object x every similarity table over ") + (th ? "{0,.6,.8}" : "{0,.7}") + "; the complete next memory is observed by nine probe frames", [=](mc::Ctx& c) {
    Mem mm = c.pick(mems); World w; w.hung = c.flip();
    Fr f = pickFr(c, 3, 3, th ? std::vector<double>{0, .6, .8} : std::vector<double>{0, .7});
    int dn = c.choose(th ? 1 : 3); if (dn == 1) w.diff = {1, 2, 2}, w.level = 1; if (dn == 2) w.nlz = {1, 0, 1};
    if (!c.go()) return;
    MOT mot; Ref r; Fr f0 = PairFrame(mm); std::string ds = ShowW(w) + " history " + ShowFr(f0) + ShowFr(f);
    if (!Go(c, w, &mot, &r, f0, 0, ds)) return;
    if (r.mem != mm) { c.fail("matching", ds + " setup frame"); return; }
    if (!Go(c, w, &mot, &r, f, 1, ds)) return;
    Probe(c, w, mot, r, ds);
    c.state(r.mem[0] * 25 + r.mem[1] * 5 + r.mem[2] + 100 + 1000 * (uint64_t)f.gt + 10000 * (uint64_t)f.pd); c.outcome("mismatches " + std::to_string(r.t.mm) + " misses " + std::to_string(r.t.miss)); c.sample([&] { return ds; });
  });
  m.family("histories 2x2", "every history of 3 frames over 2 ground truths x 2 tracks: presence, similarity table over {0,.6,.8}; difficulty/no-label-zone patterns; both matchers", [=](mc::Ctx& c) {
    World w; w.hung = c.flip(); int dn = c.choose(th ? 4 : 2); w.diff = {1, 2, 1}; w.level = dn & 1 ? 1 : 2; w.nlz = {dn >> 1, 0, 0}; std::vector<Fr> h;
    for (int i = 0; i < 3; ++i) h.push_back(pickFr(c, 2, 2, !th && i == 0 ? std::vector<double>{0, .7} : std::vector<double>{0, .6, .8}));
    if (!c.go()) return;
    MOT mot; Ref r; std::string ds = ShowW(w) + " history "; for (auto& f : h) ds += ShowFr(f);
    for (size_t i = 0; i < h.size(); ++i) if (!Go(c, w, &mot, &r, h[i], i, ds)) return;
    if (c.thorough()) Probe(c, w, mot, r, ds);
    c.state(mc::HashStr(ShowT(r.t)) + r.mem[0] * 10 + r.mem[1]); c.outcome("mismatches " + std::to_string(r.t.mm)); c.sample([&] { return ds + ShowT(r.t); });
  });
  m.family("long histories", "every history of 6 (thorough 7) frames over 8 frame kinds on 3 x 3 objects: steady, swap, hide a ground truth, hide a track, take over, all gone, rotate, weak rival", [=](mc::Ctx& c) {
    int L = th ? 7 : 6; World w; w.level = 2; w.diff = {1, 2, 0}; w.nlz = {0, 0, 1}; w.hung = true; V ks; for (int i = 0; i < L; ++i) ks.push_back(c.choose(8));
    if (!c.go()) return;
    MOT mot; Ref r; std::string ds = "kinds " + mc::Str(ks);
    for (int i = 0; i < L; ++i) {
      const Fr f = KindFrame(ks[i]);
      if (!Go(c, w, &mot, &r, f, i, ds)) return;
    }
    Probe(c, w, mot, r, ds);
    c.state(mc::HashStr(ShowT(r.t)) + r.mem[0] * 100 + r.mem[1] * 10 + r.mem[2]); c.outcome("mismatches " + std::to_string(std::min(r.t.mm, 9))); c.sample([&] { return ds + " " + ShowT(r.t); });
  });
  m.family("crowds", "n separate groups of 3 x 3 objects (n in {1,6,24}, thorough also 90) in one evaluation of 3 frames, every triple of the 8 frame kinds per group and the neighbouring groups one and two kinds further; groups cannot match each other, so all counts are sums over the groups; ids of up to 4 characters, objects listed group by group or interleaved", [=](mc::Ctx& c) {
    const int n = c.pick(th ? V{1, 6, 24, 90} : V{1, 6, 24}), a = c.choose(8), b = c.choose(8), d = c.choose(8); const bool hung = c.flip(), mix = c.flip();
    if (!c.go()) return;
    World w; w.level = 2; w.diff = {1, 2, 0}; w.nlz = {0, 0, 1}; w.hung = hung;
    std::vector<Ref> ref(n); MOT mot; int skipped = 0; std::string ds = ShowW(w) + " " + std::to_string(n) + " groups from kinds " + mc::Str(V{a, b, d}) + (mix ? " interleaved" : "");
    for (int i = 0; i < 3; ++i) {
      std::vector<Fr> fs; std::vector<Mem> want; std::set<std::string> fn, fp, tp; Tot sum;
      for (int g = 0; g < n; ++g) {
        Fr f = KindFrame(((i == 0 ? a : i == 1 ? b : d) + g % 3) % 8);
        auto ss = Step(w, ref[g], f);
        if (ss.size() > 1) { f = Fr(); ss = Step(w, ref[g], f); ++skipped; }   // more than one admissible matching: leave the group empty
        ref[g] = ss[0].r; fs.push_back(f);
        const Tot& t = ref[g].t; sum.miss += t.miss; sum.fp += t.fp; sum.mm += t.mm; sum.match += t.match; sum.gt += t.gt; sum.cost += t.cost;
        for (int k = 0; k < 3; ++k) if (ss[0].match[k] >= 0) tp.insert("g" + std::to_string(g) + "." + std::to_string(k) + "p" + std::to_string(g) + "." + std::to_string(ss[0].match[k]));
        for (int k : ss[0].fn) fn.insert("g" + std::to_string(g) + "." + std::to_string(k)); for (int k : ss[0].fp) fp.insert("p" + std::to_string(g) + "." + std::to_string(k));
      }
      std::vector<Object> pd, gt;
      auto add = [&](bool p, int g, int k) {
        if (!((p ? fs[g].pd : fs[g].gt) >> k & 1)) return;
        Object o; o.mutable_object()->set_id((p ? "p" : "g") + std::to_string(g) + "." + std::to_string(k)); o.mutable_object()->set_type(Label::TYPE_VEHICLE); o.mutable_object()->mutable_box()->set_center_x(4 * g + k);
        if (p) { o.set_score(w.score[k] - .002 * g); if (w.nlz[k]) o.set_overlap_with_nlz(true); } else if (w.diff[k]) o.mutable_object()->set_tracking_difficulty_level((Label::DifficultyLevel)w.diff[k]);
        (p ? pd : gt).push_back(o);
      };
      if (mix) { for (int k = 2; k >= 0; --k) for (int g = 0; g < n; ++g) { add(true, g, k); add(false, n - 1 - g, k); } }
      else for (int g = 0; g < n; ++g) for (int k = 0; k < 3; ++k) { add(true, g, k); add(false, g, k); }
      auto mt = Matcher::Create(hung ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST, {.5, .5, .5, .5, .5}, Label::Box::TYPE_2D);
      mt->SetCustomIoUComputeFunc([&fs](const Label::Box& x, const Label::Box& y) { int p = x.center_x(), g = y.center_x(); return p / 4 == g / 4 ? fs[p / 4].iou[p % 4][g % 4] : 0.; });
      mt->SetPredictions(pd); mt->SetGroundTruths(gt); V ps(pd.size()), gs(gt.size()); std::iota(ps.begin(), ps.end(), 0); std::iota(gs.begin(), gs.end(), 0); mt->SetPredictionSubset(ps); mt->SetGroundTruthSubset(gs);
      mot.Eval(mt.get(), Label::LEVEL_2, true); c.step();
      const auto m = mot.measurement();
      if (m.num_misses() != sum.miss || m.num_fps() != sum.fp || m.num_mismatches() != sum.mm || m.num_matches() != sum.match || m.num_objects_gt() != sum.gt || std::fabs(m.matching_cost() - sum.cost) > 1e-3) { c.fail("counts", ds + " frame " + std::to_string(i) + " got " + ShowT(m) + " want " + ShowT(sum)); return; }
      if (m.details_size() != i + 1) { c.fail("details", ds); return; }
      const auto& e = m.details(i); std::set<std::string> rtp, rfn(e.fn_gt_ids().begin(), e.fn_gt_ids().end()), rfp(e.fp_pred_ids().begin(), e.fp_pred_ids().end());
      for (int k = 0; k < e.tp_gt_ids_size() && k < e.tp_pred_ids_size(); ++k) rtp.insert(e.tp_gt_ids(k) + e.tp_pred_ids(k));
      if (rtp != tp) { c.fail("matching", ds + " frame " + std::to_string(i)); return; }
      if (rfn != fn || rfp != fp || e.tp_gt_ids_size() != e.tp_pred_ids_size()) { c.fail("details", ds + " frame " + std::to_string(i)); return; }
    }
    c.state(mc::HashStr(ds)); c.outcome(skipped ? "some groups left empty" : "all groups"); c.sample([&] { return ds; });
  });
  m.family("types, order and flags", "3 frames, 2 x 2 objects whose types change between frames (a remembered pair of different types may not be kept), prediction order, difficulty unset/1/2 per ground truth x level 1/2, no-label-zone per track, objects outside the evaluated subsets; counts without details equal counts with details", [=](mc::Ctx& c) {
    World w; w.hung = c.flip(); w.decoy = c.flip(); w.level = 1 + c.choose(2); w.diff = {c.choose(3), c.choose(3), 1}; w.nlz = {c.choose(2), c.choose(2), 0}; std::vector<Fr> h;
    for (int i = 0; i < 3; ++i) {
      Fr f; f.gt = f.pd = 3; int k = c.choose(i == 0 ? 3 : 4), t = i == 0 ? 0 : c.choose(4);
      if (k == 0) { f.iou[0][0] = .8; f.iou[1][1] = .7; } if (k == 1) { f.iou[0][1] = .8; f.iou[1][0] = .9; } if (k == 2) { f.iou[0][0] = .6; f.iou[0][1] = .9; f.iou[1][0] = .65; f.iou[1][1] = .9; } if (k == 3) { f.iou[0][0] = .45; f.iou[1][1] = .45; f.iou[0][1] = .6; }
      f.ptype[0] = t & 1 ? 2 : 1; f.gtype[1] = t & 2 ? 2 : 1; if (i == 1) f.porder = {2, 1, 0};
      h.push_back(f);
    }
    if (!c.go()) return;
    MOT mot, plain; Ref r; std::string ds = ShowW(w) + " history "; for (auto& f : h) ds += ShowFr(f) + "types " + mc::Str(f.ptype) + mc::Str(f.gtype);
    for (size_t i = 0; i < h.size(); ++i) { if (!Go(c, w, &mot, &r, h[i], i, ds)) return; }
    bool unique = true; Ref u; for (auto& f : h) { auto s = Step(w, u, f); unique &= s.size() == 1; u = s[0].r; }
    if (unique) { for (auto& f : h) { Real re(w, f); plain.Eval(re.m.get(), (Label::DifficultyLevel)w.level, false); c.step(); } if (!Eq(plain.measurement(), r.t)) c.fail("counts", ds + " without details got " + ShowT(plain.measurement()) + " want " + ShowT(r.t)); if (plain.measurement().details_size()) c.fail("details", ds + " details although not requested"); }
    c.state(mc::HashStr(ShowT(r.t))); c.outcome("mismatches " + std::to_string(r.t.mm)); c.sample([&] { return ds; });
  });
  return m.run();
}
