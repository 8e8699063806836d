// C12: motion metrics equal their definitions, for every small scenario, and accumulate independently of order.
#include "motionref.h"
using V = std::vector<int>;
using LL = std::function<std::pair<double, double>(int)>;
// deviations of a prediction from the ground truth, per prediction step (n steps), in the track's frame (longitudinal, lateral)
static LL Kind(int k, int n) {
  switch (k) {
    case 0: return [](int) { return std::make_pair(0., 0.); };
    case 1: return [](int) { return std::make_pair(.1, .4); };          // a match at every speed
    case 2: return [](int i) { return std::make_pair(0., -.65 - .2 * i); };  // a match for fast objects only
    case 3: return [](int i) { return std::make_pair(1.3 + .5 * i, .1); };
    case 4: return [](int) { return std::make_pair(-9., 9.); };
    case 5: return [n](int i) { return std::make_pair(.2, i == n - 1 ? 7. : 0.); };   // ends badly
    case 6: return [n](int i) { return std::make_pair(i == n - 1 ? 0. : 5., 0.); };   // ends well
    default: return [](int i) { return std::make_pair(.3 * i - .3, .2 * i); };
  }
}
static MotionMetricsConfig Cfg(int i, int K) {
  switch (i) {
    case 0: return mr::Config(2, 1, 1, 6, {0, 2}, K);
    case 1: return mr::Config(1, 1, 0, 3, {1, 2}, K);
    case 2: return mr::Config(10, 2, 10, 15, {2, 0, 1}, K);
    default: return mr::Config(4, 2, 3, 7, {0, 2}, K);   // 3.5 -> 3 steps
  }
}
static bool Run(mc::Ctx& c, const MotionMetricsConfig& cf, const ScenarioPredictions& P, const Scenario& S, bool overlap, mr::Ref* out = nullptr) {
  bool amb = false; const mr::Ref e = mr::Compute(cf, P, S, &amb);
  BucketedMetricsStats r; const Status st = ComputeMetricsStats(cf, P, S, &r); c.step();
  if (!st.ok()) { c.fail("rejected", "well-formed request rejected: " + std::string(st.message()).substr(0, 200) + " for " + mr::Show(cf, P, S)); return false; }
  const std::string d = mr::Diff(r, e, overlap && !amb);
  if (!d.empty()) { c.fail("stats", d + " for " + mr::Show(cf, P, S)); return false; }
  uint64_t h = 7; for (auto& [k, x] : e) { h = mc::Mix(h, k.first * 100 + k.second); h = mc::Mix(h, (long)(x.ade.total * 1e4)); h = mc::Mix(h, (long)(x.fde.total * 1e4)); h = mc::Mix(h, (long)x.miss.total * 4 + x.miss.n); h = mc::Mix(h, (long)x.ovl.total); for (auto& [i, b] : x.ap) { h = mc::Mix(h, i); for (auto& q : b.s) h = mc::Mix(h, (long)(q.first * 100) * 2 + q.second); } }
  c.state(h);
  if (out) *out = e;
  c.sample([&] { return mr::Show(cf, P, S); });
  return true;
}
static void Require(Scenario* s, const V& idx) { for (int i : idx) s->add_tracks_to_predict()->set_track_index(i); }
static const std::vector<std::vector<float>> kConf = {{.2f, .5f, .8f}, {.8f, .5f, .2f}, {.5f, .5f, .5f}, {.3f, .9f, .3f}};

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  m.family("one object", "1-3 predictions x 6 deviations x confidence orders x at most 1-6 predictions counted x every validity mask of the measured steps x 3 initial speeds x sampling configurations and headings", [=](mc::Ctx& c) {
    const V Ks = {1, 2, 6}; const int K = c.pick(Ks), mask = c.choose(8), sp = c.choose(3), ci = c.choose(th ? 4 : 2) + (th ? 0 : 0), n = c.choose(3) + 1;
    const auto& cf = c.pick(kConf); V ks; for (int i = 0; i < n; ++i) { static const V kinds = {0, 1, 2, 3, 5, 6}, all = {0, 1, 2, 3, 4, 5, 6, 7}; ks.push_back(c.pick(th ? all : kinds)); }
    if (!c.go()) return;
    const int cfi = th ? ci : (ci == 0 ? 0 : mask % 2 ? 2 : 3);
    const auto conf = Cfg(cfi, K); Scenario s; s.set_scenario_id("s"); static const double vs[3] = {.5, 6.2, 20}; static const int ty[3] = {1, 2, 3};
    Track* t = mr::AddTrack(&s, conf, 42, ty[(sp + K) % 3], 100, -50, ci * 2.2 + .3, vs[sp], ci ? .05 : 0);
    Require(&s, {0}); ScenarioPredictions p; p.set_scenario_id("s"); auto* mm = p.add_multi_modal_predictions();
    for (int i = 0; i < n; ++i) { auto* j = mm->add_joint_predictions(); j->set_confidence(cf[i]); mr::AddTraj(j, conf, *t, Kind(ks[i], mr::Len(conf))); }
    for (int i = 0; i < 3; ++i) if (mask >> i & 1) { auto* x = t->mutable_states(mr::TStep(conf, i)); x->set_valid(false); x->set_center_x(-1e4); x->set_center_y(0); }
    Run(c, conf, p, s, true); c.outcome("n" + std::to_string(n));
  });
  m.family("shapes", "classification of a track: all displacements, heading changes, speeds, validity masks on a grid, in 4 orientations", [=](mc::Ctx& c) {
    const std::vector<double> dxs = {-6, -1, 1, 2, 6, 25}, dys = {-12, -2.3, -1, 0, .5, 2.3, 2.8, 12}, dhs = {0, .45, -.45, .6, -.6, 1.6, -1.6, 2.9, -2.9}, hs = {0, 1.1, -2.5, 3.1}, vs = {.5, 1.9, 2.1};
    const double dx = c.pick(dxs), dy = c.pick(dys), dh = c.pick(dhs); const int mask = c.choose(16); const bool cur = !c.flip(); const double h = c.pick(hs), v0 = c.pick(vs), v1 = c.pick(vs);
    if (!c.go()) return;
    Track t; const int step = 2;
    for (int i = 0; i < 6; ++i) {
      auto* o = t.add_states(); const double f = i <= step ? 0 : (i - step) / 3.; const double X = dx * f, Y = dy * f;
      o->set_center_x(7 + X * cos(h) - Y * sin(h)); o->set_center_y(-3 + X * sin(h) + Y * cos(h)); o->set_heading(h + (i > step ? dh : 0)); const double v = i <= step ? v0 : v1; o->set_velocity_x(v * .6); o->set_velocity_y(-v * .8);
      o->set_valid(i == step ? cur : i < step ? mask & 1 : mask >> (i - step) & 1);
      if (i > step) { o->set_heading(o->heading() > 3.14159 ? o->heading() - 2 * M_PI : o->heading()); }
    }
    const int e = mr::Shape(t, step); const auto r = ClassifyTrack(step, t); c.step();
    const int g = r ? (int)*r : -1;
    if (g != e) c.fail("shape", "track classified as " + std::to_string(g) + ", expected " + std::to_string(e) + ": displacement " + std::to_string(dx) + "," + std::to_string(dy) + " heading change " + std::to_string(dh) + " heading " + std::to_string(h) + " speeds " + std::to_string(v0) + " " + std::to_string(v1) + " mask " + std::to_string(mask) + " current " + std::to_string(cur));
    c.outcome("shape " + std::to_string(e)); c.state(mc::Mix(mc::Mix(mask, e), (long)(dx * 100 + dy * 7 + dh * 3)));
  });
  m.family("two objects jointly", "joint predictions of 2 objects: 1-2 predictions x deviations of each object x validity masks x types x shapes; also a single-object group next to the joint one", [=](mc::Ctx& c) {
    const int n = c.choose(2) + 1, ta = c.choose(5), tb = c.choose(5), sh = c.choose(th ? 9 : 5), mask = c.choose(16), extra = c.choose(2); V ks; const V kinds = {0, 2, 5, 4}; for (int i = 0; i < 2 * n; ++i) ks.push_back(c.pick(kinds)); const bool swap = c.flip();
    if (mask && ta != tb && !th) return;
    if (!c.go()) return;
    const auto conf = Cfg(0, 6); Scenario s; s.set_scenario_id("s");
    static const double turns[9][2] = {{0, 0}, {.2, 0}, {-.2, .2}, {.5, 0}, {.5, -.5}, {0, .2}, {.2, -.5}, {-.2, -.5}, {.2, .5}};
    mr::AddTrack(&s, conf, 900, 1, 0, 200, 0, 3);
    mr::AddTrack(&s, conf, 5, ta, 0, 0, .4, 8, turns[sh][0]); mr::AddTrack(&s, conf, 3, tb, 60, 0, 2.4, 5, turns[sh][1]); mr::AddTrack(&s, conf, 77, 3, -90, 40, 1, 12);
    Require(&s, extra ? V{2, 1, 3} : V{1, 2});
    ScenarioPredictions p; p.set_scenario_id("s");
    if (extra) { auto* mm = p.add_multi_modal_predictions(); auto* j = mm->add_joint_predictions(); j->set_confidence(.4); mr::AddTraj(j, conf, s.tracks(3), Kind(1, 3)); }
    auto* mm = p.add_multi_modal_predictions();
    for (int i = 0; i < n; ++i) { auto* j = mm->add_joint_predictions(); j->set_confidence(i ? .7 : .6); const int first = swap && i == 0; for (int q = 0; q < 2; ++q) { const int o = q ^ first; mr::AddTraj(j, conf, s.tracks(1 + o), Kind(ks[2 * i + o], 3)); } }
    for (int o = 0; o < 2; ++o) { if (mask >> (2 * o) & 1) s.mutable_tracks(1 + o)->mutable_states(mr::TStep(conf, 0))->set_valid(false); if (mask >> (2 * o) & 2) { s.mutable_tracks(1 + o)->mutable_states(mr::TStep(conf, 2))->set_valid(false); if (sh & 1) for (int i = 2; i < 8; ++i) s.mutable_tracks(1 + o)->mutable_states(i)->set_valid(false); } }
    Run(c, conf, p, s, true); c.outcome("types " + std::to_string(std::max(ta, tb)));
  });
  m.family("overlap", "the most confident of 1-2 predictions against 2 other objects: positions (far, hit at one step, side by side with a gap, nested, crossing), validity now and at each step, sizes, confidences also negative, counted predictions 1-2", [=](mc::Ctx& c) {
    const int n = c.choose(2) + 1, K = c.choose(2) + 1, cfk = c.choose(5), ego = c.choose(3), o1 = c.choose(8), o2 = c.choose(8), m1 = c.choose(16), m2 = o2 ? c.choose(2) * 9 : 0; const bool other_first = c.flip(), pair = c.flip();
    if (pair && (m1 & 6)) return;
    if (!c.go()) return;
    auto conf = Cfg(0, K); Scenario s; s.set_scenario_id("s");
    static const float cfs[5][2] = {{.3f, .6f}, {.6f, .3f}, {.5f, .5f}, {-3.f, -1.f}, {-1.f, -3.f}};
    auto add = [&](int id, int o) {   // ego ground truth: (10+i,0), i = state
      Track* t = nullptr;
      switch (o) {
        case 0: t = mr::AddTrack(&s, conf, id, 1, 500, 500, 0, 2); break;
        case 1: t = mr::AddTrack(&s, conf, id, 2, 13, 0, 0, 0, 0, 1, 1); break;         // standing on the way
        case 2: t = mr::AddTrack(&s, conf, id, 1, 10, 2.3, 0, 2); break;              // side by side, gap .3
        case 3: t = mr::AddTrack(&s, conf, id, 1, 10, 1.8, 0, 2); break;              // side by side, overlapping by .2
        case 4: t = mr::AddTrack(&s, conf, id, 3, 17, -9, M_PI / 2, 2.6); break;      // crossing
        case 5: t = mr::AddTrack(&s, conf, id, 1, 10, 6, .3, 0, 0, 9, 9); break;
        case 6: t = mr::AddTrack(&s, conf, id, 1, 17, 2.6, .8, 0, 0, 5, .5); break;
        default: t = mr::AddTrack(&s, conf, id, 1, 10, 0, 0, 2, 0, 20, 20); break;     // contains everything
      }
      return t;
    };
    auto addo = [&] { Track* a = add(10, o1); for (int i = 0; i < 3; ++i) if (m1 >> (i + 1) & 1) a->mutable_states(mr::TStep(conf, i))->set_valid(false); if (m1 & 1) a->mutable_states(1)->set_valid(false); Track* b = add(11, o2); if (m2 & 1) b->mutable_states(1)->set_valid(false); if (m2 & 8) b->mutable_states(mr::TStep(conf, 2))->set_valid(false); };
    if (other_first) addo();
    const int me = s.tracks_size(); mr::AddTrack(&s, conf, 1, 1, 10, 0, 0, 2); mr::AddTrack(&s, conf, 2, 1, 10, -14, 0, 2);
    if (!other_first) addo();
    Require(&s, pair ? V{me, me + 1} : V{me}); ScenarioPredictions p; p.set_scenario_id("s"); auto* mm = p.add_multi_modal_predictions();
    for (int i = 0; i < n; ++i) {
      auto* j = mm->add_joint_predictions(); j->set_confidence(cfs[cfk][i]);
      const int k = ego == 0 ? 0 : ego == 1 ? i : 1 - i;
      mr::AddTraj(j, conf, s.tracks(me), [k](int st) { return k ? std::make_pair(-.5 * st, -6.) : std::make_pair(0., .02 * st); });
      if (pair) mr::AddTraj(j, conf, s.tracks(me + 1), [i](int st) { return std::make_pair(.1, i ? 12.4 : 0.1 * st); });
    }
    mr::Ref e; Run(c, conf, p, s, true, &e); c.outcome(e.empty() ? "-" : e.begin()->second.ovl.total > 0 ? "overlap" : "none");
  });
  m.family("crowds", "one group of g objects (1,3,5,9) with n predictions (7,20,40), at most K counted (6,n), confidences rising, falling, all equal or in two values, which predictions are good: none, the first, the last, every third, all; objects of different types; 0 or 30 other objects, the last of them in the way or not; some last states missing", [=](mc::Ctx& c) {
    const int g = c.pick(V{1, 3, 5, 9}), n = c.pick(V{7, 20, 40}), K = c.flip() ? 6 : n, cf = c.choose(4), good = c.choose(5), oth = c.choose(3), miss = c.choose(2);
    if (!c.go()) return;
    const auto conf = Cfg(0, K); Scenario s; s.set_scenario_id("s"); V idx;
    for (int i = 0; i < g; ++i) { Track* t = mr::AddTrack(&s, conf, 100 - i, 1 + (i * 2 + 1) % 3 % (i ? 3 : 1), 300 * i, 0, .3 * i, 3 + i, i == 1 ? .2 : 0); if (miss && i == g / 2) t->mutable_states(mr::TStep(conf, 2))->set_valid(false); idx.push_back(i); }
    for (int i = 0; i < (oth ? 30 : 0); ++i) mr::AddTrack(&s, conf, 1000 + i, 2, oth == 2 && i == 29 ? 4 : 100 * i, oth == 2 && i == 29 ? 0 : 900, 0, 0);
    Require(&s, idx); ScenarioPredictions p; p.set_scenario_id("s"); auto* mm = p.add_multi_modal_predictions();
    for (int i = 0; i < n; ++i) {
      auto* j = mm->add_joint_predictions(); j->set_confidence(cf == 0 ? .01f * (i + 1) : cf == 1 ? 1 - .01f * i : cf == 2 ? .5f : i % 2 ? .3f : .6f);
      const bool ok = good == 1 ? i == 0 : good == 2 ? i == n - 1 : good == 3 ? i % 3 == 0 : good == 4;
      for (int q = 0; q < g; ++q) { const int o = (q + i) % g; const double e = .02 * i; mr::AddTraj(j, conf, s.tracks(o), [=](int st) { return ok || o != g - 1 ? std::make_pair(.1 + e * .1, .1) : std::make_pair(20. + e + st, 9.); }); }
    }
    Run(c, conf, p, s, true); c.outcome("g" + std::to_string(g) + " n" + std::to_string(n));
  });
  m.family("average precision of many", "n samples (17,40,300) with confidences in 1, 3 or n values (rising, falling, shuffled), true positives every 1st..5th or in the second half, n to 2n ground truths", [=](mc::Ctx& c) {
    const int n = c.pick(V{17, 40, 300}), vals = c.choose(3), ord = c.choose(3), tpk = c.choose(6), ex = c.choose(3); mr::Bucket b; PredictionStats st; int tp = 0;
    if (!c.go()) return;
    for (int i = 0; i < n; ++i) { const int k = ord == 0 ? i : ord == 1 ? n - 1 - i : (i * 7 + 3) % n; const float cf = vals == 0 ? .5f : vals == 1 ? .2f * (k % 3) : k / 300.f; const bool t = tpk < 5 ? i % (tpk + 1) == 0 : i >= n / 2; tp += t; b.s.insert({cf, t}); st.samples.push_back(PredictionSample(cf, t)); }
    b.n = tp + ex * n / 2; st.num_trajectories = b.n;
    const double e = mr::AP(b), g = ComputeMeanAveragePrecision(&st); c.step();
    std::string ds = std::to_string(n) + " samples values " + std::to_string(vals) + " order " + std::to_string(ord) + " true " + std::to_string(tpk) + " of " + std::to_string(b.n);
    if (std::fabs(e - g) > 1e-5) c.fail("ap", "average precision " + std::to_string(g) + ", expected " + std::to_string(e) + " for " + ds);
    c.state(mc::HashStr(ds)); c.outcome(std::to_string((int)(e * 10))); c.sample([&] { return ds; });
  });
  m.family("average precision", "all lists of up to 5 (thorough 6) samples over 3 confidences, all ground truth counts", [=](mc::Ctx& c) {
    const int n = c.choose((th ? 6 : 5) + 1); mr::Bucket b; PredictionStats st; int tp = 0;
    for (int i = 0; i < n; ++i) { const int x = c.choose(6); const float cf = x / 2 * .3f - .2f; const bool t = x & 1; tp += t; b.s.insert({cf, t}); st.samples.push_back(PredictionSample(cf, t)); }
    b.n = std::max(1, tp) + c.choose(3); st.num_trajectories = b.n;
    if (!c.go()) return;
    MeanAveragePrecisionStats ms; ms.pr_buckets.resize(4); ms.pr_buckets[2] = st; ms.pr_buckets[3].samples = {PredictionSample(.5, true), PredictionSample(.7, false)}; ms.pr_buckets[3].num_trajectories = 1;
    const double e = b.s.empty() ? 0 : mr::AP(b), g = ComputeMeanAveragePrecision(&st), mg = ComputeMapMetric(&ms), em = b.s.empty() ? .5 : (e + .5) / 2; c.step(2);
    auto show = [&] { std::ostringstream o; for (auto& x : b.s) o << " " << x.first << (x.second ? "+" : "-"); o << " of " << b.n; return o.str(); };
    if (std::fabs(e - g) > 1e-5) c.fail("ap", "average precision " + std::to_string(g) + ", expected " + std::to_string(e) + " for" + show());
    if (std::fabs(em - mg) > 1e-5) c.fail("map", "mean over shapes " + std::to_string(mg) + ", expected " + std::to_string(em) + " for" + show());
    c.state(show()); c.sample(show); c.outcome(std::to_string((int)(e * 10)));
  });
  // accumulation
  struct Case { Scenario s; ScenarioPredictions p; mr::Ref r; };
  static std::vector<Case> cases; static const auto conf = Cfg(0, 3);
  for (int i = 0; i < 7; ++i) {
    Case k; k.s.set_scenario_id("s" + std::to_string(i)); k.p.set_scenario_id(k.s.scenario_id());
    const int no = i == 5 ? 0 : 1 + i % 3; std::vector<int> idx;
    for (int o = 0; o < no; ++o) {
      Track* t = mr::AddTrack(&k.s, conf, 10 + o, 1 + (i + o) % 3, 40 * o, 5 * i, i, 3 + 2 * o, i % 2 ? .3 * o - .3 : 0); idx.push_back(o);
      auto* mm = k.p.add_multi_modal_predictions();
      for (int q = 0; q < 1 + (i + o) % 4; ++q) { auto* j = mm->add_joint_predictions(); j->set_confidence(.1f + .2f * ((i * 3 + q * 2 + o) % 5)); mr::AddTraj(j, conf, *t, Kind((i + 3 * q + o) % 7, 3)); }
      if (i == 3 || (i == 4 && o == 1)) for (int z = 2; z < 8; ++z) if (i == 3 ? z > 5 : true) t->mutable_states(z)->set_valid(false);
    }
    for (int o = no; o-- > 0;) k.s.add_tracks_to_predict()->set_track_index(o);
    k.r = mr::Compute(conf, k.p, k.s, nullptr); cases.push_back(k);
  }
  m.family("long accumulation", "100 and 700 scenarios in every periodic pattern of three of 7 scenarios, merged one by one or in halves: statistics equal the union, metrics equal the definitions", [=](mc::Ctx& c) {
    const int n = c.flip() ? 700 : 100, a = c.choose(7), b = c.choose(7), d = c.choose(7), way = c.choose(2); if (n == 700 && b != d && !th) return;
    if (!c.go()) return;
    mr::Ref e; std::vector<BucketedMetricsStats> rs(7); for (int i : {a, b, d}) { rs[i] = BucketedMetricsStats(); const Status st = ComputeMetricsStats(conf, cases[i].p, cases[i].s, &rs[i]); c.step(); if (!st.ok()) return c.fail("rejected", std::to_string(i)); }
    std::vector<BucketedMetricsStats> lv; BucketedMetricsStats total;
    for (int i = 0; i < n; ++i) { const int k = i % 3 == 0 ? a : i % 3 == 1 ? b : d; mr::Merge(&e, cases[k].r); if (way) lv.push_back(rs[k]); else total.Accumulate(rs[k]); }
    if (way) { while (lv.size() > 1) { std::vector<BucketedMetricsStats> nx; for (size_t i = 0; i < lv.size(); i += 2) { BucketedMetricsStats t = lv[i]; if (i + 1 < lv.size()) t.Accumulate(lv[i + 1]); nx.push_back(t); } lv = nx; } total = lv[0]; }
    c.step(n); const std::string ds = std::to_string(n) + " scenarios " + mc::Str(V{a, b, d}) + (way ? " in halves" : " one by one");
    const std::string r = mr::Diff(total, e, true); if (!r.empty()) return c.fail("merge", "accumulated statistics: " + r.substr(0, 300) + " for " + ds);
    auto mets = ComputeMotionMetrics(&total); if ((size_t)mets.metrics_bundles_size() != e.size()) return c.fail("bundles", ds);
    for (auto& q : mets.metrics_bundles()) {
      auto it = e.find({q.object_filter(), q.measurement_step()}); if (it == e.end()) return c.fail("bundles", ds); const mr::One& x = it->second; auto ne = [](double u, double v) { return std::fabs(u - v) > 1e-4 * (1 + std::fabs(v)); };
      if (ne(q.min_ade(), x.ade.Mean()) || ne(q.min_fde(), x.fde.Mean()) || ne(q.miss_rate(), x.miss.Mean()) || ne(q.overlap_rate(), x.ovl.Mean()) || ne(q.mean_average_precision(), mr::MAP(x.ap)) || ne(q.soft_mean_average_precision(), mr::MAP(x.soft))) return c.fail("result", q.ShortDebugString() + " for " + ds);
    }
    c.state(mc::HashStr(ds)); c.outcome(std::to_string(n)); c.sample([&] { return ds; });
  });
  m.family("accumulation", "all sequences of up to 4 (thorough 5) of 7 scenarios, merged left to right, right to left, in pairs, through types, and through the one-call interface", [=](mc::Ctx& c) {
    const int n = c.choose(th ? 6 : 5); V ix; for (int i = 0; i < n; ++i) ix.push_back(c.choose(cases.size())); const int way = c.choose(4);
    if (!c.go()) return;
    mr::Ref e; for (int i : ix) mr::Merge(&e, cases[i].r);
    auto one = [&](int i, BucketedMetricsStats* r) { const Status st = ComputeMetricsStats(conf, cases[i].p, cases[i].s, r); c.step(); if (!st.ok()) c.fail("rejected", "scenario " + std::to_string(i) + ": " + std::string(st.message())); return st.ok(); };
    BucketedMetricsStats total; MotionMetrics mets;
    if (way == 0) { for (int i : ix) { BucketedMetricsStats r; if (!one(i, &r)) return; total.Accumulate(r); } }
    else if (way == 1) { for (int i : V(ix.rbegin(), ix.rend())) if (!one(i, &total)) return; }     // straight into the total
    else if (way == 2) { for (size_t i = 0; i < ix.size(); i += 2) { BucketedMetricsStats pr; for (size_t q = i; q < std::min(ix.size(), i + 2); ++q) { BucketedMetricsStats r; if (!one(ix[q], &r)) return; pr.Accumulate(r); } BucketedMetricsStats nt; nt.Accumulate(pr); nt.Accumulate(total); total = nt; } }
    else {
      std::set<int> u(ix.begin(), ix.end()); if (u.size() != ix.size()) return;
      absl::flat_hash_map<std::string, ScenarioPredictions> ps; absl::flat_hash_map<std::string, Scenario> ss; for (int i : ix) ps[cases[i].s.scenario_id()] = cases[i].p; for (auto& k : cases) ss[k.s.scenario_id()] = k.s;
      const Status st = ComputeMotionMetrics(conf, ps, ss, &mets); c.step(); if (!st.ok()) return c.fail("rejected", "the one-call interface rejects the scenarios: " + std::string(st.message()));
    }
    if (way < 3) {
      const std::string d = mr::Diff(total, e, true); if (!d.empty()) return c.fail("merge", "accumulated statistics: " + d + " for scenarios " + mc::Str(ix) + " merged in way " + std::to_string(way));
      mr::Ref et; for (auto& [k, x] : e) { mr::Ref one; one[{0, k.second}] = x; mr::Merge(&et, one); }
      BucketedMetricsStats acc; for (auto& [s, x] : total.AccumulateAcrossTypes()) acc.stats[Track::TYPE_UNSET][s] = x;
      const std::string d2 = mr::Diff(acc, et, true); if (!d2.empty()) return c.fail("types", "statistics over all types: " + d2 + " for scenarios " + mc::Str(ix));
      mets = ComputeMotionMetrics(&total);
    }
    if ((size_t)mets.metrics_bundles_size() != e.size()) return c.fail("bundles", std::to_string(mets.metrics_bundles_size()) + " result entries, expected " + std::to_string(e.size()) + " for scenarios " + mc::Str(ix));
    for (auto& b : mets.metrics_bundles()) {
      auto it = e.find({b.object_filter(), b.measurement_step()}); if (it == e.end()) return c.fail("bundles", "unexpected result entry " + b.ShortDebugString());
      const mr::One& x = it->second; auto ne = [](double a, double q) { return std::fabs(a - q) > 1e-4 * (1 + std::fabs(q)); };
      const double ap = mr::MAP(x.ap), so = mr::MAP(x.soft);
      if (ne(b.min_ade(), x.ade.Mean()) || ne(b.min_fde(), x.fde.Mean()) || ne(b.miss_rate(), x.miss.Mean()) || ne(b.overlap_rate(), x.ovl.Mean()) || ne(b.mean_average_precision(), ap) || ne(b.soft_mean_average_precision(), so)) { std::ostringstream o; o << b.ShortDebugString() << ", expected ade " << x.ade.Mean() << " fde " << x.fde.Mean() << " miss " << x.miss.Mean() << " overlap " << x.ovl.Mean() << " map " << ap << " soft " << so << " for scenarios " << mc::Str(ix) << " way " << way; return c.fail("result", o.str()); }
    }
    c.state(mc::HashStr(mc::Str(ix)) + way); c.outcome("way " + std::to_string(way)); c.sample([&] { return mc::Str(ix) + " way " + std::to_string(way); });
  });
  return m.run();
}
