// C13: malformed motion requests are rejected, well-formed ones accepted and evaluated; submissions convert without loss.
#include "motionref.h"
using V = std::vector<int>;
enum Verdict { vOk, vBad, vEither };
static const float kNan = std::nanf(""), kInf = std::numeric_limits<float>::infinity();
static const char* kGroup[] = {"fine", "x short", "y short", "too long", "empty trajectory", "unknown object", "group missing", "group without predictions", "prediction without trajectories", "first prediction without trajectories", "second prediction without trajectories", "second prediction of another object", "object twice in a prediction", "NaN position", "infinite position", "NaN confidence", "more predictions than counted", "one step short in the second prediction", "infinite confidence", "second prediction adds an object", "x too long", "y too long", "x too long and y short"};
static const int kNG = 23;
// group for track t; o: another object that is in the scenario
static Verdict Group(ScenarioPredictions* p, const MotionMetricsConfig& cf, const Track& t, const Track& o, int d, std::set<int>* ids) {
  if (d == 6) return vOk;
  auto* mm = p->add_multi_modal_predictions();
  if (d == 7) return vEither;
  Verdict v = vOk;
  const int n = d == 16 ? 4 : 2;
  for (int i = 0; i < n; ++i) {
    auto* j = mm->add_joint_predictions(); j->set_confidence(.2f + .3f * (i % 3));
    if (d == 8 || (d == 9 && i == 0) || (d == 10 && i == 1)) continue;
    mr::AddTraj(j, cf, d == 11 && i == 1 ? o : t, [i](int s) { return std::make_pair(.1 * s, .4 * i); });
    auto* x = j->mutable_trajectories(0); const int L = x->center_x_size();
    if (d == 20 || (d == 22 && i == 1)) x->add_center_x(2);
    if (d == 21) x->add_center_y(2);
    if (d == 22 && i == 1) x->mutable_center_y()->Truncate(L - 1);
    if (d == 5) x->set_object_id(555);
    ids->insert(x->object_id());
    if (d == 1) x->mutable_center_x()->Truncate(L - 1);
    if (d == 2) x->mutable_center_y()->Truncate(L - 1);
    if (d == 3) { x->add_center_x(1); x->add_center_y(1); }
    if (d == 4) { x->clear_center_x(); x->clear_center_y(); }
    if (d == 12 || (d == 19 && i == 1)) { mr::AddTraj(j, cf, d == 12 ? t : o, [](int) { return std::make_pair(0., 0.); }); ids->insert((d == 12 ? t : o).id()); }
    if (d == 13 && i == 1) x->set_center_x(L / 2, kNan);
    if (d == 14 && i == 0) x->set_center_y(L - 1, -kInf);
    if (d == 15 && i == 1) j->set_confidence(kNan);
    if (d == 18 && i == 0) j->set_confidence(kInf);
    if (d == 17 && i == 1) { x->mutable_center_x()->Truncate(L - 1); x->mutable_center_y()->Truncate(L - 1); }
  }
  switch (d) { case 0: case 16: return v; case 8: return vEither; case 18: return vEither; default: return vBad; }
}
static const char* kConfig[] = {"fine", "prediction rate above track rate", "not a multiple", "prediction rate 0", "both rates 0", "negative prediction rate", "step past the end", "step equal to the length", "negative step", "no counted predictions", "negative counted predictions", "speed bounds swapped", "negative history", "no steps"};
static const int kNC = 14;
static Verdict Conf(MotionMetricsConfig* c, int d) {
  switch (d) {
    case 1: c->set_prediction_steps_per_second(4); break;
    case 2: c->set_track_steps_per_second(5); c->set_prediction_steps_per_second(2); break;
    case 3: c->set_prediction_steps_per_second(0); break;
    case 4: c->set_prediction_steps_per_second(0); c->set_track_steps_per_second(0); break;
    case 5: c->set_prediction_steps_per_second(-1); break;
    case 6: c->mutable_step_configurations(1)->set_measurement_step(4); break;
    case 7: c->mutable_step_configurations(1)->set_measurement_step(3); break;
    case 8: c->mutable_step_configurations(0)->set_measurement_step(-1); break;
    case 9: c->set_max_predictions(0); return vEither;
    case 10: c->set_max_predictions(-2); break;
    case 11: c->set_speed_lower_bound(12); break;
    case 12: c->set_track_history_samples(-1); break;
    case 13: c->clear_step_configurations(); return vOk;
    default: return vOk;
  }
  return vBad;
}
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  m.family("requests", "every combination of 14 configurations x scenario id x 6 lists of objects to predict x 6 track lengths x leading empty group x 23 x 23 prediction group deviations (quick: at most 3 of the 7 aspects deviate)", [=](mc::Ctx& c) {
    int dev = 0; auto ch = [&](int n) { const int x = th || dev < 3 ? c.choose(n) : 0; dev += x > 0; return x; };
    const int g0 = ch(kNG), g1 = ch(kNG), cd = ch(kNC), tp = ch(6), tl = ch(6), lead = ch(3), sid = ch(2);
    if (!c.go()) return;
    auto base = mr::Config(2, 1, 1, 6, {0, 2}, 3);
    Scenario s; s.set_scenario_id("s"); ScenarioPredictions p; p.set_scenario_id(sid ? "t" : "s");
    mr::AddTrack(&s, base, 40, 1, -80, 0, 0, 3); mr::AddTrack(&s, base, 7, 1, 0, 0, .4, 8, .1); mr::AddTrack(&s, base, 9, 3, 60, 0, 2.4, 5); mr::AddTrack(&s, base, 0, 2, 60, 90, 1.4, 1);
    const Track t1 = s.tracks(1), t2 = s.tracks(2);
    static const std::vector<V> lists = {{1, 2}, {2, 1, 1}, {1, 4}, {-1, 2}, {1}, {1, 2, 3}};
    for (int i : lists[tp]) s.add_tracks_to_predict()->set_track_index(i);
    std::set<int> ids, req; bool bad = false, either = false;
    for (int i : lists[tp]) { if (i < 0 || i > 3) bad = true; else req.insert(s.tracks(i).id()); }
    auto note = [&](Verdict v) { bad |= v == vBad; either |= v == vEither; };
    if (lead == 1) { p.add_multi_modal_predictions(); either = true; }
    if (lead == 2) { p.add_multi_modal_predictions()->add_joint_predictions(); either = true; }
    note(Group(&p, base, t1, t2, g0, &ids)); note(Group(&p, base, t2, t1, g1, &ids));
    auto cf = base; note(Conf(&cf, cd));
    if (tl) { auto cut = [&](int i, int n) { auto* x = s.mutable_tracks(i)->mutable_states(); while (x->size() > n) x->RemoveLast(); while (x->size() < n) *x->Add() = x->Get(0); };
      static const int tr[6] = {0, 2, 1, 0, 0, 3}, len[6] = {0, 7, 9, 5, 0, 1}; cut(tr[tl], len[tl]); bad = true; }
    if (sid) bad = true;
    if (ids != req) bad = true;
    const Verdict v = bad ? vBad : either ? vEither : vOk;
    BucketedMetricsStats r; const Status st = ComputeMetricsStats(cf, p, s, &r); c.step();
    auto what = [&] { return "configuration: " + std::string(kConfig[cd]) + "; first group: " + kGroup[g0] + "; second group: " + kGroup[g1] + "; objects to predict " + mc::Str(lists[tp]) + "; track length variant " + std::to_string(tl) + "; leading empty group " + std::to_string(lead) + "; scenario id " + (sid ? "differs" : "same"); };
    if (st.ok() && v == vBad) {
      std::string k = "accepted"; if (dev == 1) { if (g0 + g1) k += std::string("-") + kGroup[g0 + g1]; if (cd) k += std::string("-") + kConfig[cd]; if (tl) k += "-tracks" + std::to_string(tl); }
      c.fail(k, "malformed request accepted: " + what());
    } else if (!st.ok() && v == vOk) c.fail("rejected", "well-formed request rejected (" + std::string(st.message()).substr(0, 150) + "): " + what());
    else if (st.ok() && cd != 9 && g0 != 18 && g1 != 18) { const mr::Ref e = mr::Compute(cf, p, s, nullptr); const std::string d = mr::Diff(r, e, true); if (!d.empty()) c.fail("miscomputed", d + " for " + what()); }
    c.outcome(st.ok() ? "accepted" : "rejected"); c.state(what()); if (dev > 1) c.sample(what);
  });
  m.family("conversion", "all submissions with up to 2 objects (or 3 joint predictions) x trajectory counts x lengths x confidences, single and joint", [=](mc::Ctx& c) {
    const int kind = c.choose(3), n = c.choose(th ? 4 : 3); ChallengeScenarioPredictions in; in.set_scenario_id("id" + std::to_string(n)); bool bad = kind == 2; ScenarioPredictions e; e.set_scenario_id(in.scenario_id());
    int serial = 1;
    auto traj = [&](Trajectory* t, SingleTrajectory* o) { static const V lens = {0, 1, 3, 16}; const int l = c.choose(5); const int nx = l == 4 ? 3 : lens[l], ny = l == 4 ? 2 : lens[l]; bad |= nx != ny; for (int i = 0; i < nx; ++i) { t->add_center_x(serial); o->add_center_x(serial++); } for (int i = 0; i < ny; ++i) { t->add_center_y(-serial); o->add_center_y(-serial++); } };
    if (kind == 0) { auto* ps = in.mutable_single_predictions(); for (int i = 0; i < n; ++i) { auto* p = ps->add_predictions(); p->set_object_id(i * 7 + 3); auto* mm = e.add_multi_modal_predictions(); const int k = c.choose(3); for (int q = 0; q < k; ++q) { auto* t = p->add_trajectories(); auto* j = mm->add_joint_predictions(); t->set_confidence(.5 - q + i); j->set_confidence(.5 - q + i); auto* o = j->add_trajectories(); o->set_object_id(i * 7 + 3); traj(t->mutable_trajectory(), o); } } }
    if (kind == 1) { auto* jp = in.mutable_joint_prediction(); auto* mm = e.add_multi_modal_predictions(); for (int i = 0; i < n; ++i) { auto* t = jp->add_joint_trajectories(); auto* j = mm->add_joint_predictions(); t->set_confidence(.25 * i); j->set_confidence(.25 * i); static const V ks = {2, 1, 3, 0}; const int k = ks[c.choose(i ? 2 : 4)]; bad |= k != 2; for (int q = 0; q < k; ++q) { auto* x = t->add_trajectories(); auto* o = j->add_trajectories(); x->set_object_id(9 - q * 4 + i); o->set_object_id(9 - q * 4 + i); if (q < 2) traj(x->mutable_trajectory(), o); } } }
    if (!c.go()) return;
    ScenarioPredictions r; const Status st = ConvertChallengePredictions(in, &r); c.step();
    if (st.ok() && bad) return c.fail("convert-accepted", "malformed submission converted: " + in.ShortDebugString().substr(0, 500));
    if (!st.ok() && !bad) return c.fail("convert-rejected", "well-formed submission rejected: " + in.ShortDebugString().substr(0, 500));
    if (st.ok() && r.SerializeAsString() != e.SerializeAsString()) return c.fail("convert", "submission " + in.ShortDebugString().substr(0, 500) + " converted to " + r.ShortDebugString().substr(0, 500));
    c.state(in.SerializeAsString()); c.outcome(st.ok() ? "converted" : "rejected");
    for (int t = 0; t < 3; ++t) if (st.ok()) {
      bool b2 = t == 0; if (t == 2 && r.multi_modal_predictions_size() > 1) b2 = true;
      for (auto& mm : r.multi_modal_predictions()) for (auto& j : mm.joint_predictions()) if (j.trajectories_size() != t) b2 = true;
      const bool ok = ValidateChallengePredictions(r, (MotionChallengeSubmission::SubmissionType)t).ok(); c.step();
      if (ok == b2) return c.fail("challenge", std::string(ok ? "accepted" : "rejected") + " as submission type " + std::to_string(t) + ": " + r.ShortDebugString().substr(0, 500));
    }
  });
  m.family("challenge format", "all groupings of up to 2 groups x 2 predictions x 0-3 trajectories, all submission types", [=](mc::Ctx& c) {
    const int t = c.choose(3), n = c.choose(3); ScenarioPredictions r; bool bad = t == 0 || (t == 2 && n > 1);
    for (int i = 0; i < n; ++i) { auto* mm = r.add_multi_modal_predictions(); for (int q = c.choose(3); q-- > 0;) { auto* j = mm->add_joint_predictions(); const int k = c.choose(4); for (int z = 0; z < k; ++z) j->add_trajectories()->set_object_id(z); bad |= k != t; } }
    if (!c.go()) return;
    const bool ok = ValidateChallengePredictions(r, (MotionChallengeSubmission::SubmissionType)t).ok(); c.step();
    if (ok == bad) c.fail("challenge", std::string(ok ? "accepted" : "rejected") + " as submission type " + std::to_string(t) + ": " + r.ShortDebugString());
    c.state(r.SerializeAsString()); c.outcome(ok ? "accepted" : "rejected");
  });
  return m.run();
}
