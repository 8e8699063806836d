// C32: command line tools that evaluate detections and tracks and prepare submissions.
#include <cmath>
#include <csignal>
#include <iostream>
#include <map>
#include <set>
#include "google/protobuf/text_format.h"
#include "google/protobuf/util/message_differencer.h"
#include "waymo_open_dataset/dataset.pb.h"
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
#include "waymo_open_dataset/protos/breakdown.pb.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
#include "waymo_open_dataset/protos/submission.pb.h"
#include "mc.h"
#include "tools_run.h"
using namespace waymo::open_dataset;
int tool_det_main(int, char**); int tool_let_main(int, char**); int tool_trk_main(int, char**); int tool_sub_main(int, char**);

static Config Ref(int tool) {   // 0 detection, 1 longitudinal error tolerant, 2 tracking
  Config c;
  for (auto id : {Breakdown::OBJECT_TYPE, Breakdown::RANGE, Breakdown::CAMERA}) {
    if (id == Breakdown::CAMERA && tool != 1) continue;
    c.add_breakdown_generator_ids(id); auto* d = c.add_difficulties(); if (tool != 1) d->add_levels(Label::LEVEL_1); d->add_levels(Label::LEVEL_2);
  }
  c.set_matcher_type(MatcherProto::TYPE_HUNGARIAN); c.set_box_type(Label::Box::TYPE_3D);
  const double t[2][5] = {{0, .7, .5, .5, .5}, {0, .5, .3, .3, .3}}; for (double x : t[tool == 1]) c.add_iou_thresholds(x);
  for (int i = 0; i < 100; ++i) c.add_score_cutoffs(i * 0.01); c.add_score_cutoffs(1.0);
  if (tool == 1) { auto* l = c.mutable_let_metric_config(); l->set_enabled(true); l->set_align_type(Config::LongitudinalErrorTolerantConfig::TYPE_RANGE_ALIGNED); l->set_longitudinal_tolerance_percentage(.1); l->set_min_longitudinal_tolerance_meter(.5); l->mutable_sensor_location()->set_x(1.43); l->mutable_sensor_location()->set_y(0); l->mutable_sensor_location()->set_z(2.18); }
  return c;
}
using Key = std::pair<std::string, int64_t>;
struct Where { const char* ctx; int64_t ts; int cam; };
static const Where kWhere[] = {{"a", 100, 0}, {"a", 200, 0}, {"b", 100, 0}, {"a", 100, 1}, {"a_1", 100, 0}};
static Object At(const Where& w, int type, double x, double y, double heading = 0) {
  Object o; o.set_context_name(w.ctx); o.set_frame_timestamp_micros(w.ts); if (w.cam) o.set_camera_name((CameraName::Name)w.cam);
  auto* l = o.mutable_object(); l->set_type((Label::Type)type); auto* b = l->mutable_box(); b->set_center_x(x); b->set_center_y(y); b->set_center_z(0); b->set_length(4); b->set_width(2); b->set_height(1.5); b->set_heading(heading); return o;
}
static std::map<std::string, std::vector<double>> Lines(const std::string& s) {
  std::map<std::string, std::vector<double>> r; std::istringstream is(s); std::string l;
  while (std::getline(is, l)) { const size_t q = l.find(": ["); if (q == std::string::npos) continue; auto& v = r[l.substr(0, q)]; for (size_t p = q; (p = l.find('[', p)) != std::string::npos;) { const size_t e = l.find(']', p); const size_t sp = l.rfind(' ', e); v.push_back(atof(l.c_str() + sp + 1)); p = e; } }
  return r;
}
// Truths as the evaluation should see them.
static std::vector<Object> Seen(int tool, const std::vector<Object>& gt) {
  std::vector<Object> r;
  for (Object o : gt) {
    auto* l = o.mutable_object();
    if (tool != 2) {
      const int n = tool == 1 ? l->num_top_lidar_points_in_box() : l->num_lidar_points_in_box();
      if (n <= 0) continue;
      if (l->detection_difficulty_level() == Label::UNKNOWN) l->set_detection_difficulty_level(n <= 5 ? Label::LEVEL_2 : Label::LEVEL_1);
      if (tool == 1) { if (l->most_visible_camera_name().empty()) continue; *l->mutable_box() = l->camera_synced_box(); }
    }
    r.push_back(o);
  }
  return r;
}
static std::map<std::string, std::vector<double>> Expect(int tool, const std::vector<Object>& pd, const std::vector<Object>& gt0, size_t* frames) {
  const Config cfg = Ref(tool); const std::vector<Object> gt = Seen(tool, gt0); std::map<std::string, std::vector<double>> r; const auto names = GetBreakdownNamesFromConfig(cfg);
  if (tool != 2) {
    std::map<std::tuple<std::string, int, int64_t>, std::pair<std::vector<Object>, std::vector<Object>>> f;
    for (auto& o : pd) f[{o.context_name(), o.camera_name(), o.frame_timestamp_micros()}].first.push_back(o);
    for (auto& o : gt) f[{o.context_name(), o.camera_name(), o.frame_timestamp_micros()}].second.push_back(o);
    std::vector<std::vector<Object>> P, G; for (auto& kv : f) { P.push_back(kv.second.first); G.push_back(kv.second.second); } *frames = f.size();
    const auto m = ComputeDetectionMetrics(cfg, P, G);
    for (size_t i = 0; i < m.size(); ++i) { auto& v = r[names[i]]; if (tool == 1) v = {m[i].mean_average_precision_longitudinal_affinity_weighted(), m[i].mean_average_precision(), m[i].mean_average_precision_ha_weighted()}; else v = {m[i].mean_average_precision(), m[i].mean_average_precision_ha_weighted()}; }
  } else {
    std::map<std::string, std::map<int64_t, std::pair<std::vector<Object>, std::vector<Object>>>> f;
    for (auto& o : pd) f[o.context_name()][o.frame_timestamp_micros()].first.push_back(o);
    for (auto& o : gt) f[o.context_name()][o.frame_timestamp_micros()].second.push_back(o);
    std::vector<std::vector<std::vector<Object>>> P, G; for (auto& s : f) { P.emplace_back(); G.emplace_back(); for (auto& kv : s.second) { P.back().push_back(kv.second.first); G.back().push_back(kv.second.second); } } *frames = f.size();
    const auto m = ComputeTrackingMetrics(cfg, P, G);
    for (size_t i = 0; i < m.size(); ++i) r[names[i]] = {m[i].mota(), m[i].motp(), m[i].miss(), m[i].mismatch(), m[i].fp()};
  }
  return r;
}
static std::string Ser(const std::vector<Object>& v) { Objects o; for (auto& x : v) *o.add_objects() = x; return o.SerializeAsString(); }
static void Judge(mc::Ctx& c, int tool, const std::vector<Object>& pd, const std::vector<Object>& gt, const std::string& what) {
  Scratch s; const std::string g = Ser(gt); if (g.empty()) return;
  const std::string pf = s.put("p", Ser(pd)), gf = s.put("g", g);
  const auto r = RunTool(&s, tool == 0 ? tool_det_main : tool == 1 ? tool_let_main : tool_trk_main, {pf, gf}); c.step();
  size_t frames = 0; const auto e = Expect(tool, pd, gt, &frames); const auto got = Lines(r.out);
  if (e.empty()) { c.outcome("nothing to evaluate"); return; }
  if (r.rc) return c.fail("tool-rc", "the tool ends with " + std::to_string(r.rc) + " for " + what);
  if (got.size() != e.size()) return c.fail("tool-lines", std::to_string(got.size()) + " results, expected " + std::to_string(e.size()) + " for " + what);
  double best = 0;
  for (auto& [k, v] : e) {
    auto it = got.find(k); if (it == got.end() || it->second.size() != v.size()) return c.fail("tool-lines", "no result " + k + " for " + what);
    for (size_t i = 0; i < v.size(); ++i) { best = std::max(best, v[i]); if (!(std::fabs(it->second[i] - v[i]) <= 2e-5) && !(std::isnan(v[i]) && std::isnan(it->second[i]))) return c.fail("tool", k + " value " + std::to_string(i) + ": " + std::to_string(it->second[i]) + ", expected " + std::to_string(v[i]) + " for " + what); }
  }
  c.outcome(best == 0 ? "all zero" : best < .999 ? "between" : "a perfect value"); c.state(what + std::to_string(tool)); c.sample([&] { return what; });
}
static const char* kTool[] = {"detection", "error tolerant", "tracking"};

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  m.family("truth", "one truth: points in the box (none given, 0, 1, 5, 6, 9) x level (none, unknown, 1, 2) x type x range x prediction (none, close, turned, moved) for the detection tools, with camera name and synced box", [=](mc::Ctx& c) {
    const int tool = c.choose(2), pts = c.choose(6), lvl = c.choose(4), type = 1 + c.choose(4), rg = c.choose(3), pred = c.choose(4), cam = tool ? c.choose(3) : 0, other = tool ? c.choose(2) : 0;
    if (!th && pts != 3 && pts != 4 && (type + rg + pred) % 3) return;
    if (!c.go()) return;
    const int np[] = {-1, 0, 1, 5, 6, 9}; const double x = 10 + 25 * rg; Object g = At(kWhere[0], type, x, 1); auto* l = g.mutable_object();
    if (np[pts] >= 0) { if (tool) { l->set_num_top_lidar_points_in_box(np[pts]); if (other) l->set_num_lidar_points_in_box(9 - np[pts]); } else l->set_num_lidar_points_in_box(np[pts]); }
    else if (other) l->set_num_lidar_points_in_box(7);
    if (lvl) l->set_detection_difficulty_level((Label::DifficultyLevel)(lvl - 1));
    if (cam == 1) l->set_most_visible_camera_name("FRONT_LEFT"); else if (cam == 2) l->set_most_visible_camera_name("SIDE_RIGHT");
    if (tool) { *l->mutable_camera_synced_box() = l->box(); l->mutable_camera_synced_box()->set_center_y(6); }
    std::vector<Object> P; if (pred) { P.push_back(At(kWhere[0], type, x + (pred == 3 ? 1.5 : .1), tool ? 6 : 1, pred == 2 ? .5 : 0)); P[0].set_score(pred == 1 ? 1 : .8); if (tool) P[0].mutable_object()->set_most_visible_camera_name("FRONT_LEFT"); }
    // A companion that always counts.
    Object g2 = At(kWhere[1], type, 20, -5); g2.mutable_object()->set_num_lidar_points_in_box(50); g2.mutable_object()->set_num_top_lidar_points_in_box(50); if (tool) { g2.mutable_object()->set_most_visible_camera_name("FRONT"); *g2.mutable_object()->mutable_camera_synced_box() = g2.object().box(); }
    Judge(c, tool, P, {g, g2}, std::string(kTool[tool]) + ": points " + std::to_string(np[pts]) + " level " + std::to_string(lvl - 1) + " type " + std::to_string(type) + " at " + std::to_string((int)x) + " prediction " + std::to_string(pred) + " camera " + std::to_string(cam) + " other count " + std::to_string(other));
  });
  m.family("frames", "up to 3 (thorough 4) truths and predictions at one place in 5 frames (contexts, times, cameras), in every file order, for each tool", [=](mc::Ctx& c) {
    const int tool = c.choose(3); std::vector<int> g, p; const int n = th ? 4 : 3;
    const int ng = 1 + c.choose(n), np = c.choose(n + 1); for (int i = 0; i < ng; ++i) g.push_back(c.choose(5)); for (int i = 0; i < np; ++i) p.push_back(c.choose(5));
    if (std::set<int>(g.begin(), g.end()).size() != g.size() || std::set<int>(p.begin(), p.end()).size() != p.size()) return;
    if (tool == 2) for (auto* v : {&g, &p}) { bool a = false, b = false; for (int x : *v) { a |= x == 0; b |= x == 3; } if (a && b) return; }
    if (!th && ng + np >= 5 && (g[0] + 2 * p[1] + g[1] + tool) % 3) return;
    if (!c.go()) return;
    std::vector<Object> G, P;
    for (int x : g) { Object o = At(kWhere[x], 1, 12, 1); auto* l = o.mutable_object(); l->set_id("g"); l->set_num_lidar_points_in_box(9); l->set_num_top_lidar_points_in_box(9); if (tool == 1) { l->set_most_visible_camera_name("FRONT"); *l->mutable_camera_synced_box() = l->box(); } G.push_back(o); }
    for (size_t i = 0; i < p.size(); ++i) { Object o = At(kWhere[p[i]], 1, 12.1, 1); o.mutable_object()->set_id(i == 1 ? "q" : "p"); o.set_score(.9f - .1f * i); P.push_back(o); }
    Judge(c, tool, P, G, std::string(kTool[tool]) + ": truths in frames " + mc::Str(g) + " predictions in frames " + mc::Str(p));
  });
  m.family("order", "tracking over 4 times of one context: every assignment of two track ids (or none) to the times, truths at all or all but one, predictions in 8 (thorough 24) and truths in 2 file orders", [=](mc::Ctx& c) {
    int id[4]; for (int& x : id) x = c.choose(3); const int miss = c.choose(5), pp = c.choose(th ? 24 : 8), gp = c.choose(2);
    if (!th && gp && pp % 2) return;
    if (!c.go()) return;
    std::vector<int> perm = {0, 1, 2, 3}; for (int k = th ? pp : pp * 3 + pp % 3; k > 0; --k) std::next_permutation(perm.begin(), perm.end());
    std::vector<Object> G, P;
    for (int t : perm) if (id[t]) { Object o = At(kWhere[0], 1, 12.1 + t, 1); o.set_frame_timestamp_micros(100 + 5 * t); o.mutable_object()->set_id(id[t] == 1 ? "p" : "q"); o.set_score(.9f); P.push_back(o); }
    for (int k = 0; k < 4; ++k) { const int t = gp ? 3 - k : k; if (t + 1 == miss) continue; Object o = At(kWhere[0], 1, 12 + t, 1); o.set_frame_timestamp_micros(100 + 5 * t); o.mutable_object()->set_id("g"); o.mutable_object()->set_detection_difficulty_level(Label::LEVEL_1); G.push_back(o); }
    Judge(c, 2, P, G, "tracks " + mc::Str(std::vector<int>(id, id + 4)) + " missing truth " + std::to_string(miss - 1) + " file order " + mc::Str(perm) + " truths reversed " + std::to_string(gp));
  });
  m.family("broken", "files that cannot be parsed, missing files and arguments", [=](mc::Ctx& c) {
    const int tool = c.choose(3), kind = c.choose(5);
    if (!c.go()) return;
    Scratch s; Object o = At(kWhere[0], 1, 12, 1); o.mutable_object()->set_num_lidar_points_in_box(9); o.mutable_object()->set_id("x");
    const std::string good = s.put("good", Ser({o})), bad = s.put("bad", std::string("\x0a\xff\xff", 3)), none = s.dir + "/none";
    const std::vector<std::string> a = kind == 0 ? std::vector<std::string>{bad, good} : kind == 1 ? std::vector<std::string>{good, bad} : kind == 2 ? std::vector<std::string>{good, none} : kind == 3 ? std::vector<std::string>{good} : std::vector<std::string>{};
    const auto r = RunTool(&s, tool == 0 ? tool_det_main : tool == 1 ? tool_let_main : tool_trk_main, a); c.step();
    if (!Lines(r.out).empty()) c.fail("broken", std::string(kTool[tool]) + ": results from a file that cannot be read, kind " + std::to_string(kind));
    if (kind > 1 && r.rc == 0) c.fail("broken", std::string(kTool[tool]) + ": success without ground truth, kind " + std::to_string(kind));
    c.outcome("no results"); c.state(std::to_string(tool * 9 + kind));
  });
  m.family("submission", "up to 2 files of up to 2 (thorough 3) objects (scores, sizes, NaN fields, last bytes) x 1..3 shards x trailing newline", [=](mc::Ctx& c) {
    const int files = 1 + c.choose(2), shards = 1 + c.choose(3); const bool nl = c.flip(); const int meta = c.choose(2);
    std::vector<std::vector<int>> f(files); int total = 0; for (auto& v : f) { const int n = c.choose(th ? 4 : 3); for (int i = 0; i < n; ++i) v.push_back(c.choose(19)); total += n; }
    if (!th && files == 2 && total == 4 && (f[0][0] + 3 * f[0][1] + 5 * f[1][0] + 7 * f[1][1] + shards) % 131) return;
    if (!th && total == 3 && (f[0][0] + shards + nl + 2 * meta) % 11) return;
    if (!c.go()) return;
    Scratch s; std::vector<std::string> names; std::multiset<std::string> want; std::string what = std::to_string(shards) + " shards, newline " + std::to_string(nl) + ", objects";
    int id = 0; bool ends10 = false;
    for (auto& v : f) {
      std::vector<Object> in; what += " " + mc::Str(v);
      for (int k : v) {
        Object o = At(kWhere[id % 5], 1 + id % 4, 5 + id, 1, .3); o.mutable_object()->set_id("o" + std::to_string(id++)); auto* b = o.mutable_object()->mutable_box(); bool keep = true; const double nan = std::nan("");
        switch (k) {
          case 0: o.set_score(.9); break; case 1: o.set_score(.029f); keep = false; break; case 2: o.set_score(.031f); break; case 3: break;
          case 4: b->set_center_x(nan); break; case 5: b->set_center_y(nan); break; case 6: b->set_center_z(nan); break; case 7: b->set_length(nan); break; case 8: b->set_width(nan); break; case 9: b->set_height(nan); break; case 10: b->set_heading(nan); break;
          case 11: b->set_length(0); break; case 12: b->set_width(-1); break; case 13: b->set_height(5e-7); break; case 14: b->clear_height(); b->clear_heading(); break;
          case 15: o.set_frame_timestamp_micros(10); o.clear_camera_name(); break;   // the encoded object ends with the byte 10
          case 16: o.set_overlap_with_nlz(true); o.set_score(1); break; case 17: o.set_score(0); keep = false; break; case 18: b->set_length(2e-6); b->set_width(1e-5); break;
        }
        if (k >= 4 && k <= 10) keep = false;
        in.push_back(o); if (!keep) continue;
        b->set_length(std::max(b->length(), 1e-6)); b->set_width(std::max(b->width(), 1e-6)); b->set_height(std::max(b->height(), 1e-6)); want.insert(o.SerializeAsString());
      }
      std::string ser = Ser(in); ends10 |= !ser.empty() && ser.back() == '\n'; if (nl) ser += "\n";
      names.push_back(s.put("in" + std::to_string(names.size()), ser));
    }
    Submission sub; sub.set_task(Submission::DETECTION_3D); sub.set_account_name("me@x.org"); sub.set_unique_method_name("m"); sub.add_authors("A"); sub.add_authors("B"); if (meta) { sub.set_sensor_type(Submission::LIDAR_ALL); sub.add_object_types(Label::TYPE_VEHICLE); sub.set_latency_second(.07); sub.set_docker_image_source("d"); sub.set_number_past_frames_exclude_current(2); }
    std::string text; google::protobuf::TextFormat::PrintToString(sub, &text); const std::string sf = s.put("sub", text), out = s.dir + "/out";
    std::string list; for (auto& n : names) list += (list.empty() ? "" : ",") + n;
    for (int i = 0; i < shards; ++i) s.path("out" + std::to_string(i));
    const auto r = RunTool(&s, tool_sub_main, {"--input_filenames=" + list, "--output_filename=" + out, "--num_shards=" + std::to_string(shards), "--submission_filename=" + sf}); c.step();
    if (r.rc) return c.fail("submission-rc", "the tool ends with " + std::to_string(r.rc) + " for " + what);
    std::multiset<std::string> got;
    for (int i = 0; i < shards; ++i) {
      std::string ser; Submission x; if (!Scratch::get(out + std::to_string(i), &ser) || !x.ParseFromString(ser)) return c.fail("submission", "shard " + std::to_string(i) + " missing for " + what);
      for (auto& o : x.inference_results().objects()) got.insert(o.SerializeAsString());
      x.clear_inference_results(); if (x.SerializeAsString() != sub.SerializeAsString()) return c.fail("submission", "shard " + std::to_string(i) + " is of another submission for " + what);
    }
    std::string more; if (Scratch::get(out + std::to_string(shards), &more)) return c.fail("submission", "an extra shard for " + what);
    if (got != want) return c.fail("submission", std::to_string(got.size()) + " objects, or changed ones, instead of " + std::to_string(want.size()) + " for " + what);
    c.outcome("kept " + std::to_string(want.size())); c.state(what); c.sample([&] { return what; });
  });
  m.family("submission-refused", "missing or unusable flags and files", [=](mc::Ctx& c) {
    const int k = c.choose(10);
    if (!c.go()) return;
    Scratch s; const std::string in = s.put("in", Ser({At(kWhere[0], 1, 5, 1)})), bad = s.put("bad", "\x0a\xff\xff"), out = s.dir + "/out", sf = s.put("sub", "account_name: \"a\" unique_method_name: \"m\""), sn = s.put("subn", "account_name: \"a\""), sm = s.put("subm", "unique_method_name: \"m\""), sx = s.put("subx", "colour: 1");
    for (int i = 0; i < 4; ++i) s.path("out" + std::to_string(i));
    std::vector<std::string> a = {"--input_filenames=" + in, "--output_filename=" + out, "--num_shards=2", "--submission_filename=" + sf};
    switch (k) { case 0: break; case 1: a.erase(a.begin()); break; case 2: a.erase(a.begin() + 1); break; case 3: a[2] = "--num_shards=0"; break; case 4: a[2] = "--num_shards=-1"; break; case 5: a.pop_back(); break; case 6: a[3] = "--submission_filename=" + sn; break; case 7: a[3] = "--submission_filename=" + sm; break; case 8: a[3] = "--submission_filename=" + sx; break; case 9: a[0] += "," + bad; break; }
    const auto r = RunTool(&s, tool_sub_main, a); c.step(); std::string x; const bool wrote = Scratch::get(out + "0", &x);
    if ((k == 0) != (r.rc == 0) || (k == 0) != wrote) c.fail("submission-flags", "case " + std::to_string(k) + " ends with " + std::to_string(r.rc) + (wrote ? ", files written" : ", nothing written"));
    c.outcome(r.rc ? "refused" : "accepted"); c.state(std::to_string(k));
  });
  return m.run();
}
