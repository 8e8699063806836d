// C33: comparison of latency results with a submission.
#include <algorithm>
#include <cmath>
#include <csignal>
#include <iostream>
#include <map>
#include <set>
#include "waymo_open_dataset/dataset.pb.h"
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
#include "waymo_open_dataset/protos/submission.pb.h"
#include "mc.h"
#include "tools_run.h"
using namespace waymo::open_dataset;
int tool_cmp_main(int, char**);

struct Item { double x, z, score; int type; int frame; int place; };
struct Place { std::string ctx; int64_t ts; int cam; };
static std::vector<Place> Frames() {
  std::vector<Place> f = {{"a", 100, 0}, {"a", 200, 0}, {"b", 100, 0}, {"a", 100, 1}, {"a", 100, 2}};
  for (int i = 0; i < 240; ++i) f.push_back({"segment-" + std::to_string(i / 40), 1558034229922468 + 100000 * (i / 2 % 20), 1 + i % 2});
  return f;
}
static const std::vector<Place> kF = Frames();
static Object Make(const Item& i, bool three) {
  Object o; o.set_context_name(kF[i.frame].ctx); o.set_frame_timestamp_micros(kF[i.frame].ts); if (kF[i.frame].cam) o.set_camera_name((CameraName::Name)kF[i.frame].cam);
  o.set_score(i.score); o.mutable_object()->set_type((Label::Type)i.type); auto* b = o.mutable_object()->mutable_box();
  b->set_center_x(20.0 * i.place + i.x); b->set_center_y(3); b->set_length(10); b->set_width(4);
  if (three) { b->set_center_z(i.z); b->set_height(2); b->set_heading(0); } return o;
}
static double Iou(const Item& a, const Item& b, bool three) {
  if (a.place != b.place || a.type != b.type) return 0;
  const double dx = std::fabs(a.x - b.x), dz = three ? std::fabs(a.z - b.z) : 0; const double in = std::max(0., 10 - dx) * std::max(0., 2 - dz); return in / (40 - in);
}
// Bit 0: may be refused, bit 1: may be accepted.
static int Judge(const std::vector<Item>& lat, const std::vector<Item>& full, bool three, double thr, double min) {
  std::map<int, std::pair<std::vector<Item>, std::vector<Item>>> f;
  for (auto& i : lat) if ((float)i.score >= min && i.type) f[i.frame].first.push_back(i);
  for (auto& i : full) if ((float)i.score >= min && i.type) f[i.frame].second.push_back(i);
  int all = 2;
  for (auto& kv : f) {
    auto& [L, F] = kv.second; if (L.empty()) continue; if (F.empty()) return 1;
    const int extra = std::max(0, (int)F.size() - (int)L.size()); double best = -1; int verdict = 0;
    // Places are independent: brute force over assignments within one place.
    std::map<int, std::pair<std::vector<int>, std::vector<int>>> pl; for (size_t i = 0; i < L.size(); ++i) pl[L[i].place].first.push_back(i); for (size_t i = 0; i < F.size(); ++i) pl[F[i].place].second.push_back(i);
    std::set<int> total = {extra};
    for (auto& p : pl) {
      auto& [li, fi] = p.second; best = -1; std::set<int> opts; std::vector<int> as(li.size(), -1);
      std::function<void(size_t, double, int, unsigned)> rec = [&](size_t k, double w, int un, unsigned used) {
        if (k == li.size()) { if (w > best + 1e-3) { best = w; opts.clear(); } if (w > best - 1e-3) opts.insert(un); return; }
        rec(k + 1, w, un + 1, used);
        for (size_t j = 0; j < fi.size(); ++j) if (!(used >> j & 1)) { const double v = Iou(L[li[k]], F[fi[j]], three); if (v >= thr) rec(k + 1, w + v, un + (std::fabs(L[li[k]].score - F[fi[j]].score) > .05), used | 1u << j); }
      };
      rec(0, 0, 0, 0);
      std::set<int> t2; for (int a : total) for (int b : opts) t2.insert(a + b); total = t2;
    }
    for (int u : total) verdict |= 20 * u > (int)L.size() ? 1 : 2;
    if (verdict == 1) return 1; all |= verdict & 1;
  }
  return all;
}
// form 0: objects, 1: a submission, 2: one object file and one submission, 3: six of each
static void Check(mc::Ctx& c, const std::vector<Item>& lat, const std::vector<Item>& full, bool three, double thr, double min, int form, const std::string& method, const std::string& what) {
  Scratch s; Objects lo; for (auto& i : lat) *lo.add_objects() = Make(i, three);
  const int nfile = form == 3 ? 12 : form == 2 ? 2 : 1; std::vector<Objects> fo(nfile); for (size_t i = 0; i < full.size(); ++i) *fo[i % nfile].add_objects() = Make(full[i], three);
  const std::string lf = s.put("lat", lo.SerializeAsString()); std::string list;
  for (int k = 0; k < nfile; ++k) {
    std::string ser = fo[k].SerializeAsString();
    if (form == 1 || k % 2 == 1) { Submission x; x.set_task(three ? Submission::DETECTION_3D : Submission::DETECTION_2D); x.set_account_name("me@x.org"); if (!method.empty()) x.set_unique_method_name(method); x.add_authors("A B"); x.set_latency_second(.07); *x.mutable_inference_results() = fo[k]; ser = x.SerializeAsString(); }
    list += (k ? "," : "") + s.put("full" + std::to_string(k), ser);
  }
  std::vector<std::string> a = {"--latency_result_filename=" + lf, "--full_result_filenames=" + list};
  if (thr != .9) a.push_back("--iou_threshold=" + std::to_string(thr));
  if (min != 0) a.push_back("--minimum_score=" + std::to_string(min));
  const auto r = RunTool(&s, tool_cmp_main, a); c.step();
  const int e = Judge(lat, full, three, thr, min);
  if (r.rc != 0 && r.rc != 1 && r.rc != 1000 + SIGABRT) return c.fail("compare-crash", "the tool ends with " + std::to_string(r.rc) + " for " + what);
  if (!(e >> (r.rc == 0) & 1)) return c.fail("compare", std::string(r.rc ? "refused" : "accepted") + " wrongly: " + what);
  c.outcome(r.rc ? "refused" : "accepted"); c.state(what); c.sample([&] { return what + (r.rc ? ": refused" : ": accepted"); });
}
static std::string Show(const std::vector<int>& l, const std::vector<int>& f) { return "latency " + mc::Str(l) + " full " + mc::Str(f); }

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  // near copies of one detection
  static const Item kI[] = {{0, 0, .9, 1, 0, 0}, {.1, 0, .87, 1, 0, 0}, {.3, 0, .8, 1, 0, 0}, {1, 0, .9, 1, 0, 0}, {0, 0, .9, 2, 0, 0}, {0, 1, .9, 1, 0, 0}, {0, 0, .9, 0, 0, 0}, {0, 0, .3, 1, 0, 0}, {0, 0, .9, 1, 0, 1}, {0, 0, .9, 1, 3, 0}};
  m.family("near", "up to 2 latency and 3 full results that are near copies (moved, rescored, retyped, raised, without type, low, elsewhere, other camera) x 2D/3D x thresholds x file forms", [=](mc::Ctx& c) {
    const bool three = c.flip(); const double thr = c.choose(2) ? .5 : .9, min = c.choose(2) ? .5 : 0; const int form = c.choose(3); const int nl = c.choose(3), nf = c.choose(4); std::vector<int> l, f;
    for (int i = 0; i < nl; ++i) l.push_back(c.choose(10)); for (int i = 0; i < nf; ++i) f.push_back(c.choose(10));
    int h = form + 2 * (int)three; for (int x : l) h = h * 7 + x; for (int x : f) h = h * 7 + x;
    if (nl + nf >= 4 && h % (nl + nf == 5 ? (th ? 31 : 1009) : (th ? 2 : 71))) return;
    if (nl + nf == 3 && !th && h % 5) return;
    if (!c.go()) return;
    std::vector<Item> L, F; for (int x : l) L.push_back(kI[x]); for (int x : f) F.push_back(kI[x]);
    Check(c, L, F, three, thr, min, form, "method", Show(l, f) + (three ? " 3D" : " 2D") + " threshold " + std::to_string(thr) + " minimum " + std::to_string(min) + " form " + std::to_string(form));
  });
  m.family("share", "frames of 1, 2, 19, 20, 21, 39, 40, 41 and 60 detections, up to 4 of which are missing, extra, moved, rescored or retyped, alone or with two more frames", [=](mc::Ctx& c) {
    static const int kN[] = {1, 2, 19, 20, 21, 39, 40, 41, 60}; const int n = kN[c.choose(9)]; int k[5], sum = 0; for (int& x : k) { x = c.choose(5); sum += x; } const int at = c.choose(3), two = c.choose(4); const bool three = c.flip();
    if (sum > 4 || sum > n) return;
    if (!th && sum > 2 && (k[0] + 2 * k[1] + 3 * k[2] + n + at + two) % 3) return;
    if (!c.go()) return;
    std::vector<Item> L, F; int left[5]; std::copy(k, k + 5, left);
    for (int i = 0; i < n; ++i) {
      Item a = {0, 0, .7, 1 + i % 4, 0, i}, b = a; int kind = -1; const bool use = at == 0 ? true : at == 1 ? i >= n - sum : (i % 3 == 1 || n - i <= sum);
      if (use) for (int q = 0; q < 5; ++q) if (left[q]) { --left[q]; kind = q; break; }
      L.push_back(a);
      if (kind == 0) continue;
      if (kind == 1) { F.push_back(b); b.place += 100; } if (kind == 2) b.x = 3; if (kind == 3) b.score = .6; if (kind == 4) b.type = 1 + (b.type % 4);
      F.push_back(b);
    }
    if (two) for (int fr = 1; fr <= 2; ++fr) {   // two more frames, each with as many discrepancies as allowed when `two` is 1 or 3
      std::vector<Item> L2, F2; for (int i = 0; i < 40; ++i) { L2.push_back({0, 0, .7, 1, fr, i}); F2.push_back(L2.back()); if ((two == 1 && i < 2) || (two == 3 && i == 39)) F2.back().score = .3; }
      if (two == 1) { L.insert(L.end(), L2.begin(), L2.end()); F.insert(F.begin(), F2.begin(), F2.end()); } else { L.insert(L.begin(), L2.begin(), L2.end()); F.insert(F.end(), F2.rbegin(), F2.rend()); }
    }
    Check(c, L, F, three, .9, 0, 0, "", std::to_string(n) + " detections: " + std::to_string(k[0]) + " missing, " + std::to_string(k[1]) + " extra, " + std::to_string(k[2]) + " moved, " + std::to_string(k[3]) + " rescored, " + std::to_string(k[4]) + " retyped, at " + std::to_string(at) + " other frames " + std::to_string(two));
  });
  m.family("frames", "all sets of frames (contexts, times, cameras) of latency and full results, one frame of which differs or not, in both file orders", [=](mc::Ctx& c) {
    const int l = c.choose(32), f = c.choose(32), bad = c.choose(6), rev = c.choose(2), form = c.choose(3);
    if (!th && (l + f + bad + form) % 3) return;
    if (!c.go()) return;
    std::vector<Item> L, F;
    for (int i = 0; i < 5; ++i) { if (l >> i & 1) L.push_back({0, 0, .5, 1, i, 0}); if (f >> i & 1) F.push_back({i + 1 == bad ? 2.0 : 0.0, 0, .5, 1, i, 0}); }
    if (rev) { std::reverse(L.begin(), L.end()); }
    Check(c, L, F, true, .9, 0, form, "method", "latency frames " + std::to_string(l) + " full frames " + std::to_string(f) + " changed " + std::to_string(bad - 1) + " reversed " + std::to_string(rev) + " form " + std::to_string(form));
  });
  m.family("crowd", "20 / 100 / 240 frames of 1-41 detections in 1-12 files, one frame of which lacks, moves or rescores as many as allowed or one more, or is missing", [=](mc::Ctx& c) {
    static const int kN[] = {20, 100, 240}; const int n = kN[c.choose(3)], per = c.choose(4), bad = c.choose(4), how = c.choose(4), over = c.choose(2), form = c.choose(4), rev = c.choose(2);
    if (!th && (per + 2 * bad + how + over + form + rev) % 4) return;
    if (!c.go()) return;
    static const int kP[] = {1, 5, 20, 41}; std::vector<Item> L, F; const int at = bad == 0 ? 0 : bad == 1 ? n - 1 : bad == 2 ? n / 2 : n / 3;
    for (int f = 0; f < n; ++f) {
      const int k = n == 240 ? 1 + (kP[per] + f) % 7 : f == at ? kP[per] : 1 + f % kP[per], off = f == at ? k / 20 + over : k / 20;
      for (int i = 0; i < k; ++i) {
        const Item a = {0, 0, .3 + .015 * (i % 40), 1 + (i + f) % 4, 5 + f, i}; Item b = a; L.push_back(a);
        if (f == at && how == 3 && over) continue;   // the whole frame is missing
        if (i < off) { if (how == 0) continue; if (how == 1) b.x = 3; else b.score += .2; }
        F.push_back(b);
      }
    }
    if (rev) std::reverse(F.begin(), F.end());
    Check(c, L, F, true, .9, 0, form, "method", std::to_string(n) + " frames of up to " + std::to_string(kP[per]) + ", frame " + std::to_string(at) + " differs in way " + std::to_string(how) + (over ? " too often" : "") + " form " + std::to_string(form) + " reversed " + std::to_string(rev));
  });
  m.family("names", "submissions with every method name of up to 2 (thorough 3) characters over an alphabet, and some longer ones", [=](mc::Ctx& c) {
    static const std::string al = std::string("m5-\x08\n\x0d%") + "xaz "; const int n = c.choose(th ? 5 : 4); std::string name;
    if (n == (th ? 4 : 3)) { static const char* w[] = {"model", "method", "mymodel", "modeld", "5abcd", "-abcd", "m2345", "%abcd", "pointpillars", "eabcdm1234"}; name = w[c.choose(10)]; }
    else for (int i = 0; i < n; ++i) name += al[c.choose(al.size())];
    const int same = c.choose(2), form = 1 + c.choose(2);
    if (!c.go()) return;
    std::string hex; for (unsigned char ch : name) { char b[4]; snprintf(b, 4, "%02x", ch); hex += b; }
    Check(c, {kI[0]}, {same ? kI[1] : kI[3]}, true, .9, 0, form, name, "method name 0x" + hex + (same ? " same" : " other") + " form " + std::to_string(form));
  });
  m.family("unreadable", "unreadable full results", [=](mc::Ctx& c) {
    const int k = c.choose(3), order = c.choose(2);
    if (!c.go()) return;
    Scratch s; Objects lo; *lo.add_objects() = Make(kI[0], true); const std::string lf = s.put("lat", lo.SerializeAsString()), bad = k == 0 ? s.put("bad", std::string("\x0a\xff\xff", 3)) : k == 1 ? s.put("bad", "") : s.dir + "/none";
    const auto r = RunTool(&s, tool_cmp_main, {"--latency_result_filename=" + lf, "--full_result_filenames=" + (k == 0 ? (order ? lf + "," + bad : bad + "," + lf) : bad)}); c.step();
    if (r.rc == 0) c.fail("unreadable", "accepted results that cannot be read, kind " + std::to_string(k));
    c.outcome("refused"); c.state(std::to_string(k));
  });
  return m.run();
}
