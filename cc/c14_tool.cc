// C14, command line tool: the evaluation of all small frame sets, read from files.
#define main tool_main
#include "waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc"
#undef main
#include "mc.h"
using namespace waymo::open_dataset;
using V = std::vector<int>;
static std::string Zip(const V& v) { MatrixInt32 m; for (int x : v) m.add_data(x); m.mutable_shape()->add_dims(v.size()); const std::string s = m.SerializeAsString(); uLongf n = compressBound(s.size()); std::string o(n, 0); compress((Bytef*)&o[0], &n, (const Bytef*)s.data(), s.size()); o.resize(n); return o; }
static void Lab(SegmentationFrame* f, int laser, const V& a, const V& b) { auto* l = f->add_segmentation_labels(); l->set_name((LaserName::Name)laser); l->mutable_ri_return1()->set_segmentation_label_compressed(Zip(a)); l->mutable_ri_return2()->set_segmentation_label_compressed(Zip(b)); }
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool th = m.thorough();
  m.family("tool", "all sets of up to 3 frames: truth (absent, unlabelled, 2 contents; returns of different lengths), prediction (absent, unlabelled, other laser, right, wrong), frame orders", [=](mc::Ctx& c) {
    const int n = c.choose(th ? 4 : 3); V g, p; for (int i = 0; i < n; ++i) { g.push_back(c.choose(4)); p.push_back(c.choose(5)); } const bool rev = c.flip();
    if (!c.go()) return;
    static const V t1[2] = {{1, 2, 2, 18}, {0, 7, 1}}, t2[2] = {{1}, {18, 18, 2, 7, 22}}, w1[2] = {{1, 1, 2, 0}, {3, 7, 18}}, w2[2] = {{2}, {18, 1, 2, 0, 22}};
    SegmentationFrameList G, P; std::map<std::pair<int, int>, long> cm;
    for (int q = 0; q < n; ++q) {
      const int i = rev ? n - 1 - q : q; auto key = [&](SegmentationFrame* f) { f->set_context_name(i == 2 ? "b" : "a"); f->set_frame_timestamp_micros(i == 2 ? 100 : 100 + i); };
      if (g[i]) { auto* f = G.add_frames(); key(f); if (g[i] > 1) Lab(f, LaserName::TOP, t1[g[i] - 2], t2[g[i] - 2]); }
    }
    for (int i = 0; i < n; ++i) {
      const int k = g[i] > 1 ? g[i] - 2 : 0;
      if (p[i]) { auto* f = P.add_frames(); f->set_context_name(i == 2 ? "b" : "a"); f->set_frame_timestamp_micros(i == 2 ? 100 : 100 + i); if (p[i] > 1) Lab(f, p[i] == 2 ? LaserName::FRONT : LaserName::TOP, p[i] == 3 ? t1[k] : w1[k], p[i] == 3 ? t2[k] : w2[k]); }
      if (g[i] > 1) for (int r = 0; r < 2; ++r) { const V& t = r ? t2[k] : t1[k]; const V& d = p[i] < 3 ? V(t.size(), 0) : p[i] == 3 ? t : r ? w2[k] : w1[k]; for (size_t z = 0; z < t.size(); ++z) if (t[z]) ++cm[{t[z], d[z]}]; }
    }
    char dir[] = "/tmp/verif_seg_XXXXXX"; if (!mkdtemp(dir)) return c.fail("setup", "mkdtemp");
    const std::string pf = std::string(dir) + "/p", gf = std::string(dir) + "/g";
    { std::ofstream(pf) << P.SerializeAsString(); std::ofstream(gf) << G.SerializeAsString(); }
    std::ostringstream out, err; auto* ob = std::cout.rdbuf(out.rdbuf()); auto* eb = std::cerr.rdbuf(err.rdbuf());
    const char* av[] = {"tool", pf.c_str(), gf.c_str(), nullptr}; const int rc = tool_main(3, (char**)av); c.step();
    std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
    unlink(pf.c_str()); unlink(gf.c_str()); rmdir(dir);
    auto what = [&] { return "truth kinds " + mc::Str(g) + " prediction kinds " + mc::Str(p) + (rev ? " reversed" : ""); };
    if (G.frames_size() == 0) { if (rc == 0) c.fail("no-truth", "evaluation without ground truth succeeds"); c.outcome("no truth"); return; }
    double sum = 0; std::map<std::string, double> e; const auto* d = Segmentation::Type_descriptor();
    for (int t = 1; t <= 22; ++t) { long in = 0, un = 0; for (auto& [k, v] : cm) { if (k.first == t && k.second == t) in += v; if (k.first == t || k.second == t) un += v; } const double x = un ? double(in) / un : 1; sum += x; e[d->FindValueByNumber(t)->name()] = x; }
    std::map<std::string, double> got; double mi = -1; std::istringstream is(out.str()); std::string ln;
    while (std::getline(is, ln)) { if (ln.rfind("miou=", 0) == 0) mi = atof(ln.c_str() + 5); else if (ln.rfind("TYPE_", 0) == 0) { const size_t q = ln.find(':'); got[ln.substr(0, q)] = atof(ln.c_str() + q + 1); } }
    if (rc) return c.fail("tool-rc", "the tool ends with " + std::to_string(rc) + " for " + what());
    if (got.size() != e.size() || std::fabs(mi - sum / 22) > 1e-4) return c.fail("tool", "miou " + std::to_string(mi) + " (" + std::to_string(got.size()) + " classes), expected " + std::to_string(sum / 22) + " for " + what());
    for (auto& [k, v] : e) if (!got.count(k) || std::fabs(got[k] - v) > 1e-4) return c.fail("tool", k + " " + std::to_string(got[k]) + ", expected " + std::to_string(v) + " for " + what());
    c.state(what()); c.outcome("frames " + std::to_string(n)); c.sample(what);
  });
  return m.run();
}
