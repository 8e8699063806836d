// Helpers shared by harnesses that build label boxes / objects.
#ifndef WOD_H_
#define WOD_H_
#include <string>
#include <vector>
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
using LD = long double;
inline waymo::open_dataset::Label::Box MkBox(double x, double y, double z, double l, double w, double h, double hd) {
  waymo::open_dataset::Label::Box b;
  b.set_center_x(x); b.set_center_y(y); b.set_center_z(z);
  b.set_length(l); b.set_width(w); b.set_height(h); b.set_heading(hd);
  return b;
}
struct Pt { LD x, y; };
inline std::vector<Pt> BoxPoly(LD x, LD y, LD l, LD w, LD hd) {
  std::vector<Pt> r;
  const LD c = cosl(hd), s = sinl(hd);
  const int sx[4] = {1, -1, -1, 1}, sy[4] = {1, 1, -1, -1};
  for (int i = 0; i < 4; ++i) { LD a = sx[i] * l / 2, b = sy[i] * w / 2; r.push_back({x + a * c - b * s, y + a * s + b * c}); }
  return r;
}
inline LD PolyArea(const std::vector<Pt>& p) {
  LD a = 0;
  for (size_t i = 0; i < p.size(); ++i) { const Pt &u = p[i], &v = p[(i + 1) % p.size()]; a += u.x * v.y - u.y * v.x; }
  return a / 2;
}
// Sutherland-Hodgman: clips subject by the convex counter-clockwise clip polygon.
inline std::vector<Pt> Clip(std::vector<Pt> sub, const std::vector<Pt>& clip) {
  for (size_t i = 0; i < clip.size() && !sub.empty(); ++i) {
    const Pt a = clip[i], b = clip[(i + 1) % clip.size()];
    auto side = [&](const Pt& p) { return (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x); };
    std::vector<Pt> out;
    for (size_t j = 0; j < sub.size(); ++j) {
      const Pt p = sub[j], q = sub[(j + 1) % sub.size()];
      const LD sp = side(p), sq = side(q);
      if (sp >= 0) out.push_back(p);
      if ((sp > 0 && sq < 0) || (sp < 0 && sq > 0)) { LD t = sp / (sp - sq); out.push_back({p.x + t * (q.x - p.x), p.y + t * (q.y - p.y)}); }
    }
    sub = out;
  }
  return sub;
}
#endif
