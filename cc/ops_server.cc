// Serves the repository's TensorFlow kernels to the Python stand-in for TensorFlow over
// stdin/stdout: request = u32 length, payload; answer likewise. See py/tfshim/opsbridge.py.
#define TFOP_MAIN
#include "tfop.h"
#include <unistd.h>
namespace tf = tensorflow;
namespace {
struct In { const std::string& s; size_t p = 0;
  template <class T> T num() { T v; if (p + sizeof v > s.size()) abort(); memcpy(&v, s.data() + p, sizeof v); p += sizeof v; return v; }
  std::string str() { const uint32_t n = num<uint32_t>(); if (p + n > s.size()) abort(); std::string r = s.substr(p, n); p += n; return r; } };
struct Out { std::string s; template <class T> void num(T v) { s.append((const char*)&v, sizeof v); } void str(const std::string& x) { num<uint32_t>(x.size()); s += x; } };
bool ReadAll(void* b, size_t n) { char* c = (char*)b; while (n) { ssize_t k = read(0, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
void WriteAll(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) _exit(3); o += k; } }
tf::Tensor Read(In& in) {
  const auto dt = (tf::DataType)in.num<int32_t>(); const int nd = in.num<int32_t>(); std::vector<int64_t> sh; for (int i = 0; i < nd; ++i) sh.push_back(in.num<int64_t>());
  tf::Tensor t(dt, tf::TensorShape(sh));
  if (dt == tf::DT_STRING) { auto f = t.flat<tf::tstring>(); for (int64_t i = 0; i < t.NumElements(); ++i) f(i) = in.str(); }
  else { const std::string d = in.str(); auto buf = t.tensor_data(); if (d.size() != buf.size()) abort(); memcpy(const_cast<char*>(buf.data()), d.data(), d.size()); }
  return t;
}
void Write(Out& o, const tf::Tensor& t) {
  o.num<int32_t>(t.dtype()); o.num<int32_t>(t.dims()); for (int i = 0; i < t.dims(); ++i) o.num<int64_t>(t.dim_size(i));
  if (t.dtype() == tf::DT_STRING) { auto f = t.flat<tf::tstring>(); for (int64_t i = 0; i < t.NumElements(); ++i) o.str(std::string(f(i))); }
  else o.str(std::string(t.tensor_data()));
}
}  // namespace
int main() {
  const int fd = dup(1); dup2(2, 1); std::map<std::string, tfop::Op*> kernels;
  while (true) {
    uint32_t n; if (!ReadAll(&n, 4)) return 0; std::string s(n, 0); if (!ReadAll(&s[0], n)) return 0;
    In in{s}; Out o; std::string name = in.str(); std::string err;
    if (name[0] == '?') {   // describes an op: its inputs' and outputs' names and dtypes (0: attribute T), its attributes
      const tf::OpDef* d = nullptr; auto q = tf::OpRegistry::Global()->LookUpOpDef(name.substr(1), &d); std::string r;
      if (q.ok()) { for (auto& a : d->input_arg()) r += "i " + a.name() + " " + std::to_string((int)a.type()) + "\n";
        for (auto& a : d->output_arg()) r += "o " + a.name() + " " + std::to_string((int)a.type()) + "\n"; for (auto& a : d->attr()) r += "a " + a.name() + " " + a.type() + "\n"; }
      Out h; h.num<uint32_t>(r.size()); WriteAll(fd, h.s + r); continue;
    }
    const tf::OpDef* od = nullptr; auto st = tf::OpRegistry::Global()->LookUpOpDef(name, &od);
    if (!st.ok()) err = st.ToString();
    else {
      std::map<std::string, std::string> attrs; std::vector<tf::Tensor> ts; const int na = in.num<int32_t>(); std::string key = name;
      for (int i = 0; i < na; ++i) { auto k = in.str(); attrs[k] = in.str(); key += "|" + k + "=" + attrs[k]; }
      // inputs: positional ones have an empty name
      const int ni = in.num<int32_t>(); std::map<std::string, tf::Tensor> by; std::vector<tf::Tensor> pos;
      for (int i = 0; i < ni; ++i) { auto k = in.str(); auto t = Read(in); if (k.empty()) pos.push_back(t); else by[k] = t; }
      for (int i = 0; i < od->input_arg_size() && err.empty(); ++i) {
        if (i < (int)pos.size()) ts.push_back(pos[i]);
        else if (by.count(od->input_arg(i).name())) { ts.push_back(by[od->input_arg(i).name()]); by.erase(od->input_arg(i).name()); }
        else err = "missing input " + od->input_arg(i).name();
        if (err.empty() && od->input_arg(i).type() != tf::DT_INVALID && ts.back().dtype() != od->input_arg(i).type()) err = "input " + od->input_arg(i).name() + " has the wrong type";
      }
      if (err.empty() && (!by.empty() || (int)pos.size() > od->input_arg_size())) err = "unexpected input" + (by.empty() ? "" : " " + by.begin()->first);
      if (err.empty()) {
        auto*& k = kernels[key];
        if (!k) { std::vector<tf::DataType> dt; for (auto& t : ts) dt.push_back(t.dtype()); std::vector<std::pair<std::string, tf::AttrValue>> av; for (auto& a : attrs) {
            const tf::OpDef::AttrDef* ad = nullptr; for (auto& x : od->attr()) if (x.name() == a.first) ad = &x;
            tf::AttrValue v; if (ad && ad->type() == "bool") v.set_b(a.second == "1"); else if (ad && ad->type() == "type") v.set_type((tf::DataType)atoi(a.second.c_str())); else v.set_s(a.second);
            av.push_back({a.first, v}); } k = new tfop::Op(name, dt, av); }
        std::vector<tf::Tensor> out;
        if (!k->ok()) { err = k->err(); delete k; kernels.erase(key); }
        else if (!k->Run(ts, &out)) err = k->err();
        else { o.num<uint8_t>(0); o.num<int32_t>(out.size()); for (int i = 0; i < (int)out.size(); ++i) { o.str(od->output_arg(i).name()); Write(o, out[i]); } }
      }
    }
    if (!err.empty()) { o = Out(); o.num<uint8_t>(1); o.str(err); }
    Out h; h.num<uint32_t>(o.s.size()); WriteAll(fd, h.s + o.s);
  }
}
