// Runs repository TensorFlow kernels through the real framework, with the thread pool
// replaced by one whose task schedule the harness decides.
#ifndef TFOP_H_
#define TFOP_H_
#define EIGEN_USE_THREADS
#include <condition_variable>
#include <map>
#include <mutex>
#include <new>
#include <thread>
#include "mc.h"
#include "tensorflow/core/framework/device_base.h"
#include "tensorflow/core/framework/node_def_builder.h"
#include "tensorflow/core/framework/op.h"
#include "tensorflow/core/framework/op_kernel.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/lib/core/threadpool.h"
#include "tensorflow/core/public/version.h"
namespace tfop {
namespace tf = tensorflow;
// ---- schedules -------------------------------------------------------------------
// Tasks handed to a thread pool run when the pool is joined (or the submitter goes quiet),
// one at a time in the order the schedule gives; the task at position `pre` can be preempted
// at its `at`-th memory allocation, when the next one in order runs to its end.
struct Schedule { std::vector<int> order; int pre = -1; long at = -1; };
struct State {
  Schedule plan; bool deferred = false; std::vector<long> allocs; bool preempted = false, blocked = false; int tasks = 0;
};
inline State& S() { static State* s = new State; return *s; }
struct Baton { std::mutex m; std::condition_variable cv; bool yielded = false, resume = false; };
struct Task { long n = 0, at = -1; Baton* baton = nullptr; };
extern thread_local Task* cur;
inline void Point() {
  Task* t = cur; if (!t) return;
  if (t->n++ != t->at) return;
  cur = nullptr;   // no points inside the hand-over itself
  { std::unique_lock<std::mutex> l(t->baton->m); t->baton->yielded = true; t->baton->cv.notify_all(); t->baton->cv.wait(l, [&] { return t->baton->resume; }); }
  cur = t;
}
inline void RunTask(const std::function<void()>& f, Task* t) { cur = t; f(); cur = nullptr; }
inline void RunAll(std::vector<std::function<void()>>& q) {
  State& s = S(); const int n = q.size(); std::vector<int> ord;
  for (int i : s.plan.order) if (i < n) ord.push_back(i);
  for (int i = 0; i < n; ++i) if (std::find(ord.begin(), ord.end(), i) == ord.end()) ord.push_back(i);
  s.allocs.assign(n, 0); s.tasks += n;
  for (int p = 0; p < n; ++p) {
    Task t; Baton b; t.baton = &b;
    if (p != s.plan.pre || p + 1 >= n) { std::thread th([&] { RunTask(q[ord[p]], &t); }); th.join(); s.allocs[ord[p]] = t.n; continue; }
    t.at = s.plan.at; bool fin = false;
    std::thread a([&] { RunTask(q[ord[p]], &t); std::unique_lock<std::mutex> l(b.m); fin = true; b.cv.notify_all(); });
    { std::unique_lock<std::mutex> l(b.m); b.cv.wait(l, [&] { return b.yielded || fin; }); }
    s.preempted = b.yielded; bool done2 = false; Task t2; std::mutex m2; std::condition_variable c2;
    std::thread o([&] { RunTask(q[ord[p + 1]], &t2); std::unique_lock<std::mutex> l(m2); done2 = true; c2.notify_all(); });
    { std::unique_lock<std::mutex> l(m2); if (!c2.wait_for(l, std::chrono::milliseconds(400), [&] { return done2; })) s.blocked = true; }   // it waits for a lock the preempted task holds
    { std::unique_lock<std::mutex> l(b.m); b.resume = true; b.cv.notify_all(); }
    a.join(); o.join(); s.allocs[ord[p]] = t.n; s.allocs[ord[p + 1]] = t2.n; ++p;
  }
  q.clear();
}
struct Pool {
  std::mutex m; std::condition_variable cv; std::vector<std::function<void()>> q; bool closing = false; uint64_t pushes = 0; std::thread ctl; bool started = false;
  void Push(std::function<void()> f) {
    if (!S().deferred) { f(); return; }
    std::unique_lock<std::mutex> l(m); q.push_back(std::move(f)); ++pushes;
    if (!started) { started = true; ctl = std::thread([this] { Control(); }); }
  }
  void Control() {
    std::unique_lock<std::mutex> l(m);
    while (true) {
      const uint64_t seen = pushes;
      const bool woke = cv.wait_for(l, std::chrono::milliseconds(100), [&] { return closing; });
      if (!woke && (pushes != seen || q.empty())) continue;
      std::vector<std::function<void()>> w; w.swap(q); l.unlock(); if (!w.empty()) RunAll(w); l.lock();
      if (closing && q.empty()) return;
    }
  }
  void Close() { { std::unique_lock<std::mutex> l(m); closing = true; cv.notify_all(); } if (started) ctl.join(); }
};
inline std::map<const void*, Pool*>& Pools() { static auto* p = new std::map<const void*, Pool*>; return *p; }
// ---- kernels -----------------------------------------------------------------------
class Dev : public tf::DeviceBase { public: Dev() : DeviceBase(tf::Env::Default()) {} tf::Allocator* GetAllocator(tf::AllocatorAttributes) override { return tf::cpu_allocator(); } };
class Op {
 public:
  Op(const std::string& name, const std::vector<tf::DataType>& in, const std::vector<std::pair<std::string, tf::AttrValue>>& attrs) {
    tf::NodeDef* nd = new tf::NodeDef; tf::NodeDefBuilder b("node", name); for (auto d : in) b.Input("src", 0, d); for (auto& a : attrs) b.Attr(a.first, a.second);
    auto s = b.Finalize(nd); if (!s.ok()) { err_ = s.ToString(); return; }
    const tf::OpDef* od = nullptr; s = tf::OpRegistry::Global()->LookUpOpDef(name, &od); if (!s.ok()) { err_ = s.ToString(); return; }
    std::shared_ptr<const tf::NodeProperties> props; s = tf::NodeProperties::CreateFromNodeDef(*nd, tf::OpRegistry::Global(), &props); if (!s.ok()) { err_ = s.ToString(); return; }
    tf::OpKernel* k = nullptr; s = tf::CreateOpKernel(tf::DeviceType("CPU"), &dev_, tf::cpu_allocator(), nullptr, props, TF_GRAPH_DEF_VERSION, &k); if (!s.ok()) { err_ = s.ToString(); return; }
    k_.reset(k);
  }
  bool ok() const { return k_ != nullptr; }
  const std::string& err() const { return err_; }
  // Returns false (error in err()) when the kernel reports one.
  bool Run(const std::vector<tf::Tensor>& in, std::vector<tf::Tensor>* out) {
    std::vector<tf::Tensor> copy = in; tf::gtl::InlinedVector<tf::TensorValue, 4> vals; for (auto& t : copy) vals.push_back(tf::TensorValue(&t));
    tf::OpKernelContext::Params p; p.device = &dev_; p.op_kernel = k_.get(); p.inputs = vals; std::vector<tf::AllocatorAttributes> at(k_->num_outputs()); p.output_attr_array = at.data(); p.frame_iter = tf::FrameAndIter(0, 0);
    tf::OpKernelContext ctx(&p, k_->num_outputs()); k_->Compute(&ctx);
    if (!ctx.status().ok()) { err_ = ctx.status().ToString(); return false; }
    out->clear(); for (int i = 0; i < k_->num_outputs(); ++i) { auto v = ctx.release_output(i); if (!v.tensor) { err_ = "output " + std::to_string(i) + " not set"; return false; } out->push_back(*v.tensor); delete v.tensor; }
    return true;
  }
 private:
  Dev dev_; std::unique_ptr<tf::OpKernel> k_; std::string err_;
};
template <class T> tf::AttrValue Attr(const T& v) { tf::AttrValue a; tf::SetAttrValue(v, &a); return a; }
template <class T> tf::Tensor Tn(const std::vector<T>& v, std::vector<int64_t> shape) { tf::Tensor t(tf::DataTypeToEnum<T>::value, tf::TensorShape(shape)); auto f = t.flat<T>(); for (size_t i = 0; i < v.size(); ++i) f(i) = v[i]; return t; }
inline tf::Tensor Ts(const std::vector<std::string>& v) { tf::Tensor t(tf::DT_STRING, tf::TensorShape({(int64_t)v.size()})); for (size_t i = 0; i < v.size(); ++i) t.vec<tf::tstring>()(i) = v[i]; return t; }
inline tf::Tensor Tb(const std::vector<int>& v, std::vector<int64_t> shape) { tf::Tensor t(tf::DT_BOOL, tf::TensorShape(shape)); auto f = t.flat<bool>(); for (size_t i = 0; i < v.size(); ++i) f(i) = v[i]; return t; }
inline std::vector<float> Fl(const tf::Tensor& t) { std::vector<float> r; if (t.dtype() == tf::DT_FLOAT) { auto f = t.flat<float>(); for (int64_t i = 0; i < t.NumElements(); ++i) r.push_back(f(i)); } else if (t.dtype() == tf::DT_UINT8) { auto f = t.flat<uint8_t>(); for (int64_t i = 0; i < t.NumElements(); ++i) r.push_back(f(i)); } else if (t.dtype() == tf::DT_INT32) { auto f = t.flat<int32_t>(); for (int64_t i = 0; i < t.NumElements(); ++i) r.push_back(f(i)); } return r; }
inline std::string Sh(const tf::Tensor& t) { return t.shape().DebugString(); }
}  // namespace tfop
#ifdef TFOP_MAIN
namespace tfop { thread_local Task* cur = nullptr; }
void* operator new(size_t n) { tfop::Point(); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
// The framework's thread pool, by symbol: members are free functions taking the object.
namespace tfop {
inline Pool* P(const void* t) { static std::mutex m; std::unique_lock<std::mutex> l(m); auto*& p = Pools()[t]; if (!p) p = new Pool; return p; }
inline void Par(int64_t total, const std::function<void(int64_t, int64_t)>& fn) {
  if (!S().deferred) { if (total > 0) fn(0, total); return; }
  std::vector<std::function<void()>> q; for (int64_t i = 0; i < total; ++i) q.push_back([&fn, i] { fn(i, i + 1); }); RunAll(q);
}
}
using TpF = std::function<void(int64_t, int64_t)>; using TpW = std::function<void(int64_t, int64_t, int)>;
#define TP(sym) asm("_ZN3tsl6thread10ThreadPool" sym)
#define TPK(sym) asm("_ZNK3tsl6thread10ThreadPool" sym)
#define TP_STR "RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
void tp_c1a(void*) TP("C1EPNS_3EnvERKNS_13ThreadOptionsE" TP_STR "ibPN5Eigen9AllocatorE"); void tp_c1a(void*) {}
void tp_c2a(void*) TP("C2EPNS_3EnvERKNS_13ThreadOptionsE" TP_STR "ibPN5Eigen9AllocatorE"); void tp_c2a(void*) {}
void tp_c1b(void*) TP("C1EPNS_3EnvE" TP_STR "i"); void tp_c1b(void*) {}
void tp_c2b(void*) TP("C2EPNS_3EnvE" TP_STR "i"); void tp_c2b(void*) {}
void tp_c1c(void*) TP("C1EPNS_3EnvERKNS_13ThreadOptionsE" TP_STR "i"); void tp_c1c(void*) {}
void tp_c2c(void*) TP("C2EPNS_3EnvERKNS_13ThreadOptionsE" TP_STR "i"); void tp_c2c(void*) {}
void tp_done(void* t) { auto* p = tfop::P(t); p->Close(); tfop::Pools().erase(t); delete p; }
void tp_d1(void*) TP("D1Ev"); void tp_d1(void* t) { tp_done(t); }
void tp_d2(void*) TP("D2Ev"); void tp_d2(void* t) { tp_done(t); }
void tp_s(void*, std::function<void()>*) TP("8ScheduleESt8functionIFvvEE"); void tp_s(void* t, std::function<void()>* f) { tfop::P(t)->Push(std::move(*f)); }
void tp_h(void*, std::function<void()>*, int, int) TP("16ScheduleWithHintESt8functionIFvvEEii"); void tp_h(void* t, std::function<void()>* f, int, int) { tfop::P(t)->Push(std::move(*f)); }
int tp_n(const void*) TPK("10NumThreadsEv"); int tp_n(const void*) { return 8; }
int tp_i(const void*) TPK("15CurrentThreadIdEv"); int tp_i(const void*) { return -1; }
void tp_p1(void*, int64_t, int64_t, const TpF&) TP("11ParallelForEllRKSt8functionIFvllEE"); void tp_p1(void*, int64_t n, int64_t, const TpF& f) { tfop::Par(n, f); }
void tp_p2(void*, int64_t, const void*, const TpF&) TP("11ParallelForElRKNS1_16SchedulingParamsERKSt8functionIFvllEE"); void tp_p2(void*, int64_t n, const void*, const TpF& f) { tfop::Par(n, f); }
void tp_p3(void*, int64_t, int64_t, const TpF&) TP("26TransformRangeConcurrentlyEllRKSt8functionIFvllEE"); void tp_p3(void*, int64_t, int64_t n, const TpF& f) { tfop::Par(n, f); }
void tp_p4(void*, int64_t, int64_t, const TpW&) TP("23ParallelForWithWorkerIdEllRKSt8functionIFvlliEE"); void tp_p4(void*, int64_t n, int64_t, const TpW& f) { tfop::Par(n, [&](int64_t a, int64_t b) { f(a, b, 0); }); }
#endif
#endif
