// Bounded exhaustive explorer used by every C++ harness.
//
// A family is a body that builds one execution from c.choose(n) calls; the
// explorer runs the body on EVERY sequence of choices (stateless depth-first
// search of the choice tree, simplest choice first).  Leaves are dealt to
// forked workers; a worker that crashes, aborts (CHECK) or hangs yields a
// violation carrying the choice sequence, which --replay re-executes.
#ifndef MC_H_
#define MC_H_
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc {

constexpr int kMaxChoices = 4000;

inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}
inline uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return Mix(h, s.size());
}
inline std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Shared {            // one per worker, in shared memory
  volatile uint64_t beat;  // leaves started
  volatile int family;
  volatile int n;
  volatile int choice[kMaxChoices];
  volatile uint64_t leaf;
};

struct Violation { std::string key, family, msg; std::vector<int> choices; };

struct Stats {
  uint64_t leaves = 0, run = 0, steps = 0, traces = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string, uint64_t> outcomes;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  uint64_t nviol = 0;
};

class Main;

class Ctx {
 public:
  // Picks a number in [0, n); every value is explored.
  int choose(int n) {
    if (pos_ < choice_.size()) {
      if (arity_[pos_] == 0) arity_[pos_] = n;
      if (arity_[pos_] != n || choice_[pos_] >= n) {
        fprintf(stderr, "mc: divergence while replaying a prefix (%d of %d at %zu)\n", choice_[pos_], n, pos_);
        _exit(97);
      }
      return choice_[pos_++];
    }
    choice_.push_back(0);
    arity_.push_back(n);
    ++pos_;
    return 0;
  }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[choose(v.size())]; }
  bool flip() { return choose(2) == 1; }
  // Call once the input is built, before touching the code under test.
  // False: this leaf belongs to another worker.
  bool go();
  void state(uint64_t h) { if (st_->states.size() < 6000000) st_->states.insert(h); }
  void state(const std::string& s) { state(HashStr(s)); }
  void step(uint64_t n = 1) { st_->steps += n; }   // calls into the code under test
  void outcome(const std::string& s) { ++st_->outcomes[fam_ + ": " + s]; }
  // Records a violation. key identifies the defect class (known findings match on it).
  void fail(const std::string& key, const std::string& msg) {
    failed_ = true;
    ++st_->nviol;
    int same = 0;
    for (auto& v : st_->violations) same += v.key == key;
    if (same < 2 && st_->violations.size() < 40)
      st_->violations.push_back({key, fam_, msg, std::vector<int>(choice_.begin(), choice_.begin() + pos_)});
    if (replay_) printf("FAIL %s: %s\n", key.c_str(), msg.c_str());
  }
  template <class F> void sample(F f) {
    if (st_->samples.size() < 3 || replay_) {
      std::string s = fam_ + ": " + f();
      if (replay_) printf("CASE %s\n", s.c_str()); else st_->samples.push_back(s.substr(0, 1500));
    }
  }
  bool replay() const { return replay_; }
  bool thorough() const { return thorough_; }
  bool failed_now() const { return failed_; }

 private:
  friend class Main;
  bool next() {
    while (!choice_.empty()) {
      if (pos_ < choice_.size()) { choice_.resize(pos_); arity_.resize(pos_); }
      if (choice_.empty()) return false;
      if (choice_.back() + 1 < arity_.back()) { ++choice_.back(); pos_ = 0; return true; }
      choice_.pop_back(); arity_.pop_back();
      pos_ = choice_.size();
    }
    return false;
  }
  std::vector<int> choice_, arity_;
  size_t pos_ = 0;
  std::string fam_;
  Stats* st_ = nullptr;
  Shared* sh_ = nullptr;
  int worker_ = 0, nworkers_ = 1, family_ = 0;
  uint64_t leaf_ = 0;
  const std::set<std::pair<int, uint64_t>>* skip_ = nullptr;  // leaves that crashed an earlier incarnation
  bool replay_ = false, thorough_ = false, failed_ = false;
};

inline bool Ctx::go() {
  failed_ = false;
  if (replay_) { ++st_->run; return true; }
  ++st_->leaves;
  // Deal leaves in a scrambled order so that expensive neighbours spread out.
  const uint64_t idx = leaf_++;
  if ((Mix(7, idx) % nworkers_) != (uint64_t)worker_) return false;
  if (skip_ && skip_->count({family_, idx})) return false;
  sh_->family = family_;
  int n = std::min<int>(pos_, kMaxChoices);
  for (int i = 0; i < n; ++i) sh_->choice[i] = choice_[i];
  sh_->n = n;
  sh_->leaf = idx;
  ++sh_->beat;
  ++st_->run;
  ++st_->traces;
  return true;
}

class Main {
 public:
  using Body = std::function<void(Ctx&)>;
  Main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a.rfind("--out=", 0) == 0) out_ = a.substr(6);
      if (a.rfind("--replay=", 0) == 0) replay_ = a.substr(9);
      if (a == "--thorough") thorough_ = true;
      if (a.rfind("--workers=", 0) == 0) nw_ = atoi(a.c_str() + 10);
      if (a.rfind("--only=", 0) == 0) only_ = a.substr(7);
      if (a.rfind("--stall=", 0) == 0) stall_ = atoi(a.c_str() + 8);
    }
  }
  bool thorough() const { return thorough_; }
  // bound: text that states the alphabet and bound of this family.
  void family(const std::string& name, const std::string& bound, Body b) {
    if (!only_.empty() && name.find(only_) == std::string::npos) return;
    fams_.push_back({name, bound, std::move(b)});
  }
  int run() {
    if (!replay_.empty()) return Replay();
    const size_t bytes = sizeof(Shared) * nw_;
    Shared* sh = (Shared*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid(nw_);
    std::vector<std::string> file(nw_);
    for (int w = 0; w < nw_; ++w) {
      file[w] = out_ + ".w" + std::to_string(w);
      unlink(file[w].c_str());
      fflush(nullptr);
      pid[w] = fork();
      if (pid[w] == 0) { Worker(w, sh + w, file[w]); _exit(0); }
    }
    std::vector<uint64_t> last(nw_, 0), since(nw_, time(nullptr));
    std::vector<bool> done(nw_, false);
    std::vector<std::string> crash(nw_);
    std::vector<std::set<std::pair<int, uint64_t>>> skip(nw_);
    std::vector<Violation> viol;
    uint64_t ncrash = 0;
    auto on_crash = [&](int w) {   // returns true if the worker was restarted without the crashing leaf
      if (crash[w].empty() || crash[w][0] == '!') return false;
      Violation v;
      int f = sh[w].family;
      v.family = f < (int)fams_.size() ? fams_[f].name : "?";
      v.key = v.family + ":crash";
      v.msg = crash[w] + "; " + Tail(file[w] + ".err");
      for (int i = 0; i < sh[w].n; ++i) v.choices.push_back((int)sh[w].choice[i]);
      viol.push_back(v); ++ncrash;
      crash[w].clear();
      if (skip[w].size() >= 3) return false;
      skip[w].insert({f, sh[w].leaf});
      sh[w].beat = 0;
      fflush(nullptr);
      pid[w] = fork();
      if (pid[w] == 0) { skip_ = &skip[w]; Worker(w, sh + w, file[w]); _exit(0); }
      done[w] = false;
      last[w] = 0; since[w] = time(nullptr);
      return true;
    };
    int left = nw_;
    while (left) {
      usleep(20000);
      for (int w = 0; w < nw_; ++w) {
        if (done[w]) continue;
        int st = 0;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == pid[w]) {
          done[w] = true; --left;
          if (WIFSIGNALED(st)) crash[w] = std::string("killed by signal ") + std::to_string(WTERMSIG(st)) +
                (WTERMSIG(st) == SIGABRT ? " (abort: CHECK/assertion)" : WTERMSIG(st) == SIGSEGV ? " (segfault)" : "");
          else if (WEXITSTATUS(st) == 97) crash[w] = "!harness divergence";
          else if (WEXITSTATUS(st) != 0) crash[w] = "exited with " + std::to_string(WEXITSTATUS(st));
          if (on_crash(w)) ++left;
          continue;
        }
        if (sh[w].beat != last[w]) { last[w] = sh[w].beat; since[w] = time(nullptr); }
        else if (sh[w].beat && (int)(time(nullptr) - since[w]) > stall_) {
          kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
          done[w] = true; --left;
          crash[w] = "did not finish within " + std::to_string(stall_) + " s (hang)";
          if (on_crash(w)) ++left;
        }
      }
    }
    // Merge.
    uint64_t leaves = 0, steps = 0, traces = 0, nviol = 0;
    std::unordered_set<uint64_t> states;
    std::map<std::string, uint64_t> outcomes, famleaves;
    std::vector<std::string> samples;
    nviol = ncrash;
    bool harness_error = false;
    for (int w = 0; w < nw_; ++w) {
      if (!crash[w].empty()) { fprintf(stderr, "%s\n", crash[w].c_str()); harness_error = true; continue; }
      FILE* f = fopen(file[w].c_str(), "rb");
      if (!f) continue;
      auto rd = [&](uint64_t* x) { return fread(x, 8, 1, f) == 1; };
      auto rds = [&] { uint64_t n = 0; rd(&n); std::string s(n, 0); if (n && fread(&s[0], 1, n, f) != n) s = ""; return s; };
      uint64_t a, n;
      rd(&a); leaves = std::max(leaves, a);
      rd(&a); steps += a; rd(&a); traces += a; rd(&a); nviol += a;
      rd(&n); for (uint64_t i = 0; i < n; ++i) { rd(&a); states.insert(a); }
      rd(&n); for (uint64_t i = 0; i < n; ++i) { std::string k = rds(); rd(&a); outcomes[k] += a; }
      rd(&n); for (uint64_t i = 0; i < n; ++i) { std::string s = rds(); if (samples.size() < 6) samples.push_back(s); }
      rd(&n); for (uint64_t i = 0; i < n; ++i) { std::string k = rds(); rd(&a); famleaves[k] = a; }
      rd(&n);
      for (uint64_t i = 0; i < n; ++i) {
        Violation v; v.key = rds(); v.family = rds(); v.msg = rds();
        uint64_t m; rd(&m); for (uint64_t j = 0; j < m; ++j) { rd(&a); v.choices.push_back((int)a); }
        viol.push_back(v);
      }
      fclose(f);
      unlink(file[w].c_str());
      unlink((file[w] + ".err").c_str());
    }
    if (harness_error) return 2;
    std::ostringstream o;
    o << "{\"leaves\":" << leaves << ",\"states\":" << states.size() << ",\"transitions\":" << steps
      << ",\"traces\":" << traces << ",\"nviolations\":" << nviol << ",\"outcomes\":{";
    bool first = true;
    for (auto& k : outcomes) { o << (first ? "" : ",") << JsonStr(k.first) << ":" << k.second; first = false; }
    o << "},\"families\":[";
    first = true;
    for (auto& f : fams_) {
      o << (first ? "" : ",") << "{\"name\":" << JsonStr(f.name) << ",\"bound\":" << JsonStr(f.bound)
        << ",\"executions\":" << famleaves[f.name] << "}"; first = false;
    }
    o << "],\"samples\":[";
    first = true;
    for (auto& s : samples) { o << (first ? "" : ",") << JsonStr(s); first = false; }
    o << "],\"violations\":[";
    first = true;
    for (auto& v : viol) {
      o << (first ? "" : ",") << "{\"key\":" << JsonStr(v.key) << ",\"family\":" << JsonStr(v.family)
        << ",\"msg\":" << JsonStr(v.msg) << ",\"choices\":[";
      for (size_t i = 0; i < v.choices.size(); ++i) o << (i ? "," : "") << v.choices[i];
      o << "]}"; first = false;
    }
    o << "]}\n";
    std::ofstream(out_) << o.str();
    return 0;
  }

 private:
  struct Fam { std::string name, bound; Body body; };
  static std::string Tail(const std::string& p) {
    std::ifstream f(p); std::stringstream s; s << f.rdbuf();
    std::string t = s.str();
    return t.size() > 600 ? t.substr(t.size() - 600) : t;
  }
  void Worker(int w, Shared* sh, const std::string& file) {
    int fd = open((file + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    Stats st;
    std::map<std::string, uint64_t> famleaves;
    for (size_t i = 0; i < fams_.size(); ++i) {
      Ctx c;
      c.fam_ = fams_[i].name; c.st_ = &st; c.sh_ = sh; c.worker_ = w; c.nworkers_ = nw_; c.family_ = i;
      c.thorough_ = thorough_; c.skip_ = skip_;
      uint64_t before = st.leaves;
      std::vector<std::string> keep; keep.swap(st.samples);
      do {
        c.pos_ = 0;
        fams_[i].body(c);
        if (st.run % 4096 == 0 && lseek(2, 0, SEEK_CUR) > (1 << 22)) { if (ftruncate(2, 0)) {} }
      } while (c.next());
      famleaves[fams_[i].name] = st.leaves - before;
      // one sample per family (of the first worker that has one) keeps the evidence readable
      for (auto& s : st.samples) { keep.push_back(s); break; }
      st.samples.swap(keep);
    }
    FILE* f = fopen(file.c_str(), "wb");
    auto wr = [&](uint64_t x) { fwrite(&x, 8, 1, f); };
    auto wrs = [&](const std::string& s) { wr(s.size()); fwrite(s.data(), 1, s.size(), f); };
    wr(st.leaves); wr(st.steps); wr(st.traces); wr(st.nviol);
    wr(st.states.size()); for (uint64_t h : st.states) wr(h);
    wr(st.outcomes.size()); for (auto& k : st.outcomes) { wrs(k.first); wr(k.second); }
    wr(st.samples.size()); for (auto& s : st.samples) wrs(s);
    wr(famleaves.size()); for (auto& k : famleaves) { wrs(k.first); wr(k.second); }
    wr(st.violations.size());
    for (auto& v : st.violations) {
      wrs(v.key); wrs(v.family); wrs(v.msg); wr(v.choices.size());
      for (int x : v.choices) wr((uint64_t)x);
    }
    fclose(f);
  }
  int Replay() {
    std::ifstream f(replay_);
    std::string line, fam; std::vector<int> ch;
    while (std::getline(f, line)) {
      if (line.rfind("family=", 0) == 0) fam = line.substr(7);
      if (line.rfind("thorough=1", 0) == 0) thorough_ = true;
      if (line.rfind("choices=", 0) == 0) { std::istringstream s(line.substr(8)); int x; while (s >> x) ch.push_back(x); }
    }
    for (size_t i = 0; i < fams_.size(); ++i) {
      if (fams_[i].name != fam) continue;
      Ctx c; Stats st; Shared sh;
      c.fam_ = fam; c.st_ = &st; c.sh_ = &sh; c.replay_ = true; c.thorough_ = thorough_;
      c.choice_ = ch; c.arity_.assign(ch.size(), 0);
      fams_[i].body(c);
      printf(st.nviol ? "REPLAY: violation reproduced\n" : "REPLAY: no violation\n");
      return st.nviol ? 1 : 0;
    }
    fprintf(stderr, "no family %s\n", fam.c_str());
    return 2;
  }
  std::vector<Fam> fams_;
  std::string out_ = "/dev/null", replay_, only_;
  bool thorough_ = false;
  const std::set<std::pair<int, uint64_t>>* skip_ = nullptr;
  int nw_ = 8, stall_ = 60;
};

inline bool Near(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
template <typename T> std::string Str(const std::vector<T>& v) {
  std::ostringstream o; o << "[";
  for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
  o << "]"; return o.str();
}
inline std::string Str(const std::vector<std::vector<int>>& v) {
  std::ostringstream o; o << "[";
  for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << Str(v[i]);
  o << "]"; return o.str();
}

}  // namespace mc
#endif
