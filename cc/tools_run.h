// Runs a command line tool's main in a child process within a scratch directory.
#pragma once
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
struct Scratch {
  std::string dir; std::vector<std::string> files;
  Scratch() { char d[] = "/tmp/verif_tool_XXXXXX"; if (mkdtemp(d)) dir = d; }
  ~Scratch() { for (auto& f : files) unlink(f.c_str()); if (!dir.empty()) rmdir(dir.c_str()); }
  std::string path(const std::string& n) { files.push_back(dir + "/" + n); return files.back(); }
  std::string put(const std::string& n, const std::string& s) { const std::string p = path(n); std::ofstream(p, std::ios::binary) << s; return p; }
  static bool get(const std::string& p, std::string* s) { std::ifstream f(p, std::ios::binary); if (!f) return false; std::stringstream b; b << f.rdbuf(); *s = b.str(); return true; }
};
struct ToolResult { int rc; std::string out; };  // rc: exit status, or 1000 + signal
inline ToolResult RunTool(Scratch* s, int (*fn)(int, char**), const std::vector<std::string>& args) {
  const std::string o = s->path("stdout");
  fflush(stdout);
  const pid_t p = fork();
  if (p == 0) {
    const int fd = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), nul = open("/dev/null", O_WRONLY);
    dup2(fd, 1); dup2(nul, 2);
    for (int sg : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE}) signal(sg, SIG_DFL);
    if (chdir(s->dir.c_str())) _exit(99);
    std::vector<std::string> a = {"tool"}; a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
    const int rc = fn((int)a.size(), v.data());
    std::cout.flush(); fflush(stdout); _exit(rc & 255);
  }
  int st = 0; waitpid(p, &st, 0);
  ToolResult r; r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  Scratch::get(o, &r.out); s->files.pop_back(); unlink(o.c_str());
  return r;
}
