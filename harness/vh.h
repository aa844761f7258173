// Common part of all harnesses: script reader, JSON event writer, one child process per script.
#ifndef VH_H_
#define VH_H_
#include <errno.h>
#include <math.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace vh {

typedef std::vector<std::string> Script;

extern FILE *g_out;

// Builder for one JSON event
class Ev {
 public:
  explicit Ev(const char *op) { s_ = std::string("{\"op\":\"") + op + "\""; }
  Ev &i(const char *k, long v) { key(k); s_ += std::to_string(v); return *this; }
  Ev &b(const char *k, bool v) { key(k); s_ += v ? "true" : "false"; return *this; }
  Ev &s(const char *k, const std::string &v) { key(k); s_ += quote(v); return *this; }
  Ev &raw(const char *k, const std::string &v) { key(k); s_ += v; return *this; }
  template <class C> Ev &list(const char *k, const C &c) {
    key(k); s_ += "[";
    bool first = true;
    for (const auto &x : c) { if (!first) s_ += ","; first = false; s_ += std::to_string((long)x); }
    s_ += "]"; return *this;
  }
  // a value as <<hi, lo>> with v = hi * 65536 + lo
  Ev &hl(const char *k, int64_t v) { key(k); s_ += hilo(v); return *this; }
  static std::string hilo(int64_t v) {
    int64_t lo = ((v % 65536) + 65536) % 65536;
    return "[" + std::to_string((v - lo) / 65536) + "," + std::to_string(lo) + "]";
  }
  static std::string quote(const std::string &v) {
    std::string r = "\"";
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  static std::string codes(const std::string &v) {
    std::string r = "[";
    bool f = true;
    for (unsigned char c : v) { if (!f) r += ","; f = false; r += std::to_string((int)c); }
    return r + "]";
  }
  void emit() {
    s_ += "}\n";
    fwrite(s_.data(), 1, s_.size(), g_out);
    fflush(g_out);
  }
 private:
  void key(const char *k) { s_ += ",\""; s_ += k; s_ += "\":"; }
  std::string s_;
};

// Exact conversion float -> integer in units of 1/scale. Anything not representable (NaN, infinity,
// not a multiple) becomes a special value which no specification produces.
static const long kBad = 1999999999L;
inline long unit(double v, double scale) {
  double x = v * scale;
  if (!(fabs(x) < 1.0e9)) return kBad;
  double r = nearbyint(x);
  if (r != x) return kBad;
  return (long)r;
}

inline int run(int argc, char **argv, void (*script)(int, const Script &)) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]);
  if (!in) return 3;
  g_out = fopen(argv[2], "w");
  if (!g_out) return 3;
  fclose(g_out);
  g_out = fopen(argv[2], "a");
  int tmo = getenv("VH_TIMEOUT") ? atoi(getenv("VH_TIMEOUT")) : 10;
  std::string line;
  Script cur;
  int idx = 0;
  while (std::getline(in, line)) {
    if (line == "BEGIN") { cur.clear(); continue; }
    if (line != "END") { cur.push_back(line); continue; }
    fflush(g_out);
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
      fclose(g_out);
      g_out = fopen(argv[2], "a");
      // stdout/stderr of the engine are not part of the trace
      if (!getenv("VH_VERBOSE")) {
        if (!freopen("/dev/null", "w", stdout)) _exit(3);
        if (!freopen("/dev/null", "w", stderr)) _exit(3);
      }
      alarm(tmo);
      script(idx, cur);
      fflush(g_out);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
      fprintf(g_out, "\n{\"op\":\"crash\",\"sig\":%d,\"exit\":%d}\n", sig,
              WIFEXITED(st) ? WEXITSTATUS(st) : -1);
      fflush(g_out);
    }
    ++idx;
  }
  fclose(g_out);
  return 0;
}

// Tokenizer of one script line
class Tok {
 public:
  explicit Tok(const std::string &l) : is_(l) {}
  std::string w() { std::string s; is_ >> s; return s; }
  long n() { long v = 0; is_ >> v; return v; }
  double d() { double v = 0; is_ >> v; return v; }
  bool more() { is_ >> std::ws; return !is_.eof(); }
 private:
  std::istringstream is_;
};

}  // namespace vh

#define VH_MAIN(fn) \
  namespace vh { FILE *g_out = nullptr; } \
  int main(int argc, char **argv) { return vh::run(argc, argv, fn); }

#endif
