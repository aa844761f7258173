// Text helpers, results, error reports, files read as bytes (P25)
#include "vh.h"
#include <sys/stat.h>
#include "configuration.h"
#include "status.h"
#include "util.h"
using namespace vh;
using namespace pocketkaldi;

static std::string unhex(const std::string &h) {
  std::string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
  return r;
}
static void put(const std::string &f, const std::string &b) {
  FILE *fd = fopen(f.c_str(), "wb");
  if (!fd) _exit(4);
  fwrite(b.data(), 1, b.size(), fd);
  fclose(fd);
}
// arguments: s text, c C string, i int, l long
struct Arg { char kind; std::string t; };
template <class... T>
std::string Call(const std::string &f, const std::vector<Arg> &a, size_t i, std::integral_constant<int, 0>, T &&...t) {
  return util::Format(f, std::forward<T>(t)...);
}
template <int N, class... T>
std::string Call(const std::string &f, const std::vector<Arg> &a, size_t i, std::integral_constant<int, N>, T &&...t) {
  if (i >= a.size()) return util::Format(f, std::forward<T>(t)...);
  const Arg &x = a[i];
  std::integral_constant<int, N - 1> m;
  switch (x.kind) {
    case 'c': { const char *p = x.t.c_str(); return Call(f, a, i + 1, m, std::forward<T>(t)..., p); }
    case 'i': return Call(f, a, i + 1, m, std::forward<T>(t)..., atoi(x.t.c_str()));
    case 'l': { const long v = atol(x.t.c_str()); return Call(f, a, i + 1, m, std::forward<T>(t)..., v); }
    default: return Call(f, a, i + 1, m, std::forward<T>(t)..., x.t);
  }
}
static std::string many(const std::vector<std::string> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + Ev::codes(v[i]);
  return r + "]";
}
static void Dirs(const std::string &n, std::vector<std::string> *gone) {
  for (size_t p = n.find('/'); p != std::string::npos; p = n.find('/', p + 1))
    if (p > 0 && mkdir(n.substr(0, p).c_str(), 0700) == 0) gone->push_back(n.substr(0, p));
}
static Status Make(const std::string &k, const std::string &m) {
  if (k == "io") return Status::IOError(m);
  if (k == "corrupt") return Status::Corruption(m);
  if (k == "todo") return Status::NotImplemented(m);
  if (k == "run") return Status::RuntimeError(m);
  if (k == "info") return Status::Info(m);
  return m.empty() ? Status::OK() : Status();
}
static Status Hand(const std::string &k, const std::string &m) { PK_CHECK_STATUS(Make(k, m)); return Status::OK(); }

static void script(int, const Script &s) {
  char dir[] = "/tmp/vstrXXXXXX";
  if (!mkdtemp(dir)) _exit(3);
  if (chdir(dir)) _exit(3);
  Configuration *c = nullptr;
  util::ReadableFile *fd = nullptr;
  std::vector<std::string> gone;
  auto tidy = [&gone]() {
    for (size_t i = gone.size(); i-- > 0;) { unlink(gone[i].c_str()); rmdir(gone[i].c_str()); }
    gone.clear();
  };
  Ev("new").emit();
  for (const std::string &l : s) {
    Tok k(l);
    std::string op = k.w();
    if (op == "trim" || op == "low") {
      std::string x = unhex(k.w());
      Ev(op.c_str()).raw("s", Ev::codes(x)).raw("r", Ev::codes(op == "trim" ? util::Trim(x) : util::Tolower(x))).emit();
    } else if (op == "split") {
      std::string x = unhex(k.w()), d = unhex(k.w());
      Ev("split").raw("s", Ev::codes(x)).raw("d", Ev::codes(d)).raw("r", many(util::Split(x, d))).emit();
    } else if (op == "fmt") {
      std::string f = unhex(k.w());
      std::vector<Arg> a;
      std::vector<std::string> at;
      while (k.more()) {
        std::string w = k.w();
        Arg x;
        x.kind = w[0];
        x.t = w[0] == 's' || w[0] == 'c' ? unhex(w.substr(1)) : w.substr(1);
        a.push_back(x);
        at.push_back(x.t);
      }
      Ev("fmt").raw("f", Ev::codes(f)).raw("a", many(at)).raw("r", Ev::codes(Call(f, a, 0, std::integral_constant<int, 5>()))).emit();
    } else if (op == "long") {
      std::string x = unhex(k.w());
      long v = -77;
      Status st = util::StringToLong(x, &v);
      Ev("long").raw("s", Ev::codes(x)).b("ok", st.ok()).raw("v", Ev::codes(std::to_string(v))).raw("msg", Ev::codes(st.what())).emit();
    } else if (op == "cpy") {
      std::string x = unhex(k.w());
      int n = k.n();
      char *src = new char[x.size() + 1], *dst = new char[n + 2];
      memcpy(src, x.c_str(), x.size() + 1);
      memset(dst, 0xEE, n + 2);
      std::string was(dst, n + 2);
      long ret = pasco_strlcpy(dst, src, n);
      Ev("cpy").raw("s", Ev::codes(x)).i("n", n).i("ret", ret).raw("was", Ev::codes(was)).raw("now", Ev::codes(std::string(dst, n + 2))).emit();
      delete[] src;
      delete[] dst;
    } else if (op == "st") {
      std::string kind = k.w(), m = unhex(k.w());
      Status st = Make(kind, m), copy(st), other = Status::IOError("other"), h = Hand(kind, m);
      other = copy;
      bool same = other.code() == st.code() && other.what() == st.what() && copy.what() == st.what() && h.code() == st.code() && h.what() == st.what();
      Ev("st").s("kind", kind).raw("m", Ev::codes(m)).b("ok", st.ok()).i("code", st.code()).raw("what", Ev::codes(st.what())).b("same", same).emit();
    } else if (op == "conf") {      // conf NAME BODY | conf NAME : without a file
      tidy();
      std::string n = unhex(k.w());
      bool there = k.more();
      std::string b = there ? unhex(k.w()) : "";
      if (there) { Dirs(n, &gone); put(n, b); gone.push_back(n); }
      delete c;
      c = new Configuration();
      Status st = c->Read(n);
      Ev("conf").raw("name", Ev::codes(n)).b("there", there).raw("b", Ev::codes(b)).b("ok", st.ok()).raw("msg", Ev::codes(st.what())).emit();
    } else if (op == "get") {
      std::string key = unhex(k.w()), x;
      int i = 0;
      Status a = c->GetString(key, &x), b = c->GetPath(key, &x), d = c->GetInteger(key, &i);
      Ev("get").raw("k", Ev::codes(key)).b("sok", a.ok()).b("pok", b.ok()).b("iok", d.ok()).raw("smsg", Ev::codes(a.what()))
          .raw("pmsg", Ev::codes(b.what())).raw("imsg", Ev::codes(d.what())).emit();
    } else if (op == "open") {      // open NAME BODY | open NAME
      tidy();
      std::string n = unhex(k.w());
      bool there = k.more();
      std::string b = there ? unhex(k.w()) : "";
      if (there) { Dirs(n, &gone); put(n, b); gone.push_back(n); }
      delete fd;
      fd = new util::ReadableFile();
      Status st = fd->Open(n);
      Ev("open").raw("name", Ev::codes(n)).b("there", there).raw("b", Ev::codes(b)).b("ok", st.ok()).raw("msg", Ev::codes(st.what()))
          .raw("fn", Ev::codes(fd->filename())).i("size", st.ok() ? fd->file_size() : -1).emit();
    } else if (op == "read") {
      int n = k.n();
      Status st;
      std::vector<char> b(n);
      if (n == 4) { int32_t v = 0; st = fd->ReadValue(&v); memcpy(b.data(), &v, 4); }
      else if (n == 1) { uint8_t v = 0; st = fd->ReadValue(&v); memcpy(b.data(), &v, 1); }
      else st = fd->Read(b.data(), n);
      Ev("read").i("n", n).b("ok", st.ok()).raw("t", Ev::codes(st.ok() ? std::string(b.begin(), b.end()) : "")).raw("msg", Ev::codes(st.what())).emit();
    } else if (op == "expect") {
      std::string x = unhex(k.w());
      Status st = fd->ReadAndVerifyString(x);
      Ev("expect").raw("s", Ev::codes(x)).b("ok", st.ok()).raw("msg", Ev::codes(st.what())).emit();
    }
  }
  delete c;
  delete fd;
  tidy();
  if (chdir("/")) _exit(3);
  rmdir(dir);
}
VH_MAIN(script)
