// Text files, configurations, symbol tables (P15, P16)
#include "vh.h"
#include <sys/stat.h>
#include "configuration.h"
#include "symbol_table.h"
#include "util.h"
using namespace vh;
using namespace pocketkaldi;

static std::string unhex(const std::string &h) {
  std::string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
  return r;
}
static std::string runs(const std::string &t) {
  std::string r = "[";
  for (size_t i = 0; i < t.size();) {
    size_t j = i;
    while (j < t.size() && t[j] == t[i]) ++j;
    if (i) r += ",";
    r += "[" + std::to_string((int)(unsigned char)t[i]) + "," + std::to_string(j - i) + "]";
    i = j;
  }
  return r + "]";
}
static void put(const std::string &f, const std::string &b) {
  FILE *fd = fopen(f.c_str(), "wb");
  fwrite(b.data(), 1, b.size(), fd);
  fclose(fd);
}

static void script(int, const Script &s) {
  char dir[] = "/tmp/vtxtXXXXXX";
  if (!mkdtemp(dir)) _exit(3);
  std::string D = dir;
  if (chdir(dir)) _exit(3);
  mkdir("sub", 0700);
  mkdir("sub/x", 0700);
  Configuration *c = nullptr;
  SymbolTable *t = nullptr;
  Ev("new").emit();
  for (const std::string &l : s) {
    Tok k(l);
    std::string op = k.w();
    if (op == "file" || op == "bfile") {       // runs: code count ...
      std::string b;
      while (k.more()) { int ch = k.n(); b += std::string(k.n(), (char)ch); }
      put("f", b);
      Ev("file").raw("r", runs(b)).emit();
      util::ReadableFile *fd;
      FILE *raw = nullptr;
      Status st;
      if (op == "file") { fd = new util::ReadableFile(); st = fd->Open("f"); if (!st.ok()) _exit(4); }
      else { raw = fopen("f", "rb"); fd = new util::ReadableFile(raw); }
      int after = 0;
      for (int i = 0; after < 3 && i < 100000; ++i) {
        std::string line = "unset";
        Status q = Status::OK();
        bool got = fd->ReadLine(&line, &q);
        Ev("line").b("got", got).b("st", q.ok()).b("err", !q.ok() && !q.what().empty()).raw("t", got ? runs(line) : "[]").emit();
        if (!got) ++after;
      }
      delete fd;
      if (raw) fclose(raw);
    } else if (op == "conf") {
      std::string n = k.w(), b = unhex(k.w());
      if (n[0] == '@') n = D + n.substr(1);
      put(n, b);
      delete c;
      c = new Configuration();
      Status st = c->Read(n);
      Ev("conf").raw("name", Ev::codes(n)).raw("b", Ev::codes(b)).b("ok", st.ok()).b("err", !st.ok() && !st.what().empty()).emit();
    } else if (op == "noconf") {
      Configuration x;
      Status st = x.Read(D + "/missing/x.conf");
      Ev("noconf").b("ok", st.ok()).b("err", !st.what().empty()).emit();
    } else if (op == "q") {
      std::string key = unhex(k.w());
      std::string sv = "x", pv = "x";
      int iv = -5;
      Status a = c->GetString(key, &sv), b = c->GetPath(key, &pv), d = c->GetInteger(key, &iv);
      auto err = [](const Status &x) { return !x.ok() && !x.what().empty(); };
      Ev("q").raw("k", Ev::codes(key)).b("sok", a.ok()).b("pok", b.ok()).b("iok", d.ok())
          .b("serr", err(a)).b("perr", err(b)).b("ierr", err(d))
          .raw("s", Ev::codes(sv)).raw("p", Ev::codes(pv)).i("i", iv)
          .raw("sdef", Ev::codes(c->GetStringOrElse(key, "DF"))).raw("pdef", Ev::codes(c->GetPathOrElse(key, "DF")))
          .i("idef", c->GetIntegerOrElse(key, 77)).emit();
    } else if (op == "sym") {
      std::string b = unhex(k.w());
      put("words", b);
      delete t;
      t = new SymbolTable();
      Status st = t->Read("words");
      Ev("sym").raw("b", Ev::codes(b)).b("ok", st.ok()).b("err", !st.ok() && !st.what().empty())
          .i("bos", st.ok() ? t->bos_id() : -9).i("eos", st.ok() ? t->eos_id() : -9).emit();
    } else if (op == "bigsym") {
      // <s> 0, </s> 1, w2 2, ..., w(N-1) N-1; then ids and words of the N-th kind
      long n = k.n();
      std::string b = "<s> 0\n</s> 1\n";
      for (long i = 2; i < n; ++i) b += "w" + std::to_string(i) + " " + std::to_string(i) + "\n";
      put("words", b);
      SymbolTable x;
      Status st = x.Read("words");
      std::string q = "[";
      while (st.ok() && k.more()) {
        long i = k.n();
        q += std::string(q.size() > 1 ? "," : "") + "[" + std::to_string(i) + "," + std::to_string(x.GetId("w" + std::to_string(i))) + "," +
             (i < n ? Ev::codes(x.Get(i)) : std::string("[]")) + "]";
      }
      // and all of them
      long bad = -1;
      for (long i = 2; st.ok() && i < n && bad < 0; ++i) {
        std::string w = "w" + std::to_string(i);
        if (x.GetId(w) != i || w != x.Get(i)) bad = i;
      }
      Ev("bigsym").i("n", n).b("ok", st.ok()).i("bos", st.ok() ? x.bos_id() : -9).i("eos", st.ok() ? x.eos_id() : -9)
          .raw("q", q + "]").i("bad", bad).emit();
    } else if (op == "nosym") {
      SymbolTable x;
      Status st = x.Read(D + "/missing/words");
      Ev("nosym").b("ok", st.ok()).b("err", !st.what().empty()).emit();
    } else if (op == "w") {
      std::string w = unhex(k.w());
      Ev("w").raw("w", Ev::codes(w)).i("id", t->GetId(w)).emit();
    } else if (op == "i") {
      int id = k.n();
      Ev("i").i("id", id).raw("w", Ev::codes(t->Get(id))).emit();
    }
  }
  delete c;
  delete t;
  if (chdir("/")) _exit(3);
  for (const char *f : {"/f", "/words", "/t.conf", "/sub/t.conf", "/sub/x/t.conf"}) unlink((D + f).c_str());
  rmdir((D + "/sub/x").c_str());
  rmdir((D + "/sub").c_str());
  rmdir(dir);
}
VH_MAIN(script)
