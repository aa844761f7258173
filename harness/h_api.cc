// The whole recognizer through the C API (P18, P19, P20, P21). Costs in units of 1/4.
// script:
//   m ; g START ; st ... ; map PDF* ; lm START BOS EOS ; lst ... ; sm W* ; sym ID NAME ; ctx L R CHUNK ;
//   tab S* (one line per loud/quiet pattern of L+1+R frames, first frame = lowest bit)
//   load R                     write the model of recognizer R and ce_stt_init it
//   audio A BYTES SEED LVL N LVL N ...   samples of level 0 (silence) or 1 (noise) of width BYTES
//   uinit U R A CH RATE BITS ; proc U N ; eos U ; udel U ; rdel R ; bad U KIND ; hyp U
//   par ... endpar             the calls between run in one thread per utterance
#include <sys/stat.h>
#include <sys/types.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <map>
#include <memory>
#include <thread>
#include "lmdef.h"
#include "nndef.h"
#include "ce_stt.h"
#include "fst/fstlib.h"
#ifdef COUNT_HEAP
#include "heap.h"
#endif
using vh::Ev; using vh::Tok;
static const float U = 4.0f;

struct Model {
  GraphDef g, lm;
  std::vector<long> map, small;
  int bos = 1, eos = 2;
  bool haslm = false;
  std::vector<std::pair<int, std::string> > syms;
  int L = 0, R = 0, chunk = 1;
  std::vector<std::vector<long> > tab;
  std::string Json() const {
    std::string s = "{\"g\":" + g.json() + ",\"map\":" + JList(map) + ",\"lm\":";
    if (haslm) s += "{\"on\":true,\"lm\":" + lm.json() + ",\"small\":" + JList(small) + ",\"bos\":" + std::to_string(bos) + ",\"eos\":" + std::to_string(eos) + "}";
    else s += "{\"on\":false}";
    s += ",\"syms\":[";
    for (size_t i = 0; i < syms.size(); ++i) s += std::string(i ? "," : "") + "[" + std::to_string(syms[i].first) + "," + Ev::codes(syms[i].second) + "]";
    s += "],\"left\":" + std::to_string(L) + ",\"right\":" + std::to_string(R) + ",\"chunk\":" + std::to_string(chunk) + ",\"tab\":[";
    for (size_t i = 0; i < tab.size(); ++i) s += (i ? "," : "") + JList(tab[i]);
    return s + "]}";
  }
};

static void PutF(std::string *o, float v) { o->append((const char *)&v, 4); }
static void PutVecF(std::string *o, const std::vector<float> &v) {
  *o += "VEC0"; Put32(o, 4 * v.size() + 4); Put32(o, v.size());
  for (float x : v) PutF(o, x);
}
static void PutMatF(std::string *o, const std::vector<std::vector<float> > &m) {
  *o += "MAT0"; Put32(o, 8); Put32(o, m.size()); Put32(o, m[0].size());
  for (auto &r : m) PutVecF(o, r);
}
// splice, narrow, linear to one logit per pattern, softmax (one-hot), linear to the scores
static std::string Net(const Model &m) {
  int K = m.L + m.R + 1, P = 1 << K, D = 40, N = m.map.empty() ? 1 : (int)m.tab[0].size();
  std::string o = "NN02";
  Put32(&o, m.L); Put32(&o, m.R); Put32(&o, K > 1 ? 5 : 3);
  if (K > 1) {
    o += "LAY0"; Put32(&o, 6); Put32(&o, K); for (int k = -m.L; k <= m.R; ++k) Put32(&o, k);
    o += "LAY0"; Put32(&o, 9); Put32(&o, m.L); Put32(&o, m.R);
  }
  std::vector<std::vector<float> > w(K * D, std::vector<float>(P));
  for (int k = 0; k < K; ++k) for (int d = 0; d < D; ++d) for (int p = 0; p < P; ++p) w[k * D + d][p] = (p >> k & 1) ? .5f : -.5f;
  o += "LAY0"; Put32(&o, 0); PutMatF(&o, w); PutVecF(&o, std::vector<float>(P, 0.0f));
  o += "LAY0"; Put32(&o, 3);
  std::vector<std::vector<float> > v(P, std::vector<float>(N));
  for (int p = 0; p < P; ++p) for (int i = 0; i < N; ++i) v[p][i] = 10.0f * m.tab[p][i] / U;
  o += "LAY0"; Put32(&o, 0); PutMatF(&o, v); PutVecF(&o, std::vector<float>(N, 0.0f));
  return o;
}
static void WriteModel(const Model &m, const std::string &d) {
  mkdir(d.c_str(), 0700);
  fst::StdVectorFst vf;
  for (size_t q = 0; q < m.g.st.size(); ++q) vf.AddState();
  vf.SetStart(m.g.start);
  for (size_t q = 0; q < m.g.st.size(); ++q) {
    if (m.g.fin[q] != kInf) vf.SetFinal(q, m.g.fin[q] / U);
    for (const LArc &a : m.g.st[q]) vf.AddArc(q, fst::StdArc(a.il, a.ol, a.w / U, a.ns));
  }
  fst::StdConstFst(vf).Write(d + "/HCLG.fst");
  Save(d + "/nnet", Net(m));
  std::string o;
  PutVecF(&o, std::vector<float>(m.tab[0].size(), 1.0f)); Save(d + "/prior", o);
  o.clear(); PutIntVec(&o, std::vector<int32_t>(m.map.begin(), m.map.end())); Save(d + "/tid2pdf", o);
  o.clear(); for (auto &s : m.syms) o += s.second + " " + std::to_string(s.first) + "\n"; Save(d + "/words.txt", o);
  std::string c = "fst=HCLG.fst\nnnet=nnet\nprior=prior\ntid2pdf=tid2pdf\nsymbol_table=words.txt\nnum_pdfs=" + std::to_string(m.tab[0].size()) +
      "\nleft_context=" + std::to_string(m.L) + "\nright_context=" + std::to_string(m.R) + "\nchunk_size=" + std::to_string(m.chunk) + "\n";
  if (m.haslm) {
    m.lm.write(d + "/G.fst", U);
    std::vector<float> s; for (long x : m.small) s.push_back(x / U);
    o.clear(); PutVecF(&o, s); Save(d + "/orig", o);
    c += "large_lm=G.fst\noriginal_lm=orig\n";
  }
  Save(d + "/model.conf", c);
}

struct Audio { std::string bytes; int w; std::vector<std::pair<long, long> > loud; };
static Audio MakeAudio(Tok &t) {
  Audio a; a.w = t.n(); unsigned seed = t.n(); long pos = 0;
  while (t.more()) {
    int lvl = t.n(); long n = t.n();
    if (lvl && n > 0) a.loud.push_back(std::make_pair(pos, pos + n));
    for (long i = 0; i < n; ++i) {
      seed = seed * 1103515245u + 12345u;
      int r = (int)((seed >> 8) & 0xffff) - 32768;
      if (lvl && r >= 0 && r < 4096) r += 4096;        // no (nearly) silent samples
      if (lvl && r < 0 && r > -4096) r -= 4096;
      int32_t v = !lvl ? 0 : a.w == 1 ? r / 256 : a.w == 2 ? r / 4 : r * 16384;
      a.bytes.append((const char *)&v, a.w);
    }
    pos += n;
  }
  return a;
}

// one utterance and its log
struct Utt {
  ce_utt_t *u = nullptr;
  const Audio *a = nullptr;
  size_t pos = 0;
  std::vector<std::string> log;
};
static long Milli(float x) { double v = nearbyint(x * 4096.0); return fabs(v) < 1e9 ? (long)v : vh::kBad; }

struct World {
  std::map<int, ce_stt_t *> rec;
  std::map<int, Audio> audio;
  std::map<int, Utt> utt;
};

static void Hyp(Ev *e, Utt &x) {
  e->raw("t", Ev::codes(x.u->hyp)).i("ll", Milli(x.u->loglikelihood_per_frame));
}
// c: error text after the call, only meaningful when the calls are sequential
static void Call(World &w, const std::string &line, std::vector<Ev> *out) {
  Tok t(line);
  std::string op = t.w();
#ifdef COUNT_HEAP
  HeapMark hm;
#define HEAP(e) hm.Put(e)
#else
#define HEAP(e)
#endif
  int id = t.n();
  if (op == "uinit") {
    Utt &x = w.utt[id];
    int r = t.n(), a = t.n();
    ce_wave_format_t f; f.num_channels = t.n(); f.sample_rate = t.n(); f.bits_per_sample = t.n();
    x.a = &w.audio[a]; x.pos = 0;
#ifdef COUNT_HEAP
    hm.Start();
#endif
    x.u = ce_utt_init(w.rec[r], &f);
#ifdef COUNT_HEAP
    hm.Stop();
#endif
    Ev e("uinit");
    e.i("u", id).i("r", r).i("a", a).i("ch", f.num_channels).i("rate", f.sample_rate).i("bits", f.bits_per_sample).b("ok", x.u != nullptr);
    e.b("err", ce_stt_last_error()[0] != 0);
    if (x.u) Hyp(&e, x); else e.raw("t", "[]").i("ll", 0);
    HEAP(&e);
    out->push_back(e);
    return;
  }
  if (op == "rdel") {
#ifdef COUNT_HEAP
    hm.Start();
#endif
    ce_stt_destroy(w.rec.at(id)); w.rec.at(id) = nullptr;
#ifdef COUNT_HEAP
    hm.Stop();
#endif
    Ev e("rdel"); e.i("r", id); HEAP(&e); out->push_back(e);
    return;
  }
  Utt &x = w.utt.at(id);
  if (op == "bad" && id == 0) return;
  if (x.u == nullptr) return;
  if (op == "proc") {
    long n = t.n();
    if (n > (long)(x.a->bytes.size() - x.pos)) n = x.a->bytes.size() - x.pos;
    if (n <= 0) return;
    // a private copy of exactly n bytes: reading beyond them is detected
    std::unique_ptr<char[]> buf(new char[n]);
    memcpy(buf.get(), x.a->bytes.data() + x.pos, n);
    x.pos += n;
#ifdef COUNT_HEAP
    hm.Start();
#endif
    int ret = ce_stt_process(x.u, buf.get(), n);
#ifdef COUNT_HEAP
    hm.Stop();
#endif
    Ev e("proc"); e.i("u", id).i("m", n).i("ret", ret); Hyp(&e, x); HEAP(&e); out->push_back(e);
  } else if (op == "eos") {
#ifdef COUNT_HEAP
    hm.Start();
#endif
    ce_stt_end_of_stream(x.u);
#ifdef COUNT_HEAP
    hm.Stop();
#endif
    Ev e("eos"); e.i("u", id); Hyp(&e, x); HEAP(&e); out->push_back(e);
  } else if (op == "hyp") {
    Ev e("hyp"); e.i("u", id); Hyp(&e, x); HEAP(&e); out->push_back(e);
  } else if (op == "udel") {
#ifdef COUNT_HEAP
    hm.Start();
#endif
    ce_utt_destroy(x.u);
#ifdef COUNT_HEAP
    hm.Stop();
#endif
    x.u = nullptr;
    Ev e("udel"); e.i("u", id); HEAP(&e); out->push_back(e);
  } else if (op == "bad") {
    std::string kind = t.w();
    char c[4] = {1, 2, 3, 4};
    int ret;
#ifdef COUNT_HEAP
    hm.Start();
#endif
    if (kind == "null") ret = ce_stt_process(x.u, nullptr, 4);
    else if (kind == "zero") ret = ce_stt_process(x.u, c, 0);
    else if (kind == "neg") ret = ce_stt_process(x.u, c, -1);
    else if (kind == "min") ret = ce_stt_process(x.u, c, -2147483647 - 1);
    else ret = ce_stt_process(x.u, nullptr, 0);
#ifdef COUNT_HEAP
    hm.Stop();
#endif
    Ev e("bad"); e.i("u", id).i("ret", ret).b("err", ce_stt_last_error()[0] != 0); Hyp(&e, x); HEAP(&e); out->push_back(e);
  }
}

static std::string unhex(const std::string &h) {
  std::string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
  return r;
}
static std::string slurp(const std::string &f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss; ss << in.rdbuf();
  return ss.str();
}

static const char *kFiles[] = {"HCLG.fst", "nnet", "prior", "tid2pdf", "words.txt", "G.fst", "orig", "model.conf"};
static void Load(World &w, const Model &m, const std::string &D, int r, std::vector<Ev> *out) {
  std::string d = D + "/" + std::to_string(r);
  WriteModel(m, d);
#ifdef COUNT_HEAP
  HeapMark hm; hm.Start();
#endif
  w.rec.at(r) = ce_stt_init((d + "/model.conf").c_str());
#ifdef COUNT_HEAP
  hm.Stop();
#endif
  Ev e("load"); e.i("r", r).b("ok", w.rec.at(r) != nullptr).raw("m", m.Json()); HEAP(&e); out->push_back(e);
  for (const char *f : kFiles) unlink((d + "/" + f).c_str());
  rmdir(d.c_str());
}
static std::string Sub(const std::string &x, const std::string &D) {
  std::string r;
  for (char c : x) if (c == '@') r += D + "/"; else r += c;
  return r;
}
static void Play(const vh::Script &s) {
  std::vector<std::string> kept, files;
  char dir[] = "/tmp/vapiXXXXXX";
  if (!mkdtemp(dir)) _exit(3);
  std::string D = dir;
  Model m;
  World w;
  bool par = false;
  std::map<int, std::vector<std::string> > todo;   // key: utterance, 1000 + recognizer
  std::map<int, Model> models;
  std::vector<Ev> out;
  Ev("new").emit();
  for (const std::string &l : s) {
    Tok t(l);
    std::string op = t.w();
    if (op == "m") m = Model();
    else if (op == "g") m.g.start = t.n();
    else if (op == "st") m.g.state(t);
    else if (op == "map") { while (t.more()) m.map.push_back(t.n()); }
    else if (op == "lm") { m.haslm = true; m.lm.start = t.n(); m.bos = t.n(); m.eos = t.n(); }
    else if (op == "lst") m.lm.state(t);
    else if (op == "sm") { while (t.more()) m.small.push_back(t.n()); }
    else if (op == "sym") { int i = t.n(); m.syms.push_back(std::make_pair(i, unhex(t.w()))); }
    else if (op == "ctx") { m.L = t.n(); m.R = t.n(); m.chunk = t.n(); }
    else if (op == "tab") { std::vector<long> v; while (t.more()) v.push_back(t.n()); m.tab.push_back(v); }
    else if (op == "audio") {
      int a = t.n(); w.audio[a] = MakeAudio(t);
      Ev e("audio"); e.i("a", a).i("w", w.audio[a].w).i("n", w.audio[a].bytes.size());
      std::string j = "[";
      for (size_t i = 0; i < w.audio[a].loud.size(); ++i) j += std::string(i ? "," : "") + "[" + std::to_string(w.audio[a].loud[i].first) + "," + std::to_string(w.audio[a].loud[i].second) + "]";
      e.raw("loud", j + "]").emit();
    } else if (op == "load" && !par) {
      int r = t.n(); w.rec[r]; out.clear(); Load(w, m, D, r, &out); for (Ev &e : out) e.emit();
    } else if (op == "try") {
      // try R (NAME HOW ...)* : how = missing | dir | cut N | set HEX | sub HEX HEX | app HEX | poke POS HEX | swap NAME
      int r = t.n();
      std::string d = D + "/" + std::to_string(r);
      if (r % 2 == 0) d += "{}";
      WriteModel(m, d);
      std::map<std::string, std::string> st;
      for (const char *f : kFiles) st[f] = "good";
      if (!m.haslm) { st["G.fst"] = "missing"; st["orig"] = "missing"; }
      while (t.more()) {
        std::string f = t.w(), how = t.w(), fn = d + "/" + f, b, was;
        if (st[f] != "missing" && st[f] != "dir") was = b = slurp(fn);
        bool gone = false;
        if (st[f] == "missing" || st[f] == "dir") { gone = true; if (how == "cut" || how == "poke") { t.n(); } if (how == "poke" || how == "set" || how == "app" || how == "sub") t.w(); if (how == "sub") t.w(); }
        else if (how == "missing") { unlink(fn.c_str()); st[f] = "missing"; gone = true; }
        else if (how == "dir") { unlink(fn.c_str()); mkdir(fn.c_str(), 0700); st[f] = "dir"; gone = true; }
        else if (how == "cut") b = b.substr(0, t.n());
        else if (how == "set") b = unhex(t.w());
        else if (how == "sub") { std::string x = unhex(t.w()), y = unhex(t.w()); size_t p = b.find(x); if (p != std::string::npos) b = b.substr(0, p) + y + b.substr(p + x.size()); }
        else if (how == "app") b += unhex(t.w());
        else if (how == "poke") { size_t p = t.n(); std::string x = unhex(t.w()); if (p + x.size() <= b.size()) b.replace(p, x.size(), x); }
        if (gone || b == was || st[f] == "missing" || st[f] == "dir") continue;
        Save(fn, b);
        st[f] = f == "HCLG.fst" && (how == "cut" || b.substr(0, 4) != was.substr(0, 4)) ? "cut" : "bytes";
      }
      st["model.conf"] = st["model.conf"] == "good" ? "bytes" : st["model.conf"];
      std::string fs = "[";
      for (auto &kv : st)
        fs += std::string(fs.size() > 1 ? "," : "") + "{\"n\":" + Ev::codes(kv.first) + ",\"s\":\"" + kv.second + "\",\"b\":" +
              (kv.second == "bytes" && kv.first != "HCLG.fst" ? Ev::codes(slurp(d + "/" + kv.first)) : "[]") + "}";
      std::string cn = d + "/model.conf";
#ifdef COUNT_HEAP
      HeapMark hm; hm.Start();
#endif
      ce_stt_t *rec = ce_stt_init(cn.c_str());
#ifdef COUNT_HEAP
      hm.Stop();
#endif
      Ev e("try");
      e.i("r", r).b("ok", rec != nullptr).raw("files", fs + "]").raw("dir", Ev::codes(d + "/")).raw("conf", Ev::codes("model.conf"));
      e.raw("err", rec ? "[]" : Ev::codes(std::string(ce_stt_last_error()).substr(0, 600)));
      HEAP(&e);
      e.emit();
      if (rec) {
#ifdef COUNT_HEAP
        HeapMark h2; h2.Start();
#endif
        ce_stt_destroy(rec);
#ifdef COUNT_HEAP
        h2.Stop();
        Ev e2("rdel"); e2.i("r", r); h2.Put(&e2); e2.emit();
#endif
      }
      for (const char *f : kFiles) { unlink((d + "/" + f).c_str()); rmdir((d + "/" + f).c_str()); }
      rmdir(d.c_str());
    } else if (op == "keep") {
      // keep R: the model of recognizer R for the command line tool
      int r = t.n(); std::string d = D + "/k" + std::to_string(r);
      WriteModel(m, d); kept.push_back(d);
      Ev("keep").i("r", r).raw("n", Ev::codes(d + "/model.conf")).emit();
    } else if (op == "wav") {
      // wav NAME U A CH RATE BITS (POS HEX)*: the audio A as a file, U = the utterance it was given to
      std::string n = D + "/" + t.w(); int u = t.n(), a = t.n();
      int32_t ch = t.n(), rate = t.n(), bits = t.n(), cut = -1;
      std::string h = "RIFF", &b = w.audio[a].bytes;
      Put32(&h, 36 + b.size()); h += "WAVEfmt "; Put32(&h, 16); Put32(&h, 1 | ch << 16); Put32(&h, rate); Put32(&h, rate * bits / 8);
      Put32(&h, (bits / 8) | bits << 16); h += "data"; Put32(&h, b.size());
      while (t.more()) {
        std::string k = t.w();
        if (k == "cut") { cut = t.n(); continue; }
        size_t p = atol(k.c_str()); std::string x = unhex(t.w());
        h.replace(p, x.size(), x); h.resize(44);
      }
      std::string all = h + b;
      if (cut >= 0) all = all.substr(0, cut);
      Save(n, all); files.push_back(n);
      Ev("wav").raw("n", Ev::codes(n)).i("u", u).raw("hdr", Ev::codes(all.substr(0, 44))).emit();
    } else if (op == "list") {
      // list NAME HEX: a list file, @ = the directory
      std::string n = D + "/" + t.w(), x = Sub(unhex(t.w()), D);
      Save(n, x); files.push_back(n);
      Ev("list").raw("n", Ev::codes(n)).raw("b", Ev::codes(x)).emit();
    } else if (op == "run") {
      // run HEX*: the tool with these arguments
      std::vector<std::string> args;
      std::string js = "[";
      while (t.more()) { args.push_back(Sub(unhex(t.w()), D)); js += std::string(js.size() > 1 ? "," : "") + Ev::codes(args.back()); }
      std::string fo = D + "/.out", fe = D + "/.err";
      int pid = fork();
      if (pid == 0) {
        int o = open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(o, 1); dup2(e, 2);
        struct rlimit lim = {40, 40};      // lists are longer than this
        setrlimit(RLIMIT_NOFILE, &lim);
        setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:handle_abort=0:handle_segv=0", 1);
        const char *cli = getenv("CE_CLI");
        std::vector<char *> av; av.push_back((char *)cli);
        for (std::string &x : args) av.push_back((char *)x.c_str());
        av.push_back(nullptr);
        execv(cli, av.data()); _exit(98);
      }
      int st = 0; waitpid(pid, &st, 0);
      int code = WIFEXITED(st) ? WEXITSTATUS(st) : 0;
      Ev("run").raw("args", js + "]").raw("out", Ev::codes(slurp(fo))).b("err", !slurp(fe).empty()).b("crash", !WIFEXITED(st) || code >= 98).i("code", code).emit();
      unlink(fo.c_str()); unlink(fe.c_str());
    } else if (op == "flat") {
      // flat U SLACK PERFRAME: from now on the utterance grows by at most SLACK + PERFRAME per frame
      int u = t.n(); long a = t.n(), b = t.n();
      Ev("flat").i("u", u).i("slack", a).i("per", b).emit();
    } else if (op == "nul") {
      // calls without an utterance
      std::string kind = t.w();
      char c[4] = {0};
      int ret = -1;
      ce_utt_t fake; memset(&fake, 0, sizeof(fake));
      if (kind == "proc") ret = ce_stt_process(nullptr, c, 4);
      else if (kind == "procfake") ret = ce_stt_process(&fake, c, 4);
      else if (kind == "eos") ce_stt_end_of_stream(nullptr);
      else ce_stt_end_of_stream(&fake);
      Ev("nul").i("ret", ret).b("err", ce_stt_last_error()[0] != 0).emit();
    } else if (op == "par") { par = true; todo.clear(); models.clear(); }
    else if (op == "endpar") {
      par = false;
      std::vector<std::thread> th;
      std::map<int, std::vector<Ev> > logs;
      for (auto &kv : todo) { logs[kv.first]; if (kv.first < 1000) w.utt[kv.first]; else w.rec[kv.first - 1000]; }
      for (auto &kv : todo) {
        const std::vector<std::string> *lines = &kv.second;
        std::vector<Ev> *lg = &logs[kv.first];
        th.emplace_back([&w, &models, &D, lines, lg] { for (const std::string &x : *lines) {
            Tok q(x); std::string o = q.w(); int r = q.n();
            if (o == "load") Load(w, models.at(r), D, r, lg); else Call(w, x, lg);
          }
        });
      }
      for (auto &x : th) x.join();
      for (auto &kv : logs) for (Ev &e : kv.second) e.emit();
    } else if (par) {
      Tok q(l); q.w(); int id = q.n();
      if (op == "load") models[id] = m;
      todo[op == "load" || op == "rdel" ? 1000 + id : id].push_back(l);
    }
    else { out.clear(); Call(w, l, &out); for (Ev &e : out) e.emit(); }
  }
  for (const std::string &d : kept) { for (const char *f : kFiles) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); }
  for (const std::string &f : files) unlink(f.c_str());
  rmdir(dir);
}
static void script(int, const vh::Script &s) {
#ifdef COUNT_HEAP
  // everything once without a log: what is allocated once per process is there afterwards
  FILE *log = vh::g_out;
  vh::g_out = fopen("/dev/null", "w");
  Play(s);
  fclose(vh::g_out);
  vh::g_out = log;
#endif
  Play(s);
}
VH_MAIN(script)
