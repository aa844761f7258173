// Drives Fst, LmFst, DeltaLmFst, CachedFst on LM files written from the script.
// script: lm START NSTATES BOS EOS BUCKETS ; st FINAL|inf NARCS (IL NS W OL)* ; sm W... ; load
//         a LEV S X ; f LEV S ; it S ; s LEV
//         wide KW KL (after lm): label x is KW*x and state q is KL*q for the engine, everything in between is empty
// weights are in units of 1/4
#include <memory>
#include "vh.h"
#include "fst.h"
#include "symbol_table.h"
#include "vector.h"
using namespace pocketkaldi;
using vh::Ev; using vh::Tok;
static const long kInf = 999999;
static long wt(float w) { return std::isinf(w) && w > 0 ? kInf : vh::unit(w, 4); }
struct A { int il, ns, w, ol; };

static std::string arcs_json(const std::vector<A> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i)
    r += std::string(i ? "," : "") + "[" + std::to_string(v[i].il) + "," + std::to_string(v[i].ns) + "," +
         std::to_string(v[i].w) + "," + std::to_string(v[i].ol) + "]";
  return r + "]";
}
static int KW = 1, KL = 1;
static int back(int x, int k) { return x % k ? -99 : x / k; }
static std::string arc_json(bool ok, const FstArc &a) {
  if (!ok) return "[]";
  return "[" + std::to_string(back(a.input_label, KW)) + "," + std::to_string(back(a.next_state, KL)) + "," + std::to_string(wt(a.weight)) +
         "," + std::to_string(back(a.output_label, KW)) + "]";
}

static void script(int idx, const vh::Script &s) {
  Ev("new").emit();
  std::vector<std::vector<A>> st; std::vector<long> fin; std::vector<long> small;
  int start = 0, bos = 1, eos = 2, nb = 2;
  std::unique_ptr<LmFst> lm, lm0; std::unique_ptr<DeltaLmFst> delta; std::unique_ptr<CachedFst> cache;
  std::unique_ptr<Vector<float>> sm; std::unique_ptr<SymbolTable> tab;
  for (const std::string &l : s) {
    Tok t(l);
    std::string op = t.w();
    if (op == "lm") { start = t.n(); t.n(); bos = t.n(); eos = t.n(); nb = t.n(); st.clear(); fin.clear(); small.clear(); KW = KL = 1; }
    else if (op == "wide") { KW = t.n(); KL = t.n(); }
    else if (op == "st") {
      std::string f = t.w(); fin.push_back(f == "inf" ? kInf : atol(f.c_str()));
      int n = t.n(); std::vector<A> as;
      for (int i = 0; i < n; ++i) { A a; a.il = t.n(); a.ns = t.n(); a.w = t.n(); a.ol = t.n(); as.push_back(a); }
      st.push_back(as);
    } else if (op == "sm") { while (t.more()) small.push_back(t.n()); }
    else if (op == "load") {
      char base[64]; snprintf(base, 64, "lm-%d-%d", (int)getpid(), idx);
      std::string fn = std::string(base) + ".fst", sn = std::string(base) + ".txt", vn = std::string(base) + ".vec";
      FILE *f = fopen(fn.c_str(), "wb");
      char name[32] = {0}; strcpy(name, "pk::fst_0"); fwrite(name, 32, 1, f);
      int narc = 0; for (auto &v : st) narc += v.size();
      int32_t hdr[4] = {(int32_t)(12 + 8 * KL * st.size() + 16 * narc), (int32_t)(KL * st.size()), narc, start * KL};
      fwrite(hdr, 4, 4, f);
      for (long w : fin) for (int k = 0; k < KL; ++k) { float x = k || w == kInf ? INFINITY : w / 4.0f; fwrite(&x, 4, 1, f); }
      int32_t pos = 0;
      for (auto &v : st) {
        for (int k = 0; k < KL; ++k) { int32_t x = k || v.empty() ? -1 : pos; fwrite(&x, 4, 1, f); }
        pos += v.size();
      }
      for (auto &v : st) for (A &a : v) {
        int32_t x[3] = {a.ns * KL, a.il * KW, a.ol * KW}; float w = a.w / 4.0f;
        fwrite(x, 4, 3, f); fwrite(&w, 4, 1, f);
      }
      fclose(f);
      f = fopen(sn.c_str(), "w"); fprintf(f, "<eps> 0\n<s> %d\n</s> %d\n", bos * KW, eos * KW); fclose(f);
      cache.reset(); delta.reset(); lm.reset(new LmFst()); lm0.reset(new LmFst()); tab.reset(new SymbolTable());
      sm.reset(new Vector<float>((int)((small.size() - 1) * KW + 1)));
      for (int i = 0; i < sm->Dim(); ++i) (*sm)(i) = i % KW ? 1000.0f : small[i / KW] / 4.0f;
      bool ok = true;
      { util::ReadableFile rf; ok = ok && rf.Open(fn).ok(); ok = ok && lm->Read(&rf).ok(); }
      { util::ReadableFile rf; ok = ok && rf.Open(fn).ok(); ok = ok && lm0->Read(&rf).ok(); }
      ok = ok && tab->Read(sn).ok();
      unlink(fn.c_str()); unlink(sn.c_str());
      if (ok) {
        lm0->InitBucket0();
        delta.reset(new DeltaLmFst(sm.get(), idx % 2 ? lm0.get() : lm.get(), tab.get()));
        cache.reset(new CachedFst(delta.get(), nb));
      }
      std::string aj = "[";
      for (size_t i = 0; i < st.size(); ++i) aj += (i ? "," : "") + arcs_json(st[i]);
      Ev("lm").i("start", start).raw("arcs", aj + "]").list("fin", fin).list("small", small).i("bos", bos).i("eos", eos).b("ok", ok).emit();
      if (!ok) return;
    } else if (op == "a") {
      std::string lev = t.w(); int q = t.n(), x = t.n();
      FstArc a(-5, -5, -5, -5);
      bool ok = lev == "fst" ? lm->Fst::GetArc(q * KL, x * KW, &a) : lev == "lm" ? lm->GetArc(q * KL, x * KW, &a) : lev == "lm0" ? lm0->GetArc(q * KL, x * KW, &a) :
                lev == "delta" ? delta->GetArc(q * KL, x * KW, &a) : cache->GetArc(q * KL, x * KW, &a);
      Ev("arc").s("lev", lev).i("s", q).i("x", x).raw("arc", arc_json(ok, a)).emit();
    } else if (op == "f") {
      std::string lev = t.w(); int q = t.n();
      float w = lev == "fst" ? lm->Fst::Final(q * KL) : lev == "lm" ? lm->Final(q * KL) : lev == "lm0" ? lm0->Final(q * KL) :
                lev == "delta" ? delta->Final(q * KL) : cache->Final(q * KL);
      Ev("final").s("lev", lev).i("s", q).i("w", wt(w)).emit();
    } else if (op == "it") {
      int q = t.n();
      Fst::ArcIterator it = lm->IterateArcs(q * KL);
      std::string r = "["; const FstArc *a; bool first = true;
      while ((a = it.Next()) != nullptr) { r += (first ? "" : ",") + arc_json(true, *a); first = false; }
      if (it.Next() != nullptr) r += ",[]";
      Ev("iter").i("s", q).raw("arcs", r + "]").emit();
    } else if (op == "s") {
      std::string lev = t.w();
      int q = lev == "delta" ? delta->StartState() : lev == "cache" ? cache->StartState() : lm->StartState();
      Ev("start").s("lev", lev).i("s", back(q, KL)).emit();
    }
  }
}
VH_MAIN(script)
