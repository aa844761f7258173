// Drives Decoder on graphs built from the script. Weights are in units of 1/64.
// script: g START ; st FINAL|inf NARCS (TID NS W OL)* ; map PDF* ; am A2 ;
//         lm START BOS EOS ; lst FINAL NARCS ... ; sm W* ; load [const]
//         init ; f LOGP* ; eos ; best ; act N (upper bound of active tokens for the following frames)
//         loop R K P LOGP*: R times the given K frames of P values
//         wide KS KT KP KW KL: graph state q, transition-id t, pdf p, word w and LM state s of the script are
//           q*KS, t*KT, p*KP, w*KW and s*KL for the decoder (everything in between exists and is never right)
//         rep S N: state S of the graph stands for N copies (all arcs into it and its out arcs duplicated)
#include <memory>
#include "lmdef.h"
#include "decoder.h"
#include "fst/fstlib.h"
using namespace pocketkaldi;
using vh::Ev; using vh::Tok;
static const float U = 64.0f;

static void script(int idx, const vh::Script &s) {
  Ev("new").emit();
  GraphDef g, lm; std::vector<long> map, small; std::vector<long> rep;
  long KS = 1, KT = 1, KP = 1, KW = 1, KL = 1;
  int am2 = 2, bos = 1, eos = 2; bool haslm = false; long act = 1;
  std::unique_ptr<fst::StdVectorFst> vf; std::unique_ptr<fst::StdConstFst> cf;
  std::unique_ptr<Decoder> d; std::unique_ptr<Vector<int32_t>> tm;
  std::unique_ptr<LmFst> big; std::unique_ptr<DeltaLmFst> delta; std::unique_ptr<Vector<float>> sm; std::unique_ptr<SymbolTable> tab;
  for (const std::string &l : s) {
    Tok t(l);
    std::string op = t.w();
    if (op == "g") { g = GraphDef(); lm = GraphDef(); map.clear(); small.clear(); rep.clear(); am2 = 2; haslm = false; act = 1; KS = KT = KP = KW = KL = 1; g.start = t.n(); }
    else if (op == "st") { g.state(t); rep.push_back(1); }
    else if (op == "rep") { int q = t.n(); rep[q] = t.n(); }
    else if (op == "map") { while (t.more()) map.push_back(t.n()); }
    else if (op == "am") am2 = t.n();
    else if (op == "wide") { KS = t.n(); KT = t.n(); KP = t.n(); KW = t.n(); KL = t.n(); }
    else if (op == "act") act = t.n();
    else if (op == "lm") { haslm = true; lm.start = t.n(); bos = t.n(); eos = t.n(); }
    else if (op == "lst") lm.state(t);
    else if (op == "sm") { while (t.more()) small.push_back(t.n()); }
    else if (op == "load") {
      d.reset(); delta.reset(); big.reset();
      vf.reset(new fst::StdVectorFst());
      std::vector<int> first; int n = 0;
      for (size_t q = 0; q < g.st.size(); ++q) { first.push_back(n); n += rep[q] > KS ? rep[q] : KS; }
      for (int i = 0; i < n; ++i) vf->AddState();
      vf->SetStart(first[g.start]);
      for (size_t q = 0; q < g.st.size(); ++q)
        for (long k = 0; k < rep[q]; ++k) {
          if (g.fin[q] != kInf) vf->SetFinal(first[q] + k, g.fin[q] / U);
          for (const LArc &a : g.st[q]) {
            // between replicated states copy k leads to copy k (only), otherwise to all copies
            if (rep[q] > 1 && rep[a.ns] == rep[q]) vf->AddArc(first[q] + k, fst::StdArc(a.il * KT, a.ol * KW, a.w / U, first[a.ns] + k));
            else for (long j = 0; j < rep[a.ns]; ++j) vf->AddArc(first[q] + k, fst::StdArc(a.il * KT, a.ol * KW, a.w / U, first[a.ns] + j));
          }
        }
      if (t.w() == "const") cf.reset(new fst::StdConstFst(*vf)); else cf.reset();
      tm.reset(new Vector<int32_t>((int)((map.size() - 1) * KT + 1)));
      for (int i = 0; i < tm->Dim(); ++i) (*tm)(i) = i % KT == 0 ? map[i / KT] * KP : 1 % KP;
      std::string lj = "{\"on\":false}";
      if (haslm) {
        char base[64]; snprintf(base, 64, "dec-%d-%d", (int)getpid(), idx);
        std::string fn = std::string(base) + ".fst", sn = std::string(base) + ".txt";
        lm.write(fn, U, KW, KL);
        FILE *f = fopen(sn.c_str(), "w"); fprintf(f, "<eps> 0\n<s> %d\n</s> %d\n", (int)(bos * KW), (int)(eos * KW)); fclose(f);
        sm.reset(new Vector<float>((int)((small.size() - 1) * KW + 1)));
        for (int i = 0; i < sm->Dim(); ++i) (*sm)(i) = i % KW == 0 ? small[i / KW] / U : 77.0f;
        big.reset(new LmFst()); tab.reset(new SymbolTable());
        util::ReadableFile rf;
        bool ok = rf.Open(fn).ok() && big->Read(&rf).ok() && tab->Read(sn).ok();
        unlink(fn.c_str()); unlink(sn.c_str());
        if (!ok) { Ev("loadfail").emit(); return; }
        big->InitBucket0();
        delta.reset(new DeltaLmFst(sm.get(), big.get(), tab.get()));
        std::string sj = "[";
        for (size_t i = 0; i < small.size(); ++i) sj += (i ? "," : "") + std::to_string(small[i]);
        lj = "{\"on\":true,\"lm\":" + lm.json() + ",\"small\":" + sj + "],\"bos\":" + std::to_string(bos) + ",\"eos\":" + std::to_string(eos) + "}";
      }
      const fst::Fst<fst::StdArc> *fp = cf ? (const fst::Fst<fst::StdArc> *)cf.get() : vf.get();
      d.reset(new Decoder(fp, *tm, am2 / 2.0f, delta.get()));
      Ev("load").raw("g", g.json()).list("map", map).i("am2", am2).raw("lm", lj).emit();
    } else if (op == "init") { d->Initialize(); Ev("init").i("n", d->NumFramesDecoded()).emit(); }
    else if (op == "f") {
      std::vector<long> v; while (t.more()) v.push_back(t.n());
      Vector<float> x((int)((v.size() - 1) * KP + 1));
      for (int i = 0; i < x.Dim(); ++i) x(i) = i % KP == 0 ? v[i / KP] / U : 1000.0f;
      bool ok = d->Process(x);
      Ev("frame").list("f", v).b("ok", ok).i("n", d->NumFramesDecoded()).i("act", act).emit();
    } else if (op == "loop") {
      int r = t.n(), k = t.n(), p = t.n();
      std::vector<Vector<float>> xs(k);
      std::string fj = "[";
      for (int i = 0; i < k; ++i) {
        xs[i].Resize((p - 1) * KP + 1); fj += i ? ",[" : "[";
        for (int j = 0; j < xs[i].Dim(); ++j)
          if (j % KP) xs[i](j) = 1000.0f;
          else { int v = t.n(); xs[i](j) = v / U; fj += (j ? "," : "") + std::to_string(v); }
        fj += "]";
      }
      bool ok = true;
      for (int i = 0; ok && i < r * k; ++i) ok = d->Process(xs[i % k]);
      Ev("loop").raw("fs", fj + "]").i("r", r).b("ok", ok).i("n", d->NumFramesDecoded()).i("act", act).emit();
    } else if (op == "eos") { d->EndOfStream(); Ev("eos").emit(); }
    else if (op == "best") {
      Decoder::Hypothesis h = d->BestPath();
      std::vector<int> w(h.words().rbegin(), h.words().rend());
      for (int &q : w) q = q % KW == 0 ? q / KW : -1;
      Ev("best").list("w", w).i("c", vh::unit(h.weight(), U)).emit();
    }
  }
}
VH_MAIN(script)
