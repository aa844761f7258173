// P14: online CMVN. script: load N GC ; gm v*40 ; row v*40 (pattern rows) ; spike K V ; run M
#include <memory>
#include "nndef.h"
#include "cmvn.h"
using namespace pocketkaldi;
using vh::Ev;
using vh::Tok;

static void script(int idx, const vh::Script &sc) {
  Ev("new").i("k", idx).emit();
  std::unique_ptr<CMVN> cm;
  Matrix<float> raw, keep;
  Mat2 pat;
  std::vector<long> gm, sp;
  long n = 0, gc = 1, t = 0;
  for (const std::string &line : sc) {
    Tok k(line);
    std::string op = k.w();
    if (op == "load") { n = k.n(); gc = k.n(); pat.clear(); gm.clear(); sp.clear(); }
    else if (op == "gm") { while (k.more()) gm.push_back(k.n()); }
    else if (op == "row") { pat.push_back({}); while (k.more()) pat.back().push_back(k.n()); }
    else if (op == "spike") { sp.push_back(k.n()); sp.push_back(k.n()); }
    else if (op == "go") {
      int D = gm.size();
      raw.Resize(n, D); keep.Resize(n, D);
      for (long i = 0; i < n; ++i) for (int d = 0; d < D; ++d) raw(i, d) = pat[i % pat.size()][d];
      std::string ss = "[";
      for (size_t i = 0; i < sp.size(); i += 2) {
        for (int d = 0; d < D; ++d) raw(sp[i] - 1, d) = sp[i + 1];
        ss += (i ? ",[" : "[") + std::to_string(sp[i]) + "," + std::to_string(sp[i + 1]) + "]";
      }
      keep.CopyFromMat(raw);
      Vector<float> gs(D + 1);
      for (int d = 0; d < D; ++d) gs(d) = (float)(gm[d] * gc);
      gs(D) = gc;
      cm.reset(new CMVN(gs, raw));
      t = 0;
      Ev("load").i("n", n).list("gm", gm).raw("raw", JMat(pat)).raw("spikes", ss + "]").emit();
    } else if (op == "run") {
      long m = k.n();
      Vector<float> out(gm.size());
      Matrix<float> outm(2, gm.size());
      for (long i = 0; i < m; ++i, ++t) {
        std::vector<long> y;
        // alternate between a vector and a matrix row as the destination
        SubVector<float> row = outm.Row(i % 2);
        VectorBase<float> *dst = (i % 3 == 0) ? (VectorBase<float> *)&out : (VectorBase<float> *)&row;
        dst->Set(1e9f);
        cm->GetFrame(t, dst);
        for (int d = 0; d < dst->Dim(); ++d) y.push_back(Near((*dst)(d), 1024, -1));
        bool same = true;
        for (int d = 0; d < raw.NumCols(); ++d)
          for (long f = std::max(0L, t - 3); f <= t; ++f) same = same && raw(f, d) == keep(f, d);
        Ev("frame").b("rawok", same).list("y", y).emit();
      }
    }
  }
}
VH_MAIN(script)
