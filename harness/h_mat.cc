// P13: Matrix / Vector / views, float and double
#include "vh.h"
#include "matrix.h"
#include "vector.h"

using namespace pocketkaldi;
using vh::Ev;
using vh::Tok;

struct Rect { int ro, r, co, c; };
static Rect RdRect(Tok *t) { Rect x; x.ro = t->n(); x.r = t->n(); x.co = t->n(); x.c = t->n(); return x; }
static std::string RStr(const Rect &x) {
  char b[80]; snprintf(b, 80, "[%d,%d,%d,%d]", x.ro, x.r, x.co, x.c); return b;
}
struct Place { int k, a, o, n; };
static Place RdPlace(Tok *t) { Place x; x.k = t->n(); x.a = t->n(); x.o = t->n(); x.n = t->n(); return x; }
static std::string PStr(const Place &x) {
  char b[80]; snprintf(b, 80, "[%d,%d,%d,%d]", x.k, x.a, x.o, x.n); return b;
}

static void Simple(const MatrixBase<float> &a, const MatrixBase<float> &b, MatrixBase<float> *c) { SimpleMatMat<float>(a, b, c); }
static void Blas(const MatrixBase<float> &a, const MatrixBase<float> &b, MatrixBase<float> *c) { MatMat(a, b, c); }
static void Simple(const MatrixBase<double> &, const MatrixBase<double> &, MatrixBase<double> *) { _exit(9); }
static void Blas(const MatrixBase<double> &, const MatrixBase<double> &, MatrixBase<double> *) { _exit(9); }
static void AddV(VectorBase<float> *x, float k, const VectorBase<float> &y) { x->AddVec(k, y); }
static void AddV(VectorBase<double> *x, double k, const VectorBase<double> &y) {
  // only mixed precision is instantiated for double
  Vector<float> f(y.Dim());
  f.CopyFromVec(y);
  x->AddVec(k, f);
}
// copy through the other precision
static void CopyX(VectorBase<float> *x, const VectorBase<float> &y) { Vector<double> d(y.Dim()); d.CopyFromVec(y); x->CopyFromVec(d); }
static void CopyX(VectorBase<double> *x, const VectorBase<double> &y) { Vector<float> d(y.Dim()); d.CopyFromVec(y); x->CopyFromVec(d); }

template <class R> struct World {
  Matrix<R> m[4];
  Vector<R> v[4];

  Ev &Dump(Ev &e) {
    std::string s = "[";
    for (int i = 1; i <= 3; ++i) {
      const Matrix<R> &x = m[i];
      if (i > 1) s += ",";
      char b[64]; snprintf(b, 64, "{\"r\":%d,\"c\":%d,\"d\":[", x.NumRows(), x.NumCols()); s += b;
      for (int r = 0; r < x.NumRows(); ++r) {
        s += r ? ",[" : "[";
        for (int c = 0; c < x.NumCols(); ++c) { if (c) s += ","; s += std::to_string(vh::unit(x(r, c), 1)); }
        s += "]";
      }
      s += "]}";
    }
    e.raw("m", s + "]");
    s = "[";
    for (int i = 1; i <= 3; ++i) {
      s += i > 1 ? ",[" : "[";
      const Vector<R> &x = v[i];
      for (int c = 0; c < x.Dim(); ++c) { if (c) s += ","; s += std::to_string(vh::unit(x(c), 1)); }
      s += "]";
    }
    e.raw("v", s + "]");
    return e;
  }
  // alternate between the two ways of making a view
  SubMatrix<R> Sub(int i, const Rect &x, bool ptr) {
    if (ptr) return SubMatrix<R>(m[i].Data() + x.ro * m[i].Stride() + x.co, x.r, x.c, m[i].Stride());
    return m[i].Range(x.ro, x.r, x.co, x.c);
  }
  SubVector<R> At(const Place &p) {
    if (p.k == 0) return v[p.a].Range(p.o, p.n);
    return m[p.k].Row(p.a).Range(p.o, p.n);
  }

  void Run(const vh::Script &sc) {
    int cnt = 0;
    for (const std::string &line : sc) {
      Tok t(line);
      std::string op = t.w();
      bool alt = (++cnt % 2) != 0;
      Ev e(op.c_str());
      if (op == "type") {
        continue;
      } else if (op == "resize") {
        int i = t.n(), r = t.n(), c = t.n(), k = t.n(), st = t.n();
        int kind = k == 0 ? Matrix<R>::kSetZero : k == 1 ? Matrix<R>::kUndefined : Matrix<R>::kCopyData;
        m[i].Resize(r, c, kind, st ? Matrix<R>::kStrideEqualNumCols : Matrix<R>::kDefaultStride);
        if (k == 1) for (int a = 0; a < m[i].NumRows(); ++a) for (int b = 0; b < m[i].NumCols(); ++b) m[i](a, b) = 5;
        if (m[i].Stride() < m[i].NumCols()) _exit(9);
        Dump(e.i("i", i).i("r", r).i("c", c).i("kind", k)).emit();
      } else if (op == "vresize") {
        int i = t.n(), n = t.n(), k = t.n();
        v[i].Resize(n, k == 0 ? Vector<R>::kSetZero : k == 1 ? Vector<R>::kUndefined : Vector<R>::kCopyData);
        if (k == 1) for (int a = 0; a < v[i].Dim(); ++a) v[i](a) = 5;
        Dump(e.i("i", i).i("n", n).i("kind", k)).emit();
      } else if (op == "fill") {
        int i = t.n(); Rect x = RdRect(&t);
        SubMatrix<R> s = Sub(i, x, alt);
        std::string val = "[";
        for (int a = 0; a < x.r; ++a) {
          val += a ? ",[" : "[";
          for (int b = 0; b < x.c; ++b) { long q = t.n(); s(a, b) = q; if (b) val += ","; val += std::to_string(q); }
          val += "]";
        }
        Dump(e.i("i", i).raw("rect", RStr(x)).raw("val", val + "]")).emit();
      } else if (op == "mscale") {
        int i = t.n(); Rect x = RdRect(&t); long k = t.n();
        Sub(i, x, alt).Scale(k);
        Dump(e.i("i", i).raw("rect", RStr(x)).i("k", k)).emit();
      } else if (op == "mzero") {
        int i = t.n(); Rect x = RdRect(&t);
        Sub(i, x, alt).SetZero();
        Dump(e.i("i", i).raw("rect", RStr(x))).emit();
      } else if (op == "mtrans") {
        int i = t.n(); Rect x = RdRect(&t);
        Sub(i, x, alt).Transpose();
        Dump(e.i("i", i).raw("rect", RStr(x))).emit();
      } else if (op == "mcopy") {
        int i = t.n(); Rect x = RdRect(&t); int j = t.n(); Rect y = RdRect(&t); int tr = t.n();
        Sub(i, x, alt).CopyFromMat(Sub(j, y, !alt), tr ? (int)MatrixBase<R>::kTrans : (int)MatrixBase<R>::kNoTrans);
        Dump(e.i("i", i).raw("rect", RStr(x)).i("j", j).raw("src", RStr(y)).b("trans", tr)).emit();
      } else if (op == "mswap") {
        int i = t.n(), j = t.n();
        m[i].Swap(&m[j]);
        Dump(e.i("i", i).i("j", j)).emit();
      } else if (op == "mmul") {
        int i = t.n(); Rect x = RdRect(&t); int j = t.n(); Rect a = RdRect(&t); int k = t.n(); Rect b = RdRect(&t);
        int how = t.n();
        SubMatrix<R> c = Sub(i, x, alt);
        if (how) Blas(Sub(j, a, alt), Sub(k, b, !alt), &c); else Simple(Sub(j, a, alt), Sub(k, b, !alt), &c);
        Dump(e.i("i", i).raw("rect", RStr(x)).i("j", j).raw("a", RStr(a)).i("k", k).raw("b", RStr(b))).emit();
      } else if (op == "vswap") {
        int i = t.n(), j = t.n();
        v[i].Swap(&v[j]);
        Dump(e.i("i", i).i("j", j)).emit();
      } else if (op == "vmove") {
        int i = t.n(), j = t.n(), how = t.n();
        if (how == 0 || i == j) v[i] = std::move(v[j]);
        else { Vector<R> w(std::move(v[j])); w.Swap(&v[i]); }
        Dump(e.i("i", i).i("j", j)).emit();
      } else {
        Place p = RdPlace(&t);
        SubVector<R> x = At(p);
        e.raw("p", PStr(p));
        if (op == "vset") { long k = t.n(); x.Set(k); e.i("k", k); }
        else if (op == "vzero") { x.SetZero(); }
        else if (op == "vput") {
          std::vector<long> q; for (int i = 0; i < p.n; ++i) { q.push_back(t.n()); x(i) = q.back(); }
          e.list("val", q);
        }
        else if (op == "vscale") { long k = t.n(); x.Scale(k); e.i("k", k); }
        else if (op == "vadd") { long k = t.n(); x.Add(k); e.i("k", k); }
        else if (op == "vfloor") { long k = t.n(); long n = x.ApplyFloor(k); e.i("k", k).i("ret", n); }
        else {
          Place q = RdPlace(&t);
          const SubVector<R> y = At(q);
          e.raw("q", PStr(q));
          if (op == "vcopy") { if (alt) x.CopyFromVec(y); else CopyX(&x, y); }
          else if (op == "vaddv") { long k = t.n(); AddV(&x, k, y); e.i("k", k); }
          else if (op == "vmul") x.MulElements(y);
          else if (op == "vdot") e.i("ret", vh::unit(x.VecVec(y), 1));
          else _exit(9);
        }
        Dump(e).emit();
      }
    }
  }
};

static void script(int idx, const vh::Script &sc) {
  Ev("new").i("k", idx).emit();
  if (!sc.empty() && sc[0] == "type d") World<double>().Run(sc); else World<float>().Run(sc);
}

VH_MAIN(script)
