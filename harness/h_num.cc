// P24: numbers.  script: fft N f|b FINE (POS VAL)* ; frame SH X*400 ; scale K X*400 (features of x and x * 2^k) ;
//                        quant M K N A.. B..
#include <memory>
#include "vh.h"
#include "srfft.h"
#include "fbank.h"
#include "matrix.h"
using namespace pocketkaldi;
using vh::Ev;
using vh::Tok;

static long Int(double v) {      // clamped to what TLC can read
  if (!(v == v)) return 2000000001;
  return v > 2e9 ? 2000000000 : v < -2e9 ? -2000000000 : (long)nearbyint(v);
}
static Vector<float> Features(Fbank *fb, const std::vector<float> &x) {
  Fbank::Instance in;
  Vector<float> v(x.size());
  for (size_t i = 0; i < x.size(); ++i) v(i) = x[i];
  Matrix<float> y;
  fb->Process(&in, v, &y);
  Vector<float> r(40);
  if (y.NumRows() == 1 && y.NumCols() == 40) for (int i = 0; i < 40; ++i) r(i) = y(0, i);
  return r;
}
static std::vector<long> Ints(const Vector<float> &v, double s) {
  std::vector<long> o;
  for (int i = 0; i < v.Dim(); ++i) o.push_back(Int(v(i) * s));
  return o;
}
static std::string M(const std::vector<std::vector<long> > &m) {
  std::string s = "[";
  for (size_t i = 0; i < m.size(); ++i) {
    s += i ? ",[" : "[";
    for (size_t j = 0; j < m[i].size(); ++j) s += (j ? "," : "") + std::to_string(m[i][j]);
    s += "]";
  }
  return s + "]";
}
static void Quant(const std::vector<std::vector<long> > &m, Matrix<uint8_t> *q, QuantizationParams *p,
                  std::vector<std::vector<long> > *out, std::vector<std::vector<long> > *deq) {
  Matrix<float> f(m.size(), m[0].size());
  for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[0].size(); ++j) f(i, j) = m[i][j];
  Quantize(f, q, p);
  out->assign(m.size(), std::vector<long>());
  deq->assign(m.size(), std::vector<long>());
  for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[0].size(); ++j) {
    (*out)[i].push_back((*q)(i, j));
    (*deq)[i].push_back(Int(((double)(*q)(i, j) - p->zero_point) * p->scale * 64));
  }
}

static void script(int idx, const vh::Script &sc) {
  Ev("new").i("k", idx).emit();
  std::unique_ptr<Fbank> fb(new Fbank());
  std::unique_ptr<SRFFT> fft;
  int last = 0;
  Matrix<uint8_t> qa, qb;
  for (const std::string &line : sc) {
    Tok t(line);
    std::string op = t.w();
    if (op == "fft") {
      int n = t.n(); std::string dir = t.w(); bool fine = t.n();
      if (n != last) { fft.reset(new SRFFT(n)); last = n; }
      std::vector<float> d(n, 0.0f), buf(n, 1e30f);
      std::string xs = "[";
      bool first = true;
      while (t.more()) {
        int p = t.n(), v = t.n();
        d[p] += v;
        xs += (first ? "[" : ",[") + std::to_string(p) + "," + std::to_string(v) + "]";
        first = false;
      }
      fft->Compute(d.data(), n, dir == "f", buf.data(), n);
      std::vector<long> y;
      for (float v : d) y.push_back(Int(v * (fine ? 16777216.0 : 16384.0)));
      Ev("fft").i("n", n).s("dir", dir).b("fine", fine).raw("x", xs + "]").list("y", y).emit();
    } else if (op == "frame") {
      double sh = t.n();
      std::vector<long> xi; while (t.more()) xi.push_back(t.n());
      Vector<float> r = Features(fb.get(), std::vector<float>(xi.begin(), xi.end()));
      std::string e = "[";
      for (int i = 0; i < 40; ++i) {
        double v = exp((double)r(i)) * (1250 / sh) * (1250 / sh) * 1024;
        char b[64];
        snprintf(b, 64, "%.0f", v > 1e30 || !(v == v) ? 1e30 : v);
        e += (i ? "," : "") + Ev::codes(b);
      }
      Ev("frame").i("sh", (long)sh).list("x", xi).raw("e", e + "]").emit();
    } else if (op == "scale") {
      int k = t.n();
      std::vector<float> x; while (t.more()) x.push_back(t.n());
      Vector<float> a = Features(fb.get(), x);
      bool constant = true;
      for (float &v : x) { constant = constant && v == x[0]; v = ldexpf(v, k); }
      Vector<float> b = Features(fb.get(), x);
      Ev("scale").i("k2", k).b("const", constant).list("a", Ints(a, 1e4)).list("b", Ints(b, 1e4)).emit();
    } else if (op == "quant") {
      int m = t.n(), k = t.n(), n = t.n();
      std::vector<std::vector<long> > A(m, std::vector<long>(k)), B(k, std::vector<long>(n)), QA, QB, DA, DB, C(m);
      for (auto &r : A) for (auto &v : r) v = t.n();
      for (auto &r : B) for (auto &v : r) v = t.n();
      QuantizationParams pa, pb;
      Quant(A, &qa, &pa, &QA, &DA);
      Quant(B, &qb, &pb, &QB, &DB);
      Matrix<float> c(m, n);
      MatMat_U8U8F32(qa, pa, qb, pb, &c);
      for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) C[i].push_back(Int(c(i, j) * 64.0));
      Ev("quant").raw("a", M(A)).raw("b", M(B)).raw("qa", M(QA)).raw("qb", M(QB)).raw("da", M(DA)).raw("db", M(DB)).raw("c", M(C)).emit();
    }
  }
}
VH_MAIN(script)
