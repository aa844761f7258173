// Networks described in a script, written in the engine's file format
#ifndef NNDEF_H_
#define NNDEF_H_
#include "vh.h"
#include "matrix.h"
#include "vector.h"
#include "nnet.h"

typedef std::vector<std::vector<long> > Mat2;

struct LayerDef {
  std::string t;
  Mat2 w;                 // linear: rows = inputs
  std::vector<long> b, s, o, ix;
  long l = 0, r = 0;
  static LayerDef Parse(vh::Tok &t) {
    LayerDef d;
    d.t = t.w();
    if (d.t == "linear") {
      long in = t.n(), out = t.n();
      d.w.assign(in, std::vector<long>(out));
      for (auto &row : d.w) for (auto &x : row) x = t.n();
      for (long i = 0; i < out; ++i) d.b.push_back(t.n());
    } else if (d.t == "bn") {
      long n = t.n();
      for (long i = 0; i < n; ++i) d.s.push_back(t.n());
      for (long i = 0; i < n; ++i) d.o.push_back(t.n());
    } else if (d.t == "splice") {
      while (t.more()) d.ix.push_back(t.n());
    } else if (d.t == "narrow") {
      d.l = t.n(); d.r = t.n();
    }
    return d;
  }
};

inline std::string JList(const std::vector<long> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
inline std::string JMat(const Mat2 &m) {
  std::string s = "[";
  for (size_t i = 0; i < m.size(); ++i) s += (i ? "," : "") + JList(m[i]);
  return s + "]";
}
inline std::string JLayers(const std::vector<LayerDef> &ls) {
  std::string s = "[";
  for (size_t i = 0; i < ls.size(); ++i) {
    const LayerDef &d = ls[i];
    s += (i ? ",{\"t\":\"" : "{\"t\":\"") + d.t + "\"";
    if (d.t == "linear") s += ",\"w\":" + JMat(d.w) + ",\"b\":" + JList(d.b);
    if (d.t == "bn") s += ",\"s\":" + JList(d.s) + ",\"o\":" + JList(d.o);
    if (d.t == "splice") s += ",\"ix\":" + JList(d.ix);
    if (d.t == "narrow") s += ",\"l\":" + std::to_string(d.l) + ",\"r\":" + std::to_string(d.r);
    s += "}";
  }
  return s + "]";
}

inline void Put32(std::string *o, int32_t v) { o->append((const char *)&v, 4); }
inline void PutVec(std::string *o, const std::vector<float> &v) {
  *o += "VEC0"; Put32(o, 4 * v.size() + 4); Put32(o, v.size());
  if (!v.empty()) o->append((const char *)v.data(), 4 * v.size());
}
inline void PutIntVec(std::string *o, const std::vector<int32_t> &v) {
  *o += "VEC0"; Put32(o, 4 * v.size() + 4); Put32(o, v.size());
  if (!v.empty()) o->append((const char *)v.data(), 4 * v.size());
}
inline std::vector<float> F(const std::vector<long> &v) { return std::vector<float>(v.begin(), v.end()); }
inline void PutMat(std::string *o, const Mat2 &m) {
  std::string rows;
  for (auto &r : m) PutVec(&rows, F(r));
  *o += "MAT0"; Put32(o, 8 + rows.size()); Put32(o, m.size()); Put32(o, m.empty() ? 0 : m[0].size());
  *o += rows;
}
inline std::string NetBytes(const std::vector<LayerDef> &ls, int left, int right) {
  std::string o = "NN02";
  Put32(&o, left); Put32(&o, right); Put32(&o, ls.size());
  for (const LayerDef &d : ls) {
    o += "LAY0";
    if (d.t == "linear") { Put32(&o, 0); PutMat(&o, d.w); PutVec(&o, F(d.b)); }
    else if (d.t == "relu") Put32(&o, 1);
    else if (d.t == "norm") Put32(&o, 2);
    else if (d.t == "softmax") Put32(&o, 3);
    else if (d.t == "splice") { Put32(&o, 6); Put32(&o, d.ix.size()); for (long x : d.ix) Put32(&o, x); }
    else if (d.t == "bn") { Put32(&o, 7); PutVec(&o, F(d.s)); PutVec(&o, F(d.o)); }
    else if (d.t == "logsoftmax") Put32(&o, 8);
    else if (d.t == "narrow") { Put32(&o, 9); Put32(&o, d.l); Put32(&o, d.r); }
  }
  return o;
}
inline void Save(const std::string &fn, const std::string &bytes) {
  FILE *f = fopen(fn.c_str(), "wb");
  if (!f || fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size()) _exit(4);
  fclose(f);
}
inline void FillMat(pocketkaldi::Matrix<float> *m, const Mat2 &v) {
  m->Resize(v.size(), v.empty() ? 0 : v[0].size());
  for (size_t r = 0; r < v.size(); ++r) for (size_t c = 0; c < v[r].size(); ++c) (*m)(r, c) = v[r][c];
}
// nearest integer in units of 1/scale; kBad unless within tol of it (tol < 0: always)
inline long Near(double v, double scale, double tol) {
  double x = v * scale;
  if (!(fabs(x) < 1.0e9)) return vh::kBad;
  double r = nearbyint(x);
  if (tol >= 0 && fabs(r - x) > tol) return vh::kBad;
  return (long)r;
}
inline std::string JOut(const pocketkaldi::MatrixBase<float> &m, double scale, double tol) {
  std::string s = "[";
  for (int r = 0; r < m.NumRows(); ++r) {
    s += r ? ",[" : "[";
    for (int c = 0; c < m.NumCols(); ++c) { if (c) s += ","; s += std::to_string(Near(m(r, c), scale, tol)); }
    s += "]";
  }
  return s + "]";
}
#endif
