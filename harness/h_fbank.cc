// P10: filterbank framing.
// script: wave N KIND SEED ; start I ; feed I M (the next M samples of the wave)
#include <map>
#include <memory>
#include "vh.h"
#include "fbank.h"
#include "matrix.h"
using namespace pocketkaldi;
using vh::Ev;
using vh::Tok;

// a frame as a number: hash of its bytes
static long Id(const VectorBase<float> &row) {
  uint64_t h = 1469598103934665603ULL;
  for (int i = 0; i < row.Dim(); ++i) {
    float v = row(i);
    unsigned char b[4];
    memcpy(b, &v, 4);
    for (int k = 0; k < 4; ++k) { h ^= b[k]; h *= 1099511628211ULL; }
  }
  return (long)((h ^ (h >> 31)) & 0x3fffffff);
}

static void script(int idx, const vh::Script &sc) {
  Ev("new").i("k", idx).emit();
  std::unique_ptr<Fbank> fb(new Fbank());
  std::vector<float> wave;
  std::map<int, std::unique_ptr<Fbank::Instance> > inst;
  std::map<int, size_t> pos;
  Matrix<float> rows;
  for (const std::string &line : sc) {
    Tok t(line);
    std::string op = t.w();
    if (op == "wave") {
      long n = t.n(), kind = t.n(); uint64_t s = t.n() * 2654435761ULL + 88172645463325252ULL;
      wave.clear();
      for (long i = 0; i < n; ++i) {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        double noise = (double)(int64_t)(s % 60001) - 30000;
        double v = kind == 0 ? noise : kind == 1 ? 8000 * sin(i * 0.05 * (1 + i / 3000.0)) + noise / 100
                 : kind == 2 ? ((i / 700) % 2 ? noise : 0) : kind == 3 ? (i % 977 == 0 ? 32767 : 0) : noise / 30000.0;
        wave.push_back((float)nearbyint(v * (kind == 4 ? 1000 : 1)) / (kind == 4 ? 1000 : 1));
      }
      // every window on a grid, each through a fresh object
      std::string w = "[";
      bool first = true;
      for (size_t p = 0; p + 400 <= wave.size(); p += 80) {
        std::unique_ptr<Fbank> one(p % 800 == 0 ? new Fbank() : nullptr);
        Fbank::Instance in;
        Vector<float> v(400);
        for (int i = 0; i < 400; ++i) v(i) = wave[p + i];
        Matrix<float> y;
        (one ? one.get() : fb.get())->Process(&in, v, &y);
        w += std::string(first ? "" : ",") + (y.NumRows() == 1 ? std::to_string(Id(y.Row(0))) : "-1");
        first = false;
      }
      inst.clear(); pos.clear();
      Ev("ref").i("n", n).i("grid", 80).raw("w", w + "]").emit();
    } else if (op == "bulk") {
      // N samples in one call, repeating every P = 160 * k samples; A samples are fed before
      long P = t.n(), n = t.n(), a = t.n(); uint64_t s = t.n() * 2654435761ULL + 88172645463325252ULL;
      std::vector<float> per(P);
      for (long i = 0; i < P; ++i) {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        per[i] = (float)((int)(s % 60001) - 30000);
      }
      std::vector<long> w, head;
      for (long p = 0; p < P; p += 160) {
        Fbank one;
        Fbank::Instance in;
        Vector<float> v(400);
        for (int i = 0; i < 400; ++i) v(i) = per[(p + i) % P];
        Matrix<float> y;
        one.Process(&in, v, &y);
        w.push_back(y.NumRows() == 1 ? Id(y.Row(0)) : -1);
      }
      Fbank::Instance in;
      long cnt[3] = {0, 0, 0}, brk = -1, at = 0, sz[3] = {a, n, 500};
      std::vector<long> all;
      for (int c = 0; c < 3; ++c) {
        Vector<float> v(sz[c]);
        for (long i = 0; i < sz[c]; ++i) v(i) = per[at++ % P];
        fb->Process(&in, v, &rows);
        cnt[c] = rows.NumRows();
        for (int r = 0; r < rows.NumRows(); ++r) all.push_back(Id(rows.Row(r)));
      }
      for (size_t i = 0; i < all.size(); ++i) {
        if (i < w.size()) head.push_back(all[i]);
        else if (brk < 0 && all[i] != all[i - w.size()]) brk = i;
      }
      Ev("bulk").i("p", P).i("a", a).i("n", n).i("b", 500).list("w", w).list("cnt", std::vector<long>(cnt, cnt + 3))
          .list("head", head).i("brk", brk).emit();
    } else if (op == "start") {
      int i = t.n();
      inst[i].reset(new Fbank::Instance());
      pos[i] = 0;
      Ev("start").i("i", i).emit();
    } else if (op == "feed") {
      int i = t.n(); long m = t.n();
      Vector<float> v(m);
      for (long k = 0; k < m; ++k) v(k) = wave[pos[i] + k];
      pos[i] += m;
      fb->Process(inst[i].get(), v, &rows);
      std::vector<long> ids;
      for (int r = 0; r < rows.NumRows(); ++r) ids.push_back(Id(rows.Row(r)));
      bool same = true;
      for (long k = 0; k < m; ++k) same = same && v(k) == wave[pos[i] - m + k];
      Ev("feed").i("i", i).i("m", m).b("cols", same && (rows.NumRows() == 0 || rows.NumCols() == 40)).list("y", ids).emit();
    }
  }
}
VH_MAIN(script)
