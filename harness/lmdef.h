// LM files written from script lines.
#ifndef LMDEF_H_
#define LMDEF_H_
#include "vh.h"
#include "fst.h"
#include "symbol_table.h"
#include "vector.h"
static const long kInf = 999999;
struct LArc { int il, ns, w, ol; };
struct GraphDef {
  int start = 0;
  std::vector<std::vector<LArc>> st;
  std::vector<long> fin;
  // st FINAL|inf NARCS (IL NS W OL)*
  void state(vh::Tok &t) {
    std::string f = t.w(); fin.push_back(f == "inf" ? kInf : atol(f.c_str()));
    int n = t.n(); std::vector<LArc> as;
    for (int i = 0; i < n; ++i) { LArc a; a.il = t.n(); a.ns = t.n(); a.w = t.n(); a.ol = t.n(); as.push_back(a); }
    st.push_back(as);
  }
  std::string json() const {
    std::string r = "{\"start\":" + std::to_string(start) + ",\"arcs\":[";
    for (size_t s = 0; s < st.size(); ++s) {
      r += s ? ",[" : "[";
      for (size_t i = 0; i < st[s].size(); ++i) {
        const LArc &a = st[s][i];
        r += std::string(i ? "," : "") + "[" + std::to_string(a.il) + "," + std::to_string(a.ns) + "," + std::to_string(a.w) + "," + std::to_string(a.ol) + "]";
      }
      r += "]";
    }
    r += "],\"fin\":[";
    for (size_t s = 0; s < fin.size(); ++s) r += std::string(s ? "," : "") + std::to_string(fin[s]);
    return r + "]}";
  }
  // binary LM file (fst.h: Fst::Read)
  // (word w is KW*w in the file and state s KL*s; the states in between are empty)
  void write(const std::string &fn, float unit, int KW = 1, int KL = 1) const {
    FILE *f = fopen(fn.c_str(), "wb");
    char name[32] = {0}; strcpy(name, "pk::fst_0"); fwrite(name, 32, 1, f);
    int narc = 0; for (auto &v : st) narc += v.size();
    int32_t hdr[4] = {(int32_t)(12 + 8 * KL * st.size() + 16 * narc), (int32_t)(KL * st.size()), narc, start * KL};
    fwrite(hdr, 4, 4, f);
    for (long w : fin) for (int k = 0; k < KL; ++k) { float x = k || w == kInf ? INFINITY : w / unit; fwrite(&x, 4, 1, f); }
    int32_t pos = 0;
    for (auto &v : st) {
      for (int k = 0; k < KL; ++k) { int32_t x = k || v.empty() ? -1 : pos; fwrite(&x, 4, 1, f); }
      pos += v.size();
    }
    for (auto &v : st) for (const LArc &a : v) {
      int32_t x[3] = {a.ns * KL, a.il * KW, a.ol * KW}; float w = a.w / unit;
      fwrite(x, 4, 3, f); fwrite(&w, 4, 1, f);
    }
    fclose(f);
  }
};
#endif
