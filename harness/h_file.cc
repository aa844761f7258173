// P17: model file readers on arbitrary bytes.  script: read KIND SKIP ITER HEX
#include "vh.h"
#include "matrix.h"
#include "vector.h"
#include "fst.h"
#include "nnet.h"
using namespace pocketkaldi;
using vh::Ev;
using vh::Tok;

static std::string B(const void *p, int n) { return Ev::codes(std::string((const char *)p, n)); }
template <class R> static std::string V(const VectorBase<R> &v) {
  std::string s = "[";
  for (int i = 0; i < v.Dim(); ++i) { R x = v(i); s += (i ? "," : "") + B(&x, sizeof(R)); }
  return s + "]";
}
template <class R> static std::string M(const MatrixBase<R> &m) {
  std::string s = "[";
  for (int i = 0; i < m.NumRows(); ++i) s += (i ? "," : "") + V(m.Row(i));
  return s + "]";
}

static void script(int idx, const vh::Script &sc) {
  Ev("new").i("k", idx).emit();
  std::string fn = "mf" + std::to_string(getpid());
  // readers are used again and again on different files
  Vector<float> vf; Vector<int32_t> vi; Vector<double> vd; Vector<uint8_t> vb; Matrix<float> mf; Matrix<double> md;
  int n = 0;
  for (const std::string &line : sc) {
    Tok t(line);
    t.w();
    std::string kind = t.w(); long skip = t.n(); bool iter = t.n(); std::string hex = t.w(), bytes;
    for (size_t i = 0; i + 1 < hex.size(); i += 2) bytes += (char)strtol(hex.substr(i, 2).c_str(), nullptr, 16);
    FILE *f = fopen(fn.c_str(), "wb"); fwrite(bytes.data(), 1, bytes.size(), f); fclose(f);
    bool own = (++n % 2) == 0;
    FILE *raw = own ? nullptr : fopen(fn.c_str(), "rb");
    util::ReadableFile *fd = own ? new util::ReadableFile() : new util::ReadableFile(raw);
    if (own && !fd->Open(fn).ok()) _exit(4);
    std::vector<char> junk(skip + 1);
    if (skip && !fd->Read(junk.data(), skip).ok()) _exit(4);
    Status st;
    Fst fst; LmFst lmfst; Nnet net;
    bool lm = n % 3 == 0;
    Fst *pf = lm ? &lmfst : &fst;
    if (kind == "vecf") st = vf.Read(fd); else if (kind == "veci") st = vi.Read(fd); else if (kind == "vecd") st = vd.Read(fd);
    else if (kind == "vecb") st = vb.Read(fd); else if (kind == "matf") st = mf.Read(fd); else if (kind == "matd") st = md.Read(fd);
    else if (kind == "fst") st = pf->Read(fd);
    else st = net.Read(fd);
    Ev e("read");
    e.s("kind", kind).i("p", skip + 1).raw("b", Ev::codes(bytes)).b("ok", st.ok()).b("err", !st.what().empty());
    if (st.ok()) {
      long pos;
      if (own) { char c; long rest = 0; while (fd->Read(&c, 1).ok()) ++rest; pos = (long)bytes.size() - rest; }
      else pos = ftell(raw);
      e.i("pos", pos);
      if (kind == "vecf") e.raw("val", V(vf)); else if (kind == "veci") e.raw("val", V(vi)); else if (kind == "vecd") e.raw("val", V(vd));
      else if (kind == "vecb") e.raw("val", V(vb)); else if (kind == "matf") e.raw("val", M(mf)); else if (kind == "matd") e.raw("val", M(md));
      else if (kind == "fst") {
        // the number of states is part of the bytes
        int32_t ns; memcpy(&ns, bytes.data() + skip + 36, 4);
        std::string fin = "[", arcs = "[";
        for (int s = 0; s < ns; ++s) {
          float w = pf->Fst::Final(s);
          fin += (s ? "," : "") + B(&w, 4);
          if (iter) {
            Fst::ArcIterator it = pf->IterateArcs(s);
            arcs += s ? ",[" : "[";
            const FstArc *a; int k = 0;
            while ((a = it.Next()) != nullptr) {
              char buf[16];
              int32_t x[3] = {a->next_state, a->input_label, a->output_label}; float wt = a->weight;
              memcpy(buf, x, 12); memcpy(buf + 12, &wt, 4);
              arcs += (k++ ? "," : "") + B(buf, 16);
            }
            arcs += "]";
          }
        }
        e.i("start", pf->StartState()).raw("fin", fin + "]").b("iter", iter).raw("arcs", arcs + "]");
      } else e.i("left", net.left_context()).i("right", net.right_context());
    }
    e.emit();
    delete fd;
    if (raw) fclose(raw);
    unlink(fn.c_str());
  }
}
VH_MAIN(script)
