// P12 (layers, networks) and P11 (acoustic model)
// script: hexnet HEX (a network file) ; lay <type> ... ; net file L R | net class ; out R C (shape and junk of the output matrix) ;
//         x R C v... (propagate)
//         prior p... ; am L R CHUNK ; inst I ; feed I v... ; end I
#include <map>
#include <memory>
#include "nndef.h"
#include "am.h"
#include "configuration.h"
using namespace pocketkaldi;
using vh::Ev;
using vh::Tok;

static void script(int idx, const vh::Script &sc) {
  Ev("new").i("k", idx).emit();
  std::vector<LayerDef> ls;
  std::vector<long> prior;
  std::unique_ptr<Nnet> net;
  std::unique_ptr<Layer> lay;
  Matrix<float> out;
  std::unique_ptr<AcousticModel> am;
  std::map<int, std::unique_ptr<AcousticModel::Instance> > inst;
  Matrix<float> rows;
  for (const std::string &line : sc) {
    Tok t(line);
    std::string op = t.w();
    if (op == "clear") { ls.clear(); prior.clear(); }
    else if (op == "lay") ls.push_back(LayerDef::Parse(t));
    else if (op == "hexnet") {
      std::string hex = t.w(), bytes, fn = "hexnet" + std::to_string(getpid());
      for (size_t i = 0; i + 1 < hex.size(); i += 2) bytes += (char)strtol(hex.substr(i, 2).c_str(), nullptr, 16);
      Save(fn, bytes);
      util::ReadableFile fd;
      lay.reset();
      net.reset(new Nnet());
      bool ok = fd.Open(fn).ok() && net->Read(&fd).ok();
      unlink(fn.c_str());
      ls.assign(1, LayerDef());
      ls[0].t = "relu";
      Ev("load").b("ok", ok).i("left", net->left_context()).i("right", net->right_context()).emit();
      if (!ok) return;
    } else if (op == "net") {
      std::string how = t.w();
      net.reset(); lay.reset();
      bool ok = true;
      long L = 0, R = 0, fl = 0, fr = 0;
      if (how == "file") {
        L = t.n(); R = t.n();
        std::string fn = "net" + std::to_string(getpid());
        Save(fn, NetBytes(ls, L, R));
        util::ReadableFile fd;
        net.reset(new Nnet());
        ok = fd.Open(fn).ok() && net->Read(&fd).ok();
        fl = net->left_context(); fr = net->right_context();
        unlink(fn.c_str());
      } else {
        const LayerDef &d = ls.back();
        if (d.t == "linear") {
          Mat2 wt(d.b.size(), std::vector<long>(d.w.size()));
          for (size_t i = 0; i < d.w.size(); ++i) for (size_t j = 0; j < d.b.size(); ++j) wt[j][i] = d.w[i][j];
          Matrix<float> W; FillMat(&W, wt);
          Vector<float> b(d.b.size()); for (size_t i = 0; i < d.b.size(); ++i) b(i) = d.b[i];
          lay.reset(new LinearLayer(W, b));
        } else if (d.t == "bn") {
          Vector<float> s(d.s.size()), o(d.o.size());
          for (size_t i = 0; i < d.s.size(); ++i) { s(i) = d.s[i]; o(i) = d.o[i]; }
          lay.reset(new BatchNormLayer(s, o));
        } else if (d.t == "splice") lay.reset(new SpliceLayer(std::vector<int>(d.ix.begin(), d.ix.end())));
        else if (d.t == "narrow") lay.reset(new NarrowLayer(d.l, d.r));
        else if (d.t == "relu") lay.reset(new ReLULayer());
        else if (d.t == "norm") lay.reset(new NormalizeLayer());
        else if (d.t == "softmax") lay.reset(new SoftmaxLayer());
        else lay.reset(new LogSoftmaxLayer());
        if (ls.size() != 1) _exit(9);
      }
      Ev("net").b("ok", ok).raw("ls", JLayers(ls)).i("left", L).i("right", R).i("fl", fl).i("fr", fr).emit();
      if (!ok) return;
    } else if (op == "out") {
      int r = t.n(), c = t.n();
      out.Resize(r, c);
      for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) out(i, j) = 1e30f;
    } else if (op == "x") {
      long R = t.n(), C = t.n();
      Mat2 x(R, std::vector<long>(C));
      for (auto &row : x) for (auto &v : row) v = t.n();
      // the input is a view with a larger stride every other time
      Matrix<float> big(R, C + 3);
      for (int i = 0; i < R; ++i) for (int j = 0; j < C + 3; ++j) big(i, j) = j < C ? (float)x[i][j] : 77777.0f;
      SubMatrix<float> in = big.Range(0, R, 0, C);
      if (net) net->Propagate(in, &out); else lay->Propagate(in, &out);
      std::string last = ls.back().t;
      double scale = last == "softmax" ? 1048576 : last == "norm" || last == "logsoftmax" ? 1024 : 1;
      Ev e("prop");
      e.raw("x", JMat(x)).raw("after", JOut(in, 1, 0)).raw("y", JOut(out, scale, scale == 1 ? 0 : -1));
      if (last == "logsoftmax") {
        Matrix<float> ex(out.NumRows(), out.NumCols());
        for (int i = 0; i < out.NumRows(); ++i) for (int j = 0; j < out.NumCols(); ++j) ex(i, j) = (float)exp((double)out(i, j));
        e.raw("ey", JOut(ex, 1048576, -1));
      }
      e.emit();
    } else if (op == "prior") {
      while (t.more()) prior.push_back(t.n());
    } else if (op == "am") {
      long L = t.n(), R = t.n(), ch = t.n();
      inst.clear();
      std::string b = "am" + std::to_string(getpid());
      Save(b + ".nnet", NetBytes(ls, L, R));
      std::vector<float> p; for (long x : prior) p.push_back((float)exp((double)x));
      std::string o; PutVec(&o, p); Save(b + ".prior", o);
      o.clear(); PutIntVec(&o, std::vector<int32_t>(3, 0)); Save(b + ".map", o);
      Save(b + ".conf", "nnet = " + b + ".nnet\nprior = " + b + ".prior\nleft_context = " + std::to_string(L) +
           "\nright_context = " + std::to_string(R) + "\nchunk_size = " + std::to_string(ch) + "\nnum_pdfs = " +
           std::to_string(prior.size()) + "\ntid2pdf = " + b + ".map\n");
      Configuration conf;
      am.reset(new AcousticModel());
      bool ok = conf.Read(b + ".conf").ok() && am->Read(conf).ok();
      for (const char *x : {".nnet", ".prior", ".map", ".conf"}) unlink((b + x).c_str());
      Ev("load").b("ok", ok).i("left", L).i("right", R).i("chunk", ch).raw("net", JLayers(ls)).list("prior", prior)
          .i("pdfs", am->num_pdfs()).emit();
      if (!ok) return;
    } else if (op == "inst") {
      int i = t.n();
      inst[i].reset(new AcousticModel::Instance());
      Ev("inst").i("i", i).emit();
    } else if (op == "feed") {
      int i = t.n();
      std::vector<long> x; while (t.more()) x.push_back(t.n());
      Vector<float> f(x.size());
      for (size_t k = 0; k < x.size(); ++k) f(k) = x[k];
      am->Process(inst[i].get(), f, &rows);
      Ev("feed").i("i", i).list("x", x).raw("y", JOut(rows, 1, 1e-2)).emit();
    } else if (op == "end") {
      int i = t.n();
      am->EndOfStream(inst[i].get(), &rows);
      Ev("end").i("i", i).raw("y", JOut(rows, 1, 1e-2)).emit();
    }
  }
}
VH_MAIN(script)
