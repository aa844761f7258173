// P08/P09: WaveReader and WAV header parsing
#include "vh.h"
#include "pcm_reader.h"
#include "ce_stt.h"
#include "util.h"

using namespace pocketkaldi;
using vh::Ev;
using vh::Tok;

static std::string Samples(const Vector<float> &v) {
  std::string r = "[";
  for (int i = 0; i < v.Dim(); ++i) {
    if (i) r += ",";
    double d = v(i);
    if (!(fabs(d) < 1e10) || d != nearbyint(d)) r += "[99999999,0]";
    else r += Ev::hilo((int64_t)d);
  }
  return r + "]";
}

static std::string ReadFileBytes(const std::string &hex) {
  std::string out;
  for (size_t i = 0; i + 1 < hex.size(); i += 2) {
    out += (char)strtol(hex.substr(i, 2).c_str(), nullptr, 16);
  }
  return out;
}

static void HeaderEvents(const std::string &bytes) {
  char name[64];
  snprintf(name, sizeof(name), "f%d.wav", (int)getpid());
  FILE *f = fopen(name, "wb");
  fwrite(bytes.data(), 1, bytes.size(), f);
  fclose(f);

  // C++ reader
  {
    util::ReadableFile fd;
    if (!fd.Open(name).ok()) _exit(4);
    ce_wave_format_t fmt = {-7, -7, -7};
    Status st = ReadPcmHeader(&fd, &fmt);
    // the next byte the file delivers
    std::string rest;
    char c;
    if (st.ok()) while (rest.size() < 8 && fd.Read(&c, 1).ok()) rest += c;
    Ev e("hdr");
    e.raw("b", Ev::codes(bytes)).b("ok", st.ok());
    if (st.ok()) e.hl("ch", fmt.num_channels).hl("rate", fmt.sample_rate).hl("bits", fmt.bits_per_sample);
    e.raw("rest", Ev::codes(rest)).b("err", !st.what().empty());
    e.emit();
  }
  // C API
  {
    FILE *fp = fopen(name, "rb");
    ce_wave_format_t fmt = {-7, -7, -7};
    ce_wave_format_t *r = ce_read_pcm_header(fp, &fmt);
    bool ok = r == &fmt;
    bool null = r == nullptr;
    long pos = ftell(fp);
    fclose(fp);
    Ev e("chdr");
    e.raw("b", Ev::codes(bytes)).b("ok", ok).b("null", null);
    if (ok) e.hl("ch", fmt.num_channels).hl("rate", fmt.sample_rate).hl("bits", fmt.bits_per_sample);
    e.i("pos", ok ? pos : 0).b("err", !null || strlen(ce_stt_last_error()) > 0);
    e.emit();
  }
  // whole file
  {
    Vector<float> pcm;
    Status st = Read16kPcm(name, &pcm);
    Ev e("wav");
    e.raw("b", Ev::codes(bytes)).b("ok", st.ok());
    if (st.ok()) e.raw("out", Samples(pcm));
    e.b("err", !st.what().empty());
    e.emit();
  }
  unlink(name);
}

static void script(int idx, const vh::Script &sc) {
  Ev("new").i("k", idx).emit();
  WaveReader reader;
  for (const std::string &line : sc) {
    Tok t(line);
    std::string op = t.w();
    if (op == "fmt") {
      ce_wave_format_t f;
      f.num_channels = t.n(); f.sample_rate = t.n(); f.bits_per_sample = t.n();
      Status st = reader.SetFormat(f);
      Ev("fmt").i("ch", f.num_channels).i("rate", f.sample_rate).i("bits", f.bits_per_sample)
          .b("ok", st.ok()).emit();
    } else if (op == "feed") {
      std::vector<int> b;
      while (t.more()) b.push_back(t.n());
      // exact-size heap buffer: an over-read is visible to the sanitizer
      char *buf = (char *)malloc(b.size());
      for (size_t i = 0; i < b.size(); ++i) buf[i] = (char)b[i];
      Vector<float> pcm;
      Status st = reader.Process(buf, b.size(), &pcm);
      free(buf);
      Ev e("feed");
      e.list("b", b).b("ok", st.ok());
      if (st.ok()) e.raw("out", Samples(pcm));
      e.emit();
    } else if (op == "bulk") {
      // SIZE bytes in one call: the period repeated; the result is summarised
      long size = t.n();
      std::vector<int> per;
      while (t.more()) per.push_back(t.n());
      char *buf = (char *)malloc(size);
      for (long i = 0; i < size; ++i) buf[i] = (char)per[i % per.size()];
      Vector<float> pcm;
      Status st = reader.Process(buf, size, &pcm);
      free(buf);
      Vector<float> head(std::min((int)per.size(), pcm.Dim()));
      for (int i = 0; i < head.Dim(); ++i) head(i) = pcm(i);
      long brk = -1;
      for (int i = (int)per.size(); st.ok() && brk < 0 && i < pcm.Dim(); ++i) {
        if (pcm(i) != pcm(i - (int)per.size())) brk = i;
      }
      Ev e("bulk");
      e.list("per", per).i("size", size).b("ok", st.ok());
      if (st.ok()) e.i("n", pcm.Dim()).raw("head", Samples(head)).i("brk", brk);
      e.emit();
    } else if (op == "bad") {
      long kind = t.n();
      char one[4] = {1, 2, 3, 4};
      Vector<float> pcm;
      Status st = kind == 0 ? reader.Process(nullptr, 4, &pcm)
                : kind == 1 ? reader.Process(one, 0, &pcm)
                            : reader.Process(one, -1, &pcm);
      Ev("bad").i("kind", kind).b("ok", st.ok()).emit();
    } else if (op == "reset") {
      reader.Reset();
      Ev("reset").emit();
    } else if (op == "file") {
      HeaderEvents(ReadFileBytes(t.w()));
    }
  }
}

VH_MAIN(script)
