// Drives Pool / GCPool with an object type that records its life cycle.
// script:  pool gc|plain|triv BS ; a PREV ; d ID ; g ID... ; x ; del
#include <map>
#include <memory>
#include <utility>
#include "vh.h"
#include "pool.h"
using namespace pocketkaldi;
using vh::Ev; using vh::Tok;

static std::vector<std::pair<char, long>> g_log;
static std::string take_log() {
  std::string r = "[";
  for (size_t i = 0; i < g_log.size(); ++i)
    r += std::string(i ? "," : "") + "[\"" + g_log[i].first + "\"," + std::to_string(g_log[i].second) + "]";
  g_log.clear();
  return r + "]";
}

struct Plain {
  long id, guard[3];
  Plain(long i, Plain *p) : id(i) { (void)p; g_log.push_back({'c', id}); for (int k = 0; k < 3; ++k) guard[k] = id * 1000 + k; }
  ~Plain() { g_log.push_back({'d', id}); id = -7; }
  bool good(long i, Plain *) const { return id == i && guard[0] == i * 1000 && guard[1] == i * 1000 + 1 && guard[2] == i * 1000 + 2; }
};
struct Triv {
  long id, guard[2];
  Triv(long i, Triv *) : id(i) { g_log.push_back({'c', id}); guard[0] = i * 77; guard[1] = i * 78; }
  bool good(long i, Triv *) const { return id == i && guard[0] == i * 77 && guard[1] == i * 78; }
};
struct Node : public Collectable {
  long id; Node *prev_; long guard[2];
  Node(long i, Node *p) : id(i), prev_(p) { g_log.push_back({'c', id}); guard[0] = i * 77; guard[1] = i * 78; }
  ~Node() { g_log.push_back({'d', id}); id = -7; }
  void OnCollect() override {
    g_log.push_back({'k', id});
    // like Decoder::OLabel: touches the predecessor unless that one is freed
    if (prev_ && !prev_->is_freed() && prev_->id <= 0) g_log.push_back({'!', id});
    prev_ = nullptr;
  }
  Node *previous() const { return prev_; }
  bool good(long i, Node *p) const { return id == i && prev_ == p && !is_freed() && guard[0] == i * 77 && guard[1] == i * 78; }
};

template <class T> struct Info { T *p; long prev; };

struct Any {
  virtual ~Any() {}
  virtual void step(const std::string &op, Tok &t) = 0;
};

template <class P, class T> void do_gc(P *, const std::vector<T *> &, ...) {}
template <int BS> void do_gc(GCPool<Node, BS> *p, const std::vector<Node *> &r) { p->GC(r); }

template <class T, class P> struct Drv : Any {
  std::unique_ptr<P> pool;
  std::map<long, Info<T>> live;
  std::map<void *, long> slots;
  long next;
  bool dtor, gc; int bs;
  Drv(bool gcp, bool d, int b) : pool(new P()), next(0), dtor(d), gc(gcp), bs(b) {
    Ev("pool").b("gc", gc).i("bs", bs).i("n", pool->allocated_nodes()).i("f", pool->free_nodes()).raw("log", take_log()).emit();
  }
  ~Drv() {
    if (!pool) return;
    pool.reset();
    Ev("delete").b("d", dtor).raw("log", take_log()).emit();
  }
  void finish(Ev &e) {
    e.raw("log", take_log()).i("n", pool->allocated_nodes()).i("f", pool->free_nodes());
    std::vector<long> bad;
    for (auto &kv : live) {
      T *pp = kv.second.prev ? live[kv.second.prev].p : nullptr;
      if (!kv.second.p->good(kv.first, pp)) bad.push_back(kv.first);
    }
    e.list("bad", bad).emit();
  }
  void step(const std::string &op, Tok &t) override {
    if (op == "a") {
      long pr = t.n();
      T *pp = pr && live.count(pr) ? live[pr].p : nullptr;
      if (!pp) pr = 0;
      T *p = pool->Alloc(++next, pp);
      if (!slots.count(p)) { long s = slots.size(); slots[p] = s; }
      live[next] = Info<T>{p, pr};
      Ev e("alloc"); e.i("id", next).i("prev", pr).i("slot", slots[p]); finish(e);
    } else if (op == "d") {
      long i = t.n();
      if (!live.count(i)) return;
      for (auto &kv : live) if (kv.second.prev == i) return;
      pool->Dealloc(live[i].p);
      live.erase(i);
      Ev e("dealloc"); e.i("id", i).b("d", dtor); finish(e);
    } else if (op == "g") {
      if (!gc) return;
      std::vector<T *> roots; std::vector<long> ids;
      while (t.more()) { long i = t.n(); if (live.count(i)) { roots.push_back(live[i].p); ids.push_back(i); } }
      do_gc(pool.get(), roots);
      // the harness forgets what it can no longer see: not reachable from the roots
      std::map<long, Info<T>> keep;
      std::vector<long> st = ids;
      while (!st.empty()) { long i = st.back(); st.pop_back(); if (keep.count(i)) continue; keep[i] = live[i]; if (live[i].prev) st.push_back(live[i].prev); }
      live = keep;
      Ev e("gc"); e.list("roots", ids); finish(e);
    } else if (op == "x") {
      pool->Clear();
      live.clear();
      Ev e("clear"); e.b("d", dtor); finish(e);
    }
  }
};

template <int BS> Any *make(const std::string &k) {
  if (k == "gc") return new Drv<Node, GCPool<Node, BS>>(true, true, BS);
  if (k == "plain") return new Drv<Plain, Pool<Plain, BS>>(false, true, BS);
  return new Drv<Triv, Pool<Triv, BS>>(false, false, BS);
}

static void script(int, const vh::Script &s) {
  Ev("new").emit();
  Any *d = nullptr;
  for (const std::string &l : s) {
    Tok t(l);
    std::string op = t.w();
    if (op == "pool") {
      delete d;
      std::string k = t.w(); int bs = t.n();
      d = bs == 1 ? make<1>(k) : bs == 2 ? make<2>(k) : bs == 3 ? make<3>(k) : bs == 7 ? make<7>(k) : bs == 64 ? make<64>(k) : make<4096>(k);
    } else d->step(op, t);
  }
  delete d;
}
VH_MAIN(script)
