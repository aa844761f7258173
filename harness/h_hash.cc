// Drives HashTable with int keys, with keys whose hash collides and with pair keys.
// script: tab CAP KIND ; i K V ; f K D ; x ; all LO HI STEP D ; ir LO HI M B: insert K -> M*K+B for LO <= K <= HI
#include "vh.h"
#include "hashtable.h"
using namespace pocketkaldi;
using vh::Ev; using vh::Tok;

template <int DIV> struct CK { int a; bool operator==(const CK &o) const { return a == o.a; } };
template <int DIV> int32_t hash(CK<DIV> k) { return DIV == 0 ? 7 : k.a / DIV; }
struct PK2 { int a, b; bool operator==(const PK2 &o) const { return a == o.a && b == o.b; } };
inline int32_t hash(PK2 k) { int32_t h = 19; h = (int32_t)((uint32_t)h * 31 + k.a); h = (int32_t)((uint32_t)h * 31 + k.b); return h; }

struct Any { virtual ~Any() {} virtual void ins(int, int) = 0; virtual int find(int, int) = 0; virtual void clear() = 0; };
template <class K> K mk(int k);
template <> int mk<int>(int k) { return k; }
template <> CK<0> mk<CK<0>>(int k) { return CK<0>{k}; }
template <> CK<10> mk<CK<10>>(int k) { return CK<10>{k}; }
template <> PK2 mk<PK2>(int k) { return PK2{k >= 0 ? k / 31 : -1, k}; }
template <class K> struct T : Any {
  HashTable<K, int> t;
  explicit T(int cap) : t(cap) {}
  void ins(int k, int v) override { t.Insert(mk<K>(k), v); }
  int find(int k, int d) override { return t.Find(mk<K>(k), d); }
  void clear() override { t.Clear(); }
};
struct TD : Any {
  HashTable<int, int> t;
  void ins(int k, int v) override { t.Insert(k, v); }
  int find(int k, int d) override { return t.Find(k, d); }
  void clear() override { t.Clear(); }
};

static void script(int, const vh::Script &s) {
  Any *a = nullptr;
  Ev("new").emit();
  for (const std::string &l : s) {
    Tok t(l);
    std::string op = t.w();
    if (op == "tab") {
      delete a;
      int cap = t.n(); std::string k = t.w();
      a = k == "int" ? (Any *)new T<int>(cap) : k == "const" ? (Any *)new T<CK<0>>(cap) :
          k == "div" ? (Any *)new T<CK<10>>(cap) : k == "pair" ? (Any *)new T<PK2>(cap) : (Any *)new TD();
      Ev("tab").i("cap", cap).emit();
    } else if (op == "i") {
      int k = t.n(), v = t.n();
      a->ins(k, v);
      Ev("ins").i("k", k).i("v", v).emit();
    } else if (op == "ir") {
      int lo = t.n(), hi = t.n(), m = t.n(), b = t.n();
      for (int k = lo; k <= hi; ++k) a->ins(k, m * k + b);
      Ev("insrange").i("lo", lo).i("hi", hi).i("m", m).i("b", b).emit();
    } else if (op == "f") {
      int k = t.n(), d = t.n();
      Ev("find").i("k", k).i("d", d).i("v", a->find(k, d)).emit();
    } else if (op == "x") {
      a->clear();
      Ev("clear").emit();
    } else if (op == "all") {
      int lo = t.n(), hi = t.n(), st = t.n(), d = t.n();
      std::vector<int> ks, vs;
      for (int k = lo; k <= hi; k += st) { ks.push_back(k); vs.push_back(a->find(k, d)); }
      Ev("all").list("ks", ks).list("vs", vs).i("d", d).emit();
    }
  }
  delete a;
}
VH_MAIN(script)
