// Histories on the building blocks of the Core.  stdin, one history per line: <kind> op;op;...
//   void|any|bool  connect g s | disconnect g s | off s | kill s | alloff g | emit g | plan s <op with , for spaces>     (signals)
//   ref   new a | set a b | release a | link a b | next a | weak a | strong a | swap a b
//   array|map|mapi|subset   add a v | insert a i k v | remove a i | update a i v | clear a | assign a b | copy a | reserve a n | put a k v | del a k
// stdout: one line per observation, "." at the end of a history.
#include "core.h"
#include <iostream>
#include <sstream>
#include <memory>
using namespace Core;

// ---------------------------------------------------------------- signals
template<class RT> RT answer(int i);
template<> void answer<void>(int i) {}
template<> Bool answer<Bool>(int i) { return i % 2 == 0; }
template<class RT> struct Sig {
  typedef Signal<RT, Int> S;
  std::unique_ptr<S> g[4];
  std::unique_ptr<Slot<RT, Int>> s[6];
  std::string plan[6];
  bool any = false;
  RT called(int i, Int sig) {
    std::cout << "c " << sig << " " << i << "\n";
    std::string p = plan[i]; plan[i] = "";
    if (p != "") { for (auto &c : p) if (c == ',') c = ' '; run(p); }
    return answer<RT>(i);
  }
  void run(std::string const &op) {
    std::istringstream in(op); std::string o; int a = 0, b = 0; in >> o >> a;
    if (o == "connect") { in >> b; if (s[b]) g[a]->connect(*s[b]); }
    else if (o == "disconnect") { in >> b; if (s[b]) g[a]->disconnect(*s[b]); }
    else if (o == "off") { if (s[a]) s[a]->disconnect(); }
    else if (o == "kill") s[a].reset();
    else if (o == "alloff") g[a]->disconnectAll();
    else if (o == "plan") { in >> plan[a]; }
    else if (o == "emit") fire(a);
  }
  void fire(int a);
  void finish() {
    for (auto &p : plan) p = "";
    // what is still connected: emit once more, with nothing planned
    std::cout << "end\n";
    for (int i = 1; i <= 3; ++i) if (g[i]) fire(i);
  }
  Sig() { for (int i = 1; i <= 3; ++i) g[i].reset(new S); }
};
template<> void Sig<void>::fire(int a) { g[a]->emit(a); std::cout << "d " << a << "\n"; }
template<> void Sig<Bool>::fire(int a) {
  Word r = any ? (Word)g[a]->emitAny(a) : g[a]->emit(a);
  std::cout << "d " << a << " " << r << "\n";
}

template<class RT> void signals(std::string const &ops, bool any) {
  Sig<RT> m; m.any = any;
  for (int i = 1; i <= 4; ++i) m.s[i].reset(new Slot<RT, Int>(std::function<RT(Int)>([&m, i](Int sig) -> RT { return m.called(i, sig); })));
  std::istringstream in(ops); std::string op;
  while (std::getline(in, op, ';')) m.run(op);
  m.finish();
  // slots and signals go in turn, in either order
  if (ops.size() % 2) for (auto &s : m.s) s.reset(); else for (auto &g : m.g) g.reset();
}
// ---------------------------------------------------------------- references
static std::vector<int> dead;
struct Base1 { int pad; };
struct Obj : Base1, TiObject {
  OBJECT_FACTORY(Obj);
  TYPE_INFO(Obj, TiObject, "h", "h", "h");
  int id; SharedPtr<Obj> next;
  Obj(int i = 0) : id(i) {}
  virtual ~Obj() { dead.push_back(id); id = -77; }
};
static void refs(std::string const &ops) {
  dead.clear();
  { SharedPtr<Obj> v[4]; WeakPtr<Obj> w; int n = 0;
    std::istringstream in(ops); std::string op;
    while (std::getline(in, op, ';')) {
      std::istringstream s(op); std::string o; int a = 0, b = 0; s >> o >> a >> b;
      if (o == "new") { ++n; v[a].release(); if (n % 2) v[a] = newSrdObj<Obj>(n); else v[a] = SharedPtr<Obj>(new Obj(n)); }
      else if (o == "set") v[a] = v[b];
      else if (o == "release") v[a].release();
      else if (o == "link") v[a]->next = v[b];
      else if (o == "next") v[a] = v[a]->next;
      else if (o == "weak") w = v[a];
      else if (o == "strong") { v[a] = w; }
      else if (o == "swap") { SharedPtr<Obj> t(v[a]); v[a] = v[b]; v[b] = t; }
      for (int i = 1; i <= 3; ++i) {
        std::cout << (v[i] == 0 ? 0 : v[i]->id) << ":" << (v[i].getRefCounter() ? v[i].getRefCounter()->count : 0) << " ";
        SharedPtr<TiObject> up(v[i]); SharedPtr<Obj> down = up.ti_cast<Obj>();
        if (down.get() != v[i].get() || (up != 0 && up.ti_cast_get<Obj>() != v[i].get())) std::cout << "!cast ";
      }
      std::cout << "|"; for (int d : dead) std::cout << " " << d; std::cout << "\n";
    }
    // cut the cycles so that nothing stays behind
    for (int k = 0; k < 3; ++k) for (int i = 1; i <= 3; ++i) { SharedPtr<Obj> t = v[i]; for (int j = 0; t != 0 && j < 20; ++j) { SharedPtr<Obj> u = t->next; t->next.release(); t = u; } }
  }
}

// ---------------------------------------------------------------- arrays, maps, subset index
static int alive = 0;
struct E { int v; int check; E(int x = 0) : v(x), check(x ^ 0x5a5a) { ++alive; } E(E const &e) : v(e.v), check(e.check) { ++alive; }
  ~E() { --alive; check = 1; } bool good() const { return check == (v ^ 0x5a5a); } bool operator==(E const &e) const { return v == e.v; } };
static void arrays(std::string const &ops) {
  static int rest = 0;
  { Srl::Array<E> a[4]; Srl::Array<E> const &k = a[0]; a[0].at(-1); k.at(-1); rest = alive;     // the elements that at() returns out of range stay
    std::istringstream in(ops); std::string op;
    while (std::getline(in, op, ';')) {
      std::istringstream s(op); std::string o; int x = 0, i = 0, k = 0, v = 0; s >> o >> x >> i >> k >> v;
      if (o == "add") a[x].add(E(v)); else if (o == "insert") a[x].insert(i, E(v)); else if (o == "remove") a[x].remove(i);
      else if (o == "clear") a[x].clear(); else if (o == "assign") a[x] = a[i]; else if (o == "copy") { Srl::Array<E> t(a[x]); t.add(E(99)); }
      else if (o == "reserve") a[x].reserve(i);
      for (int j = 1; j <= 2; ++j) { for (int q = 0; q < a[j].getLength(); ++q) { std::cout << "0=" << a[j](q).v << " "; if (!a[j](q).good()) std::cout << "!dead "; if (a[j].findPos(E(a[j](q).v)) > q) std::cout << "!find "; } std::cout << "| "; }
      std::cout << "\n";
    }
  }
  if (alive != rest) { std::cout << "!left " << alive - rest << "\n"; alive = rest; }
}
static void maps(std::string const &ops, bool index) {
  Srl::Map<Str, int> m(index);
  std::istringstream in(ops); std::string op;
  while (std::getline(in, op, ';')) {
    std::istringstream s(op); std::string o; int x = 0, i = 0, k = 0, v = 0; s >> o >> x >> i >> k >> v;
    std::string ks = "k" + std::to_string(k * 37 % 10); Str key(ks.c_str());
    if (o == "put") m.set(key, v); else if (o == "del") { bool had = m.findPos(key) != -1; if (m.remove(key) != had) std::cout << "!removed "; } else if (o == "insert") m.insert(i, key, v);
    else if (o == "remove") m.removeAt(i); else if (o == "clear") m.clear(); else if (o == "add") m(key) = v; else if (o == "copy") { Srl::Map<Str, int> t(m); t.set(Str("zz"), 1); }
    for (int q = 0; q < m.getLength(); ++q) {
      int id = -1; for (int c = 0; c < 10; ++c) if (std::string(m.keyAt(q).getBuf()) == "k" + std::to_string(c * 37 % 10)) id = c;
      std::cout << id << "=" << m.valAt(q) << " "; if (m.findPos(m.keyAt(q)) != q) std::cout << "!find" << m.findPos(m.keyAt(q)) << " ";
    }
    if (m.findPos(Str("none")) != -1) std::cout << "!absent "; 
    std::cout << "| | \n";
  }
}
static void subset(std::string const &ops) {
  SubsetIndex x; std::istringstream in(ops); std::string op;
  while (std::getline(in, op, ';')) {
    std::istringstream s(op); std::string o; int a = 0, i = 0, k = 0, v = 0; s >> o >> a >> i >> k >> v;
    if (o == "insert") x.onAdded(i, v); else if (o == "remove") x.onRemoved(i); else if (o == "update") x.onUpdated(i, v);
    for (Word j = 0; j < x.getSize(); ++j) std::cout << "0=" << x.get(j) << " ";
    std::cout << "| | \n";
  }
}

int main() {
  std::cout << std::unitbuf;
  std::string line;
  while (std::getline(std::cin, line)) {
    auto sp = line.find(' '); std::string kind = line.substr(0, sp), ops = sp == std::string::npos ? "" : line.substr(sp + 1);
    if (kind == "void") signals<void>(ops, false); else if (kind == "bool") signals<Bool>(ops, false); else if (kind == "any") signals<Bool>(ops, true);
    else if (kind == "ref") { refs(ops); std::cout << "left"; for (int d : dead) std::cout << " " << d; std::cout << "\n"; }
    else if (kind == "array") arrays(ops); else if (kind == "map") maps(ops, false); else if (kind == "mapi") maps(ops, true); else if (kind == "subset") subset(ops);
    std::cout << "." << std::endl;
  }
  return 0;
}
