// Histories on Core containers with bases.  stdin, one per line:  <kind> op;op;...   kind: sm pm smi (maps), sl pl (lists)
//   add c k v | insert c k i v | set c k v | setat c i v | remove c k | removeat c i | clear c | base c b | destroy c
// stdout per operation: r <result>  then per live container: c <key>=<value><*> ...   and "." at the end of a history.
#include "core.h"
#include <iostream>
#include <sstream>
#include <memory>
using namespace Core;

static SharedPtr<TiInt> mk(int v) { return newSrdObj<TiInt>(v); }

struct Box {
  virtual ~Box() {}
  virtual int add(std::string k, int v) = 0;
  virtual void insert(std::string k, int i, int v) = 0;
  virtual int set(std::string k, int v) = 0;
  virtual void setAt(int i, int v) = 0;
  virtual int remove(std::string k) = 0;
  virtual void removeAt(int i) = 0;
  virtual void clear() = 0;
  virtual void base(Box *b) = 0;
  virtual std::string show() = 0;
};

static std::vector<SharedPtr<TiInt>> keep;   // what plain containers point to
static TiInt *plain(int v) { keep.push_back(mk(v)); return keep.back().get(); }
template<class P> struct Val;
template<> struct Val<SharedPtr<TiInt>> { static SharedPtr<TiInt> make(int v) { return mk(v); } };
template<> struct Val<TiInt*> { static TiInt *make(int v) { return plain(v); } };

template<class M, class P> struct MapBox : Box {
  M m;
  MapBox(bool idx) : m(idx) {}
  int add(std::string k, int v) { return m.add(k.c_str(), Val<P>::make(v)); }
  void insert(std::string k, int i, int v) { m.insert(i, k.c_str(), Val<P>::make(v)); }
  int set(std::string k, int v) { return m.set(k.c_str(), Val<P>::make(v)); }
  void setAt(int i, int v) { m.set(i, Val<P>::make(v)); }
  int remove(std::string k) { return m.remove(k.c_str()); }
  void removeAt(int i) { m.remove(i); }
  void clear() { m.clear(); }
  void base(Box *b) { m.setBase(b ? &static_cast<MapBox<M,P>*>(b)->m : 0); }
  std::string show() {
    std::ostringstream o;
    for (Int i = 0; i < (Int)m.getCount(); ++i) {
      std::string k(m.getKey(i).getBuf());
      o << " " << k << "=" << m.get(i)->get() << (m.isInherited(i) ? "*" : "");
      if (m.findIndex(k.c_str()) != i || m.getIndex(k.c_str()) != i || m.get(k.c_str())->get() != m.get(i)->get()) o << "!find" << m.findIndex(k.c_str());
    }
    if (m.findIndex("absent") != -1) o << " !absent";
    return o.str();
  }
};

template<class L, class P> struct ListBox : Box {
  L l;
  int add(std::string, int v) { return l.add(Val<P>::make(v)); }
  void insert(std::string, int i, int v) { l.insert(i, Val<P>::make(v)); }
  int set(std::string, int v) { return -9; }
  void setAt(int i, int v) { l.set(i, Val<P>::make(v)); }
  int remove(std::string) { return -9; }
  void removeAt(int i) { l.remove(i); }
  void clear() { l.clear(); }
  void base(Box *b) { l.setBase(b ? &static_cast<ListBox<L,P>*>(b)->l : 0); }
  std::string show() {
    std::ostringstream o;
    for (Int i = 0; i < (Int)l.getCount(); ++i) o << " =" << l.get(i)->get() << (l.isInherited(i) ? "*" : "");
    return o.str();
  }
};

static Box *make(std::string kind) {
  if (kind == "sm") return new MapBox<SharedMap<TiInt>, SharedPtr<TiInt>>(false);
  if (kind == "smi") return new MapBox<SharedMap<TiInt>, SharedPtr<TiInt>>(true);
  if (kind == "pm") return new MapBox<PlainMap<TiInt>, TiInt*>(false);
  if (kind == "sl") return new ListBox<SharedList<TiInt>, SharedPtr<TiInt>>();
  return new ListBox<PlainList<TiInt>, TiInt*>();
}

int main() {
  std::cout << std::unitbuf;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string kind, rest, op;
    in >> kind;
    std::getline(in, rest);
    Box *b[4] = {0, make(kind), make(kind), make(kind)};
    std::istringstream ops(rest);
    while (std::getline(ops, op, ';')) {
      std::istringstream s(op);
      std::string o, k; int c = 0, i = 0, v = 0, r = -1;
      s >> o >> c;
      try {
        if (o == "add") { s >> k >> v; r = b[c]->add(k, v); }
        else if (o == "insert") { s >> k >> i >> v; b[c]->insert(k, i, v); }
        else if (o == "set") { s >> k >> v; r = b[c]->set(k, v); }
        else if (o == "setat") { s >> i >> v; b[c]->setAt(i, v); }
        else if (o == "remove") { s >> k; r = b[c]->remove(k); }
        else if (o == "removeat") { s >> i; b[c]->removeAt(i); }
        else if (o == "clear") b[c]->clear();
        else if (o == "base") { s >> i; b[c]->base(i ? b[i] : 0); }
        else if (o == "destroy") { delete b[c]; b[c] = 0; }
      } catch (Srl::Exception &e) { r = -2; }
      catch (std::exception &e) { r = -3; }
      std::cout << "r " << r << "\n";
      for (c = 1; c <= 3; ++c) if (b[c]) std::cout << c << b[c]->show() << "\n";
    }
    for (int c = 1; c <= 3; ++c) delete b[c];
    keep.clear();
    std::cout << "." << std::endl;
  }
  return 0;
}
