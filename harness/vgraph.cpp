#include "common.h"
#include <algorithm>
#include <map>
#include <set>
#include <vector>
#include "graph/Edge.h"
#include "graph/Vertex.h"
using namespace cuhksz;
static std::map<int, Vertex*> v;
static std::map<int, Edge*> e, s;
static std::map<int, int> vid, eid;   // library id -> first object that reported it
static std::map<Vertex*, int> vname;
void vf_reset() {
  for (auto& p : s) delete p.second;
  for (auto& p : v) delete p.second;
  v.clear(); e.clear(); s.clear(); vid.clear(); eid.clear(); vname.clear();
}
static int nameOf(Vertex* x) { auto i = vname.find(x); return i == vname.end() ? -9 : i->second; }
static int idOf(std::map<int, int>& m, int id) { auto i = m.find(id); return i == m.end() ? -9 : i->second; }
static void reg(int name, Vertex* x, Ints& r) {
  v[name] = x; vname[x] = name; vid.insert(std::make_pair(x->getID(), name)); put(r, idOf(vid, x->getID()));
}
static void list(std::list<Edge*>& l, Ints& r) {
  Ints t;
  for (Edge* x : l) t.push_back(idOf(eid, x->getID()));
  std::sort(t.begin(), t.end());
  for (ll x : t) put(r, x);
  put(r, -1);
}
static void look(Vertex* x, Ints& r) {
  put(r, idOf(vid, x->getID())); put(r, x->getVal()); put(r, x->isValid());
  put(r, x->getInDegree()); put(r, x->getOutDegree());
  list(x->outEdges, r); list(x->inEdges, r);
}
static void einfo(Edge* x, Ints& r) {
  put(r, idOf(eid, x->getID())); put(r, nameOf(x->getFrom())); put(r, nameOf(x->getTo())); put(r, x->getVal()); put(r, x->isValid());
}
void vf_run(const Op& o, Ints& r) {
  const Ints& a = o.a; const std::string& op = o.op;
  if (op == "mk") reg(a[0], a[1] == 0 ? new Vertex() : new Vertex((int)a[1]), r);
  else if (op == "copy") reg(a[0], new Vertex(*v[a[1]]), r);
  else if (op == "assign") *v[a[0]] = *v[a[1]];
  else if (op == "kill") {
    Vertex* x = v[a[0]];
    for (auto i = e.begin(); i != e.end();)
      if (i->second->getFrom() == x || i->second->getTo() == x) i = e.erase(i); else ++i;
    for (auto i = s.begin(); i != s.end();)
      if (i->second->getFrom() == x || i->second->getTo() == x) { delete i->second; i = s.erase(i); } else ++i;
    v.erase(a[0]); vname.erase(x); delete x;
  }
  else if (op == "edge") {
    Vertex* f = v[a[1]];
    if (a[3] == 0) f->addEdge(*v[a[2]]); else f->addEdge(*v[a[2]], a[3]);
    int fresh = 0; Edge* n = nullptr;
    for (Edge* x : f->outEdges) if (!eid.count(x->getID())) { fresh++; n = x; }
    if (n) { e[a[0]] = n; eid[n->getID()] = a[0]; }
    put(r, fresh);
    if (!n) e[a[0]] = f->outEdges.back();
  }
  else if (op == "vset") v[a[0]]->setVal(a[1]);
  else if (op == "vvalid") { if (a[1]) v[a[0]]->setValid(); else v[a[0]]->setInvalid(); }
  else if (op == "eset") e[a[0]]->setVal(a[1]);
  else if (op == "evalid") { if (a[1]) e[a[0]]->setValid(); else e[a[0]]->setInvalid(); }
  else if (op == "vcmp") { Vertex &x = *v[a[0]], &y = *v[a[1]]; put(r, x == y); put(r, x != y); put(r, x < y); }
  else if (op == "einfo") einfo(e[a[0]], r);
  else if (op == "ecmp") { Edge &x = *e[a[0]], &y = *e[a[1]]; put(r, x == y); put(r, x != y); put(r, x < y); }
  else if (op == "smk" || op == "scopy") {
    Edge* n = op == "scopy" ? new Edge(*e[a[1]]) : a[3] == 0 ? new Edge(v[a[1]], v[a[2]]) : new Edge(v[a[1]], v[a[2]], a[3]);
    s[a[0]] = n; put(r, eid.insert(std::make_pair(n->getID(), (int)a[0])).second);
  }
  else if (op == "sassign") *s[a[0]] = *e[a[1]];
  else if (op == "sinfo") einfo(s[a[0]], r);
  else if (op == "look") look(v[a[0]], r);
  else if (op == "mass") {   // n more edges between two vertices, and n more vertices: identities
    std::set<int> is; Vertex &f = *v[a[0]], &t = *v[a[1]]; int n = a[2], m = 0;
    Vertex* x = new Vertex(); std::vector<Vertex*> ys; ll in = 0, left = 0; bool same = true;
    for (int i = 0; i <= n / 50; i++) ys.push_back(new Vertex(3));
    for (int i = 0; i < n; i++) x->addEdge(*ys[i % ys.size()], i);
    for (Edge* p : x->outEdges) { is.insert(p->getID()); m += eid.count(p->getID()); }
    for (Vertex* y : ys) { in += y->getInDegree(); for (Edge* p : y->inEdges) same = same && is.count(p->getID()) && p->getTo() == y && p->getFrom() == x; }
    put(r, is.size()); put(r, m); put(r, x->getOutDegree()); put(r, in); put(r, same);
    delete x;
    for (Vertex* y : ys) { left += y->getInDegree(); delete y; }
    put(r, left);
    is.clear(); m = 0; std::vector<Vertex*> w, ws(1, new Vertex(f.getVal()));
    for (int i = 0; i < n; i++) { w.push_back(i % 3 == 0 ? new Vertex() : i % 3 == 1 ? new Vertex(i) : new Vertex(*ws[0])); is.insert(w.back()->getID()); m += vid.count(w.back()->getID()); }
    put(r, is.size()); put(r, m); put(r, *w.front() == t);
    for (Vertex* p : w) delete p;
    delete ws[0];
  }
  else if (op == "all") { for (auto& p : v) look(p.second, r); for (auto& p : e) einfo(p.second, r); }
  else abort();
}
