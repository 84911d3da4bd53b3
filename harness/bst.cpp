#include "common.h"
#include <algorithm>
#include <map>
#include <memory>
#include "graph/BST.h"
using namespace cuhksz;
static std::unique_ptr<BST> t[2];
static std::map<int, BSTNode*> node;
static std::map<BSTNode*, int> name;
void vf_reset() {
  for (auto& p : node) delete p.second;
  node.clear(); name.clear();
  for (auto& p : t) p.reset(new BST());
}
static int id(BSTNode* x) { if (!x) return 0; auto i = name.find(x); return i == name.end() ? -1 : i->second; }
static std::map<int, std::vector<int> > stored;   // only to know which nodes "all" visits
void vf_run(const Op& o, Ints& r) {
  const Ints& a = o.a; const std::string& op = o.op;
  if (op == "mk") {
    if (node.count(a[0])) { name.erase(node[a[0]]); delete node[a[0]]; }
    BSTNode* n = new BSTNode(a[1], a[2]); node[a[0]] = n; name[n] = a[0];
  } else if (op == "insert") t[a[0]]->insert(node[a[1]]);
  else if (op == "erase") t[a[0]]->erase(node[a[1]]);
  else if (op == "setval") node[a[0]]->setVal(a[1]);
  else if (op == "val") { put(r, node[a[0]]->getRank()); put(r, node[a[0]]->getVal()); }
  else if (op == "find") put(r, id(t[a[0]]->find(a[1])));
  else if (op == "pre") put(r, id(t[a[0]]->pre(node[a[1]])));
  else if (op == "suf") put(r, id(t[a[0]]->suf(node[a[1]])));
  else if (op == "all") {
    BST& b = *t[a[0]];
    std::vector<BSTNode*> v;
    for (auto& p : node) { BSTNode* f = b.find(p.second->getRank()); if (f) v.push_back(f); }
    std::sort(v.begin(), v.end(), [](BSTNode* x, BSTNode* y) { return x->getRank() < y->getRank(); });
    v.erase(std::unique(v.begin(), v.end()), v.end());
    for (BSTNode* x : v) { put(r, id(x)); put(r, id(b.pre(x))); put(r, id(b.suf(x))); put(r, x->getVal()); }
  } else abort();
}
