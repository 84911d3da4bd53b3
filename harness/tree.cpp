#include "common.h"
#include <map>
#include <memory>
#include "graph/Tree.h"
using namespace cuhksz;
static std::unique_ptr<Tree> t;
static std::map<int, Node*> node;
static std::map<Node*, int> name;
static std::vector<int> order;
void vf_reset() {
  for (auto& p : node) delete p.second;
  node.clear(); name.clear(); order.clear();
  t.reset(new Tree);
}
static int id(Node* x) { if (!x) return 0; auto i = name.find(x); return i == name.end() ? -1 : i->second; }
void vf_run(const Op& o, Ints& r) {
  const Ints& a = o.a; const std::string& op = o.op;
  if (op == "mk") { int w = a.size() > 2 ? (int)a[2] : (int)a[0]; Node* n = a[1] == 0 ? new Node(w) : new Node(w, a[1]); node[a[0]] = n; name[n] = a[0]; }
  else if (op == "root") { t->setRoot(node[a[0]]); if (order.empty()) order.push_back(a[0]); }
  else if (op == "top") order.push_back(a[0]);
  else if (op == "add") { t->addNode(node[a[0]], node[a[1]]); order.push_back(a[0]); }
  else if (op == "chain") {
    Node* f = node[a[2]];
    for (ll i = a[0]; i < a[0] + a[1]; i++) { Node* n = new Node(i); node[i] = n; name[n] = i; t->addNode(n, f); order.push_back(i); f = n; }
  }
  else if (op == "getroot") put(r, id(t->getRoot()));
  else if (op == "lca") put(r, id(t->LCA(node[a[0]], node[a[1]])));
  else if (op == "dist") put(r, t->getDistance(node[a[0]], node[a[1]]));
  else if (op == "anc") put(r, id(node[a[0]]->getAncestor(a[1])));
  else if (op == "info") {
    Node* n = node[a[0]];
    put(r, n->getHeight()); put(r, id(n->getFa())); put(r, n->getDegree()); put(r, n->getID()); put(r, n->getVal());
  }
  else if (op == "sons") { for (Node* n : node[a[0]]->getSon()) put(r, id(n)); }
  else if (op == "jumps") { for (Node* n : node[a[0]]->ancestor) put(r, id(n)); }
  else if (op == "pairs") {
    for (int x : order) for (int y : order) { put(r, id(t->LCA(node[x], node[y]))); put(r, t->getDistance(node[x], node[y])); }
  }
  else if (op == "ancs") { for (int x : order) for (int k = 0; k <= node[x]->getHeight(); k++) put(r, id(node[x]->getAncestor(k))); }
  else abort();
}
