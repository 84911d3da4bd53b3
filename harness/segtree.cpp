#include "common.h"
#include <memory>
#include "graph/SegmentTree.h"
#ifndef VT
#define VT int
#endif
#ifndef UNIT       // every array value stands for itself times UNIT; sums, extremes and scaled values are linear in it
#define UNIT 1
#endif
using namespace cuhksz;
static std::unique_ptr<SegmentTree<VT> > t[2];
void vf_reset() { t[0].reset(); t[1].reset(); }
static void val(Ints& r, VT v) {
  ll x = (ll)(v / (VT)(UNIT));
  if (v != (VT)x * (VT)(UNIT) || x > 2147483646LL || x < -2147483646LL) put(r, 2147483647LL); else put(r, x);
}
void vf_run(const Op& o, Ints& r) {
  const Ints& a = o.a;
  SegmentTree<VT>* s = t[a[0]].get();
  if (o.op == "new") {
    std::vector<VT> v; for (ll x : o.b) v.push_back((VT)x * (VT)(UNIT));
    t[a[0]].reset(new SegmentTree<VT>(v));
  } else if (o.op == "copy") {
    if (s) *s = *t[a[1]]; else t[a[0]].reset(new SegmentTree<VT>(*t[a[1]]));
  } else if (o.op == "add") s->addInterval(a[1], a[2], (VT)a[3] * (VT)(UNIT));
  else if (o.op == "mul") s->mulInterval(a[1], a[2], (VT)a[3]);
  else if (o.op == "max") val(r, s->queryMax(a[1], a[2]));
  else if (o.op == "min") val(r, s->queryMin(a[1], a[2]));
  else if (o.op == "sum") val(r, s->querySum(a[1], a[2]));
  else if (o.op == "size") put(r, s->getSize());
  else if (o.op == "qall") {
    int n = s->getSize();
    for (int l = 0; l < n; l++) for (int e = l; e < n; e++)
      val(r, a[1] == 1 ? s->queryMax(l, e) : a[1] == 2 ? s->queryMin(l, e) : s->querySum(l, e));
  }
}
