// C05: time-indexed containers: a partial map from contiguous times to values
// ASSUMES: container sizes 0..4 before an operation, first indices in a finite set around zero and beyond 32 bits; every
// ASSUMES: stored value is symbolic
#include "ref.hpp"
#include <state-observation/tools/definitions.hpp>
using namespace vp;
using namespace stateObservation;
struct View
{
  long k = 0;
  std::vector<R> v;
};
static Vector one(const R & x)
{
  Vector v(2);
  v << x, x + 1;
  return v;
}
static void same(const std::string & l, IndexedVectorArray & a, const View & w)
{
  long n = w.v.size();
  const IndexedVectorArray & c = a;
  ensure(l + ": size", long(c.size()) == n);
  if(long(c.size()) != n) return;
  ensure(l + ": next index", c.getNextIndex() == w.k + n);
  if(n)
  {
    ensure(l + ": first index", c.getFirstIndex() == w.k);
    ensure(l + ": last index", c.getLastIndex() == w.k + n - 1);
    if(c.getFirstIndex() != w.k) return;
    ensureEq(l + ": front", c.front(), one(w.v[0]));
    ensureEq(l + ": back", c.back(), one(w.v[n - 1]));
    ensureEq(l + ": front, writable", a.front(), one(w.v[0]));
    ensureEq(l + ": back, writable", a.back(), one(w.v[n - 1]));
  }
  for(long t = w.k - 3; t < w.k + n + 3; ++t)
    ensure(l + ": exactly the stored times are present", c.checkIndex(t) == (t >= w.k && t < w.k + n));
  IndexedVectorArray::Array arr = c.getArray();
  ensure(l + ": array size", long(arr.size()) == n);
  for(long i = 0; i < n; ++i)
  {
    ensureEq(l + ": value at its time", c[w.k + i], one(w.v[i]));
    ensureEq(l + ": value at its time, writable", a[w.k + i], one(w.v[i]));
    ensureEq(l + ": array", arr[i], one(w.v[i]));
  }
}
// an arbitrary container
static void make(IndexedVectorArray & a, View & w)
{
  static const long firsts[4] = {0, -2, 5, 5000000000l};
  long n = pick("n", 0, 4);
  w.k = firsts[pick("first", 0, 3)];
  if(n == 0)
  {
    long how = pick("empty", 0, 2);
    if(how == 0) w.k = 0;
    if(how == 1)
    {
      a.setValue(one(R(0)), w.k);
      a.popFront();
      w.k = w.k + 1;
    }
    if(how == 2)
    {
      a.setValue(one(R(0)), w.k);
      a.pushBack(one(R(1)));
      a.clear();
      w.k = w.k + 2;
    }
    return;
  }
  for(long i = 0; i < n; ++i)
  {
    R x = in("x" + std::to_string(i));
    w.v.push_back(x);
    if(i == 0 || pick("by" + std::to_string(i), 0, 1))
      a.setValue(one(x), w.k + i);
    else
      a.pushBack(one(x));
  }
}
CONTRACT(build, "IndexedMatrixArrayT::setValue, pushBack, popFront, clear, accessors")
{
  IndexedVectorArray a;
  View w;
  make(a, w);
  same("as built", a, w);
}
CONTRACT(constructors, "IndexedMatrixArrayT constructors, reset, resize")
{
  IndexedVectorArray a;
  View w;
  same("default", a, w);
  make(a, w);
  IndexedVectorArray b(a);
  same("copy", b, w);
  IndexedVectorArray s(3, pick("k", -1, 2));
  ensure("sized: size", s.size() == 3);
  ensure("sized: first index", s.getFirstIndex() == pick("k", -1, 2) && s.getLastIndex() == pick("k", -1, 2) + 2);
  long m = pick("m", 0, 5);
  a.resize(m, one(in("fill")));
  View v = w;
  v.v.resize(m, in("fill"));
  if(w.v.size() || m == 0) same("resized", a, v);
  b.reset();
  same("reset", b, View());
  b.setValue(one(in("z")), 7);
  View z;
  z.k = 7;
  z.v.push_back(in("z"));
  same("reset, then any first time", b, z);
}
CONTRACT(set_value, "IndexedMatrixArrayT::setValue")
{
  IndexedVectorArray a;
  View w;
  make(a, w);
  long n = w.v.size();
  R y = in("y");
  if(n == 0)
  {
    long k = pick("k", -3, 3);
    a.setValue(one(y), k);
    w.k = k;
    w.v.push_back(y);
  }
  else
  {
    long i = pick("i", 0, 4);
    if(i > n) return;
    a.setValue(one(y), w.k + i);
    if(i < n)
      w.v[i] = y;
    else
      w.v.push_back(y);
  }
  same("set", a, w);
}
CONTRACT(assign_at, "IndexedMatrixArrayT::operator[], front, back (writable)")
{
  IndexedVectorArray a;
  View w;
  make(a, w);
  long n = w.v.size();
  if(n == 0) return;
  R y = in("y");
  long how = pick("how", 0, 2), i = pick("i", 0, 3);
  if(i >= n) return;
  if(how == 0) i = 0;
  if(how == 1) i = n - 1;
  (how == 0 ? a.front() : how == 1 ? a.back() : a[w.k + i]) = one(y);
  w.v[i] = y;
  same("assigned", a, w);
}
CONTRACT(push_pop, "IndexedMatrixArrayT::pushBack, popFront")
{
  IndexedVectorArray a;
  View w;
  make(a, w);
  for(int s = 0; s < 3; ++s)
  {
    if(pick("op" + std::to_string(s), 0, 1))
    {
      R y = in("y" + std::to_string(s));
      a.pushBack(one(y));
      w.v.push_back(y);
    }
    else if(w.v.size())
    {
      a.popFront();
      w.v.erase(w.v.begin());
      w.k++;
    }
    same("after step", a, w);
  }
}
CONTRACT(clear_keeps_time, "IndexedMatrixArrayT::clear")
{
  IndexedVectorArray a;
  View w;
  make(a, w);
  a.clear();
  w.k += w.v.size();
  w.v.clear();
  same("cleared, the next time is kept", a, w);
}
CONTRACT(truncate_after, "IndexedMatrixArrayT::truncateAfter")
{
  IndexedVectorArray a;
  View w;
  make(a, w);
  if(w.v.empty())
  {
    a.truncateAfter(w.k + pick("t", -2, 5));
    same("an empty one stays", a, w);
    return;
  }
  long t = w.k + pick("t", -2, 5);
  a.truncateAfter(t);
  while(w.v.size() && w.k + long(w.v.size()) - 1 > t) w.v.pop_back();
  same("removes exactly the later ones", a, w);
}
CONTRACT(truncate_before, "IndexedMatrixArrayT::truncateBefore")
{
  IndexedVectorArray a;
  View w;
  make(a, w);
  long t = w.k + pick("t", -2, 5);
  a.truncateBefore(t);
  while(w.v.size() && w.k < t)
  {
    w.v.erase(w.v.begin());
    ++w.k;
  }
  same("removes exactly the earlier ones", a, w);
}
CONTRACT(set_indices, "IndexedMatrixArrayT::setFirstIndex, setLastIndex")
{
  static const long at[4] = {0, -3, 4, 6000000000l};
  IndexedVectorArray a;
  View w;
  make(a, w);
  if(w.v.empty()) return;
  long k = at[pick("at", 0, 3)];
  if(pick("last", 0, 1))
  {
    a.setLastIndex(k);
    w.k = k - long(w.v.size()) + 1;
  }
  else
  {
    a.setFirstIndex(k);
    w.k = k;
  }
  same("re-indexed", a, w);
}
CONTRACT(indexed_matrix, "IndexedMatrixT")
{
  IndexedVector a;
  ensure("default: not set", !a.isSet());
  long k = pick("k", -2, 2);
  R x = in("x"), y = in("y");
  IndexedVector b(one(x), k);
  ensure("constructed: set at its time", b.isSet() && b.getTime() == k);
  ensureEq("constructed: value", b(), one(x));
  IndexedVector & r = a.set(one(y), k + 1);
  ensure("set: set at its time", &r == &a && a.isSet() && a.getTime() == k + 1);
  ensureEq("set: value", a(), one(y));
  a.setIndex(k + 5);
  ensure("re-indexed", a.getTime() == k + 5);
  ensureEq("value kept", a(), one(y));
  a() = one(x);
  ensureEq("assigned in place", a(), one(x));
  ensure("time kept", a.getTime() == k + 5);
  IndexedVector c(a);
  a.reset();
  ensure("reset", !a.isSet());
  ensure("a copy is independent", c.isSet() && c.getTime() == k + 5);
  ensureEq("copied value", c(), one(x));
  a.set(true);
  ensure("flagged set", a.isSet());
}
CONTRACT(checked_item, "CheckedItem")
{
  R x = in("x"), y = in("y");
  CheckedVector3 a;
  ensure("default: not set", !a.isSet());
  V3 v(x, y, R(1)), u(y, x, R(2));
  a = Vector3(v);
  ensure("assigned: set", a.isSet());
  ensureEq("value", a(), v);
  ensureEq("conversion", static_cast<const Vector3 &>(a), v);
  ensureEq("copy of the value", a.chckitm_getValue(), v);
  CheckedVector3 b(a), c((Vector3(u))), d;
  ensure("copy: set", b.isSet() && c.isSet() && !d.isSet());
  ensureEq("copy", b(), v);
  const CheckedVector3 e(d), f(c);
  ensure("copy of an item that is not set", !e.isSet() && f.isSet());
  ensureEq("read of a constant copy", f(), u);
  refuses("no value in the copy of an item that is not set", [&] { e(); });
  ensureEq("constructed from a value", c(), u);
  b = c;
  ensureEq("copy assignment", b(), u);
  ensureEq("source kept", c(), u);
  b = d;
  ensure("assignment of an unset item", !b.isSet());
  a.reset();
  ensure("reset", !a.isSet());
  a.set() = u;
  ensure("set in place", a.isSet());
  ensureEq("set in place: value", a(), u);
  a.set(false);
  ensure("flag", !a.isSet());
  a.set(true);
  ensure("flag", a.isSet());
}
CONTRACT(refusals, "IndexedMatrixArrayT, IndexedMatrixT, CheckedItem: access to what is not there")
{
  IndexedVectorArray a;
  View w;
  make(a, w);
  const IndexedVectorArray & c = a;
  long n = w.v.size(), t = w.k + pick("t", -3, 6);
  bool there = t >= w.k && t < w.k + n;
  ensure("read refused exactly outside the stored times", refused([&] { c[t]; }) == !there);
  ensure("write refused exactly outside the stored times", refused([&] { a[t]; }) == !there);
  if(!n) refuses("nothing to pop", [&] { a.popFront(); });
  if(n && !there)
    ensure("a value is stored exactly when no gap arises",
           refused([&] { a.setValue(one(R(1)), t); }) == (t != w.k + n));
  IndexedVector m;
  const IndexedVector & cm = m;
  refuses("no value before it is set", [&] { m(); });
  refuses("no value to read before it is set", [&] { cm(); });
  refuses("no time before it is set", [&] { cm.getTime(); });
  refuses("no change of time before it is set", [&] { m.setIndex(4); });
  m.set(one(R(1)), 3);
  ensure("a value once set", !refused([&] { m(); }));
  m.reset();
  refuses("no value after a reset", [&] { m(); });
  refuses("no value to read after a reset", [&] { cm(); });
  refuses("no time after a reset", [&] { cm.getTime(); });
  CheckedVector3 v;
  refuses("no checked value before it is set", [&] { v(); });
  v = Vector3(Vector3::Zero());
  ensure("a checked value once set", !refused([&] { v(); }));
  v.reset();
  refuses("no checked value after a reset", [&] { v(); });
}
