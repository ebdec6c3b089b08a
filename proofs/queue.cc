#include "vf.hh"
#include "LinkedQueue.hh"
using namespace PLEXIL;
struct Item { Item *nxt; int prio; bool flag; Item *next() const { return nxt; } Item **nextPtr() { return &nxt; } Item() : nxt(nullptr), prio(0), flag(false) {} };
struct Cmp { bool operator()(Item const &a, Item const &b) const { return a.prio < b.prio; } };
// an arbitrary queue: n items, named 1..n in queue order; item n + 1 is not in the queue
template <class Base> struct Q { Base b; Fam<Item> f; size_t n, w, n1;
  Q(size_t least = 0) : f("item"), n(0), w(1) {
    n = vf_size("length", least, 1000000000); n1 = n + 1;
    f.any(&f.proto.prio, "prio"); f.any(&f.proto.flag, "flag"); f.make(n + 1); f.chain(&f.proto.nxt, n);
    b.m_head = f.at(n ? 1 : 0); b.m_tail = f.at(n); b.m_count = n; if (n) w = vf_size("witness", 1, n); }
  Item *at(size_t i) { return f.at(i); } Item *spare() { return f.at(n1); }
  Item *nx(size_t i) { return f.at(i)->nxt; } Item *dflt(size_t i) { return f.at(i < n ? i + 1 : 0); }
  bool ends(size_t h, size_t t, size_t c) { return (b.m_head == at(h)) & (b.m_tail == at(t)) & (b.m_count == c); }
  void same() { vf_check(ends(n ? 1 : 0, n, n), "the queue itself is unchanged"); if (n) vf_check(nx(w) == dflt(w), "links are unchanged"); }
};
typedef LinkedQueue<Item> LQ; typedef Q<LQ> L; typedef Q<PriorityQueue<Item, Cmp>> P;
PROOF(fresh) { LinkedQueue<Item> q; vf_check(q.empty() && q.size() == 0 && !q.front(), "a new queue is empty"); PriorityQueue<Item, Cmp> p; vf_check(p.empty() && p.size() == 0 && !p.front() && p.front_count() == 0, "a new priority queue is empty"); q.pop(); vf_check(q.empty() && q.size() == 0, "pop of an empty queue does nothing"); }
PROOF(observe) { L q; vf_check(q.b.size() == q.n, "size counts the items"); vf_check(q.b.empty() == (q.n == 0), "empty exactly without items"); vf_check(q.b.front() == q.at(q.n ? 1 : 0), "front is the first item"); q.same(); }
PROOF(pop) { L q(1); q.b.pop(); size_t n = q.n; vf_check(q.ends(n > 1 ? 2 : 0, n > 1 ? n : 0, n - 1), "front moves to the second item, size shrinks"); vf_check(q.nx(1) == nullptr, "the popped item is unlinked"); if (q.w > 1) vf_check(q.nx(q.w) == q.dflt(q.w), "the other links are unchanged"); }
PROOF(push) { L q; Item *t = q.spare(); q.b.push(t); size_t n = q.n; vf_check(q.ends(1, n + 1, n + 1) || (n == 0 && q.b.m_head == t && q.b.m_tail == t && q.b.m_count == 1), "the item becomes the tail"); vf_check(t->nxt == nullptr, "the tail links nowhere"); if (n) vf_check(q.nx(q.w) == q.at(q.w + 1), "links lead to the new tail"); }
PROOF(push_rejects) { L q; Item *t = q.spare(); bool linked = vf_bool("linked"), null = vf_bool("null"); if (linked) t->nxt = q.at(q.n1); vf_expect_error(linked || null); q.b.push(null ? nullptr : t); vf_check(!null && !linked, "only an unlinked item is accepted"); }
PROOF(insert_after) { L q(1); size_t i = vf_size("position", 1, q.n); LQ::iterator it(q.at(i)); Item *t = q.spare(); LQ::iterator r = q.b.insert_after(it, t); size_t n = q.n;
  vf_check(*r == t, "the result addresses the new item"); vf_check(q.b.m_count == n + 1 && q.b.m_head == q.at(1), "size grows, front stays"); vf_check(q.nx(i) == t, "the item follows the insertion point"); vf_check(t->nxt == q.dflt(i), "the rest follows the item"); vf_check(q.b.m_tail == (i == n ? t : q.at(n)), "the tail is the last item"); if (q.w != i) vf_check(q.nx(q.w) == q.dflt(q.w), "the other links are unchanged"); }
PROOF(insert_after_end) { L q; Item *t = q.spare(); LQ::iterator r = q.b.insert_after(q.b.end(), t); vf_check(*r == t && q.b.m_tail == t && q.b.m_count == q.n + 1, "insertion at the end appends"); if (q.n) vf_check(q.nx(q.w) == q.at(q.w + 1), "links lead to the new tail"); else vf_check(q.b.m_head == t, "sole item is the front"); vf_check(t->nxt == nullptr, "the tail links nowhere"); }
PROOF(remove) { L q; size_t n = q.n, i = vf_size("victim", 1, n + 1); q.b.remove(q.at(i)); 
  if (i > n) { q.same(); vf_check(q.at(i)->nxt == nullptr, "an item not in the queue stays unlinked"); return; }
  vf_check(q.b.m_count == n - 1, "size shrinks by one"); vf_check(q.nx(i) == nullptr, "the removed item is unlinked");
  vf_check(q.b.m_head == (i == 1 ? q.dflt(1) : q.at(1)), "front is the first remaining item"); vf_check(q.b.m_tail == (i == n ? q.at(n - 1) : q.at(n)), "tail is the last remaining item");
  if (q.w != i) vf_check(q.nx(q.w) == (q.w + 1 == i ? q.dflt(i) : q.dflt(q.w)), "the remaining items stay linked in order"); }
PROOF(remove_null) { L q; q.b.remove(nullptr); q.same(); }
PROOF(find_if) { L q; size_t w = q.w; if (q.n) vf_hint(w, !q.at(w)->flag); Item *r = q.b.find_if([](Item *t) { return t->flag; }); q.same();
  if (r) { vf_check(r->flag, "the item found satisfies the predicate"); if (q.n) vf_check(q.f.id(r) <= w || !q.at(w)->flag, "it is the first such item"); vf_check(q.f.id(r) <= q.n, "it is in the queue"); } else if (q.n) vf_check(!q.at(w)->flag, "no satisfying item is missed"); }
PROOF(remove_if) { L q; size_t w = q.w, n = q.n; if (n) vf_hint(w, !q.at(w)->flag); Item *r = q.b.remove_if([](Item *t) { return t->flag; });
  if (!r) { q.same(); if (n) vf_check(!q.at(w)->flag, "no satisfying item is missed"); return; }
  size_t i = q.f.id(r); vf_check(r->flag, "the removed item satisfies the predicate"); vf_check(i >= 1 && i <= n, "it was in the queue"); if (n) vf_check(i <= w || !q.at(w)->flag, "it is the first such item");
  vf_check(q.b.m_count == n - 1, "size shrinks by one"); vf_check(q.nx(i) == nullptr, "the removed item is unlinked");
  vf_check(q.b.m_head == (i == 1 ? q.dflt(1) : q.at(1)), "front is the first remaining item"); vf_check(q.b.m_tail == (i == n ? q.at(n - 1) : q.at(n)), "tail is the last remaining item");
  if (n && w != i) vf_check(q.nx(w) == (w + 1 == i ? q.dflt(i) : q.dflt(w)), "the remaining items stay linked in order"); }
PROOF(clear) { L q; q.b.clear(); vf_check(q.b.empty() && q.b.size() == 0 && !q.b.m_tail && !q.b.front(), "cleared queue is empty"); if (q.n) vf_check(q.nx(q.w) == nullptr, "every item is unlinked"); }
PROOF(iterate) { L q; LQ::iterator it = q.b.begin(); vf_check(*it == q.b.front(), "iteration starts at the front"); if (q.n) { LQ::iterator i(q.at(q.w)); vf_check((bool) i && *i == q.at(q.w), "iterator addresses its item"); ++i; vf_check(*i == q.dflt(q.w), "and steps to the next one"); vf_check((i == q.b.end()) == (q.w == q.n), "ending after the last"); } else vf_check(it == q.b.end(), "nothing to iterate"); 
  LQ const &c = q.b; LQ::const_iterator ci = c.begin(); vf_check(*ci == q.b.front(), "const iteration starts at the front"); if (q.n) { LQ::const_iterator j(q.at(q.w)); ++j; vf_check(*j == q.dflt(q.w), "const iterator steps to the next one"); } }
PROOF(priority_insert) { P q; Item *t = q.spare(); size_t w = q.w, n = q.n; q.f.nondecreasing(&q.f.proto.prio, n); if (n) vf_hint(w, q.at(w)->prio <= t->prio); int p = t->prio, wp = n ? q.at(w)->prio : 0;
  q.b.insert(t); vf_check(q.b.m_count == n + 1, "size grows by one"); vf_check(t->prio == p, "priorities are untouched");
  size_t nx = q.f.id(t->nxt), b = nx ? nx - 1 : n; vf_check(b <= n, "the item is followed by an item of the queue or ends it");       // b items precede the new one
  vf_check(q.b.m_head == (b ? q.at(1) : t), "front"); vf_check(q.b.m_tail == (b == n ? t : q.at(n)), "tail");
  if (n) { vf_check(q.nx(w) == (w == b ? t : q.dflt(w)), "links: the item sits between its neighbours"); vf_check((wp <= p) == (w <= b), "it follows exactly the items of equal or smaller priority"); } }
PROOF(front_count) { P q; size_t w = q.w, n = q.n; q.f.nondecreasing(&q.f.proto.prio, n); if (n) vf_hint(w, q.at(w)->prio == q.at(1)->prio); size_t c = q.b.front_count(); vf_check(c <= n && (n == 0 || c >= 1), "a count of items"); q.same(); if (n) vf_check((w <= c) == (q.at(w)->prio == q.at(1)->prio), "counts exactly the leading items of the front's priority"); }
PROOF(priority_front) { P q(1); q.f.nondecreasing(&q.f.proto.prio, q.n); vf_check(q.b.front()->prio <= q.at(q.w)->prio, "front has the least priority value"); }
