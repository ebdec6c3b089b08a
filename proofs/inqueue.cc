#include "vf.hh"
#include "InputQueue.hh"
#include "SimpleInputQueue.hh"
#include "SerializedInputQueue.hh"
#include "QueueEntry.hh"
#include "State.hh"
#include "Value.hh"
#include <mutex>
using namespace PLEXIL;
static const size_t MAXN = 1000000000;
#ifndef VF_SYMBOLIC
#include <pthread.h>
#include <stdexcept>
// a thread that locks a mutex it holds would wait forever: report it instead
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) __THROWNL { if (pthread_mutex_trylock(m)) throw std::runtime_error("a lock is taken while it is held"); return 0; }
#endif
// ---- the lock: the queue's fields mean something only between lock and unlock (another thread may change them at any other time)
struct Locked { virtual void enter() = 0; virtual void leave() = 0; };
static bool held; static unsigned sections; static Locked *owner;
static void lock_stub(std::mutex *) { vf_check(!held, "the lock is not taken while it is held"); vf_check(sections == 0, "the operation is one critical section"); held = true; ++sections; owner->enter(); }
static void unlock_stub(std::mutex *) { vf_check(held, "a lock released is held"); owner->leave(); held = false; }
static void reset_stub(QueueEntry *e) { e->next = nullptr; e->sequence = 0; e->type = Q_UNINITED; }
template <class IQ> struct Threaded { static const bool yes = false; static void setup(IQ &) {} }; template <> struct Threaded<SerializedInputQueue> { static const bool yes = true; };
// entries 1..n are queued, in that order; n + 1 is the first free one (if there is any), n + 2 the next free one (if any); n + 3 belongs to the caller
template <class IQ> struct Q : Locked { IQ &q; Fam<QueueEntry> f; size_t n, w; bool free1, free2, checked; size_t wtype, wseq;
  Q(size_t least = 0) : q(*new IQ), f("entry"), n(vf_size("queued", least, MAXN)), w(0), free1(vf_bool("one free")), free2(free1 && vf_bool("two free")), checked(false), wtype(0), wseq(0) {
    f.any(&f.proto.type, "type"); f.any(&f.proto.sequence, "what it is about"); f.make(n + 3); f.chain(&f.proto.next, n); if (free2) f.at(n + 1)->next = f.at(n + 2);
    if (n) { w = vf_size("witness", 1, n); wtype = f.at(w)->type; wseq = f.at(w)->sequence; }
    held = false; sections = 0; owner = this;
#ifdef VF_SYMBOLIC
    vf_instead("PLEXIL::QueueEntry::reset", (void (*)()) &reset_stub);
    vf_instead("std::mutex::lock", (void (*)()) &lock_stub); vf_instead("std::mutex::unlock", (void (*)()) &unlock_stub);
    if (!Threaded<IQ>::yes) install(); else hide();
#else
    for (size_t i = 1; i <= n + 3; ++i) f.at(i)->type = f.at(i)->type & 1 ? Q_MARK : Q_ADD_PLAN; if (n) wtype = f.at(w)->type;
    install();
#endif
  }
  // when its operation is over the queue no longer refers to the entries (other threads may have taken them)
#ifndef VF_SYMBOLIC
  ~Q() { hide(); delete &q; }
#endif
  void install() { q.m_queueGet = at(n ? 1 : 0); q.m_queuePut = at(n); q.m_freeList = at(free1 ? n + 1 : 0); }
  void hide() { q.m_queueGet = q.m_queuePut = q.m_freeList = nullptr; }
  void enter() override { install(); } void leave() override { if (checked) return; after(); checked = true; hide(); }
  void done() {
#ifdef VF_SYMBOLIC
    if (Threaded<IQ>::yes) { vf_check(checked && !held, "the queue is locked during the operation, and unlocked after it"); return; }
#endif
    after(); }
  virtual void after() { same(); }
  QueueEntry *at(size_t i) { return f.at(i); } QueueEntry *nx(size_t i) { return f.at(i)->next; } QueueEntry *free0() { return at(free1 ? n + 1 : 0); }
  bool kept(size_t i) { return (f.at(i)->type == wtype) & (f.at(i)->sequence == wseq); }
  void links() { if (n) { vf_check(nx(w) == at(w < n ? w + 1 : 0), "the entries stay in order"); vf_check(kept(w), "their content is untouched"); } }
  void queue(size_t first, size_t last) { vf_check(q.m_queueGet == at(first) && q.m_queuePut == at(last), "front and back are the first and the last entry queued"); }
  void frees(QueueEntry *h) { vf_check(q.m_freeList == h, "the free entries are as expected"); if (free1) vf_check(nx(n + 1) == at(free2 ? n + 2 : 0), "the other free entries stay free"); if (free2) vf_check(nx(n + 2) == nullptr, "the other free entries stay free"); }
  void same() { queue(n ? 1 : 0, n); links(); frees(free0()); }
};
#define BOTH_QUEUES(n) PROOF(simple_##n) { n<SimpleInputQueue>(); } PROOF(shared_##n) { n<SerializedInputQueue>(); }
template <class IQ> void fresh() { struct L : Locked { void enter() override {} void leave() override {} } l; owner = &l; held = false; sections = 0; IQ &q = *new IQ; vf_check(!q.m_queueGet && !q.m_queuePut && !q.m_freeList, "a new queue is empty"); }
PROOF(simple_fresh) { fresh<SimpleInputQueue>(); }
PROOF(shared_fresh) { fresh<SerializedInputQueue>(); }
template <class IQ> void empty() { Q<IQ> t; bool e = t.q.isEmpty(); vf_check(e == (t.n == 0), "empty exactly without entries"); t.done(); }
PROOF(simple_empty) { empty<SimpleInputQueue>(); }
PROOF(shared_empty) { empty<SerializedInputQueue>(); }
template <class IQ> struct Put : Q<IQ> { QueueEntry *e; QueueEntryType ty; unsigned sq; Put() : e(this->at(this->n + 3)), ty(e->type), sq(e->sequence) {}
  void after() override { vf_check(e->type == ty && e->sequence == sq, "its content is untouched"); vf_check(e->next == nullptr, "it is the last"); vf_check(this->q.m_queuePut == e && this->q.m_queueGet == (this->n ? this->at(1) : e), "it is queued at the back");
    if (this->n) { vf_check(this->nx(this->w) == (this->w < this->n ? this->at(this->w + 1) : e), "the entries before it stay in order"); vf_check(this->kept(this->w), "their content is untouched"); } this->frees(this->free0()); } };
template <class IQ> void put() { Put<IQ> t; bool stale = vf_bool("stale link"); if (stale && t.free1) t.e->next = t.at(t.n + 1); t.q.put(t.e); t.done(); }
PROOF(simple_put) { put<SimpleInputQueue>(); }
PROOF(shared_put) { put<SerializedInputQueue>(); }
template <class IQ> void put_nothing() { Q<IQ> t; vf_expect_error(true); t.q.put(nullptr); }
PROOF(simple_put_nothing) { put_nothing<SimpleInputQueue>(); }
PROOF(shared_put_nothing) { put_nothing<SerializedInputQueue>(); }
template <class IQ> struct Get : Q<IQ> { Get() : Q<IQ>() {}
  void after() override { size_t n = this->n; if (n == 0) { this->same(); return; } this->queue(n > 1 ? 2 : 0, n > 1 ? n : 0); vf_check(this->kept(this->w), "the content is untouched"); if (this->w > 1) vf_check(this->nx(this->w) == this->at(this->w < n ? this->w + 1 : 0), "the others stay in order"); this->frees(this->free0()); } };
template <class IQ> void get() { Get<IQ> t; QueueEntry *e = t.q.get(); vf_check(e == t.at(t.n ? 1 : 0), "the entry queued first is taken, or nothing"); t.done(); }
PROOF(simple_get) { get<SimpleInputQueue>(); }
PROOF(shared_get) { get<SerializedInputQueue>(); }
template <class IQ> struct Alloc : Q<IQ> { void after() override { size_t n = this->n; this->queue(n ? 1 : 0, n); this->links(); vf_check(this->q.m_freeList == this->at(this->free2 ? n + 2 : 0), "the entry is no longer free"); if (this->free2) vf_check(this->nx(n + 2) == nullptr, "the other free entries stay free"); } };
template <class IQ> void allocate() { Alloc<IQ> t; QueueEntry *e = t.q.allocate(); if (t.free1) vf_check(e == t.at(t.n + 1), "a free entry is reused"); else { vf_check(e != nullptr && e->type == Q_UNINITED, "a new entry is blank"); delete e; } t.done(); }
PROOF(simple_allocate) { allocate<SimpleInputQueue>(); }
PROOF(shared_allocate) { allocate<SerializedInputQueue>(); }
template <class IQ> struct Rel : Q<IQ> { QueueEntry *e; Rel() : e(this->at(this->n + 3)) {} void after() override { size_t n = this->n; this->queue(n ? 1 : 0, n); this->links(); vf_check(e->type == Q_UNINITED, "a released entry is blank"); vf_check(e->next == this->free0(), "the other free entries stay free"); this->frees(e); } };
template <class IQ> void release() { Rel<IQ> t; t.q.release(t.e); t.done(); }
PROOF(simple_release) { release<SimpleInputQueue>(); }
PROOF(shared_release) { release<SerializedInputQueue>(); }
template <class IQ> void release_nothing() { Q<IQ> t; vf_expect_error(true); t.q.release(nullptr); }
PROOF(simple_release_nothing) { release_nothing<SimpleInputQueue>(); }
PROOF(shared_release_nothing) { release_nothing<SerializedInputQueue>(); }
template <class IQ> struct Flush : Q<IQ> { Flush() { vf_inv(heads, this); vf_inv(back, this); vf_inv(freed, this); vf_inv(blank, this); vf_inv(link, this); }
  static bool heads(void *p, size_t k) { Flush &t = *(Flush *) p; return (k <= t.n) & (t.q.m_queueGet == t.at(k < t.n ? k + 1 : 0)); }
  static bool back(void *p, size_t k) { Flush &t = *(Flush *) p; return t.q.m_queuePut == t.at(t.n); }
  static bool freed(void *p, size_t k) { Flush &t = *(Flush *) p; return t.q.m_freeList == (k ? t.at(k) : t.free0()); }
  static bool blank(void *p, size_t k) { Flush &t = *(Flush *) p; if (!t.n) return true; QueueEntry *e = t.at(t.w); return e->type == (t.w <= k ? (size_t) Q_UNINITED : t.wtype); }
  static bool link(void *p, size_t k) { Flush &t = *(Flush *) p; if (!t.n) return true; QueueEntry *e = t.at(t.w); return e->next == (t.w > k ? t.at(t.w < t.n ? t.w + 1 : 0) : t.w == 1 ? t.free0() : t.at(t.w - 1)); }
  void after() override { vf_check(this->q.m_queueGet == nullptr && this->q.m_queuePut == nullptr, "a flushed queue is empty"); if (!this->n) { this->frees(this->free0()); return; } vf_check(this->at(this->w)->type == Q_UNINITED, "discarded entries are blank"); vf_check(this->nx(this->w) == (this->w == 1 ? this->free0() : this->at(this->w - 1)), "every one of them is free again"); this->frees(this->at(this->n)); } };
template <class IQ> void flush() { Flush<IQ> t; t.q.flush(); t.done(); }
PROOF(simple_flush) { flush<SimpleInputQueue>(); }
PROOF(shared_flush) { flush<SerializedInputQueue>(); }
// ---- what an entry carries
template <class T> struct Some { T x; Some() : x((T) vf_u8("value")) {} };
template <> struct Some<Boolean> { Boolean x; Some() : x(vf_bool("value")) {} }; template <> struct Some<Integer> { Integer x; Some() : x(vf_i32("value")) {} }; template <> struct Some<Real> { Real x; Some() : x(vf_f64("value")) {} }; template <> struct Some<String> { String x; Some() { vf_string(&x, "value"); } };
inline bool eq(bool a, bool b) { return a == b; } inline bool eq(int32_t a, int32_t b) { return a == b; } inline bool eq(double a, double b) { return vf_same_f64(a, b); } inline bool eq(String const &a, String const &b) { return a == b; }
template <class T> ValueType vtype(); template <> ValueType vtype<Boolean>() { return BOOLEAN_TYPE; } template <> ValueType vtype<Integer>() { return INTEGER_TYPE; } template <> ValueType vtype<Real>() { return REAL_TYPE; } template <> ValueType vtype<String>() { return STRING_TYPE; }
template <class T> struct Any : Some<T> { bool known; Value v; Any() : known(vf_bool("known")), v(known ? Value(this->x) : Value()) {} void is(Value const &u) { vf_check(u.isKnown() == known && u.valueType() == (known ? vtype<T>() : UNKNOWN_TYPE), "it carries the value given"); if (known) { T r; vf_check(u.getValue(r) && eq(r, this->x), "it carries the value given"); } } };
static int things[8]; template <class T> static T *thing(size_t i) { return (T *) &things[i]; }      // targets: only their identity matters
static bool handleIn(QueueEntry &e, std::string const &h) { std::string r; return e.value.getValue(r) && r == h; }
static void blank(QueueEntry &e) { vf_check(e.type == Q_UNINITED && !e.state && !e.next && !e.value.isKnown(), "a blank entry is of no kind, about nothing, and has no value"); }
// an entry that was used before
template <class T> struct Used { QueueEntry e; Any<T> old; Used() { e.value = old.v; e.next = thing<QueueEntry>(0); } };
PROOF(entry_new) { QueueEntry e; blank(e); }
template <class T> void entry_reset() { Used<T> u; uint8_t k = vf_u8("kind"); vf_assume(k < Q_INVALID); if (k == Q_LOOKUP) u.e.state = new State("s"); else u.e.command = thing<Command>(1); u.e.type = (QueueEntryType) k; u.e.reset(); blank(u.e); }
EACH(entry_reset)
template <class T> void entry_lookup() { QueueEntry e; String n, p; vf_string(&n, "state name"); vf_string(&p, "state parameter"); bool with = vf_bool("with parameter"), ms = vf_bool("movable state"), mv = vf_bool("movable value"); Any<T> a; State s(n); if (with) s = State(n, Value(p)); Value v(a.v); 
  if (ms) { if (mv) e.initForLookup(std::move(s), std::move(v)); else e.initForLookup(std::move(s), v); } else if (mv) e.initForLookup(s, std::move(v)); else e.initForLookup(s, v);
  vf_check(e.type == Q_LOOKUP && e.state && e.state != &s, "a lookup value, for a state of its own"); vf_check(e.state->name() == n && e.state->parameterCount() == (with ? 1u : 0u), "about the state given"); if (with) { String q; vf_check(e.state->parameter(0).getValue(q) && q == p, "about the state given"); } a.is(e.value); }
EACH(entry_lookup)
template <class T> void entry_return() { QueueEntry e; Any<T> a; Value v(a.v); if (vf_bool("movable value")) e.initForCommandReturn(thing<Command>(1), std::move(v)); else e.initForCommandReturn(thing<Command>(1), v); vf_check(e.type == Q_COMMAND_RETURN && e.command == thing<Command>(1), "a return value for the command given"); a.is(e.value); }
EACH(entry_return)
PROOF(entry_ack) { QueueEntry e; uint8_t h = vf_u8("handle"); vf_assume((h > NO_COMMAND_HANDLE) & (h < COMMAND_HANDLE_MAX)); e.initForCommandAck(thing<Command>(1), (CommandHandleValue) h); CommandHandleValue r; vf_check(e.type == Q_COMMAND_ACK && e.command == thing<Command>(1) && e.value.getValue(r) && r == (CommandHandleValue) h, "the handle for the command given"); }
PROOF(entry_abort) { QueueEntry e; bool a = vf_bool("ack"), r; e.initForCommandAbort(thing<Command>(1), a); vf_check(e.type == Q_COMMAND_ABORT && e.command == thing<Command>(1) && e.value.getValue(r) && r == a, "the abort acknowledgement for the command given"); }
PROOF(entry_update) { QueueEntry e; bool a = vf_bool("ack"), r; e.initForUpdateAck(thing<Update>(1), a); vf_check(e.type == Q_UPDATE_ACK && e.update == thing<Update>(1) && e.value.getValue(r) && r == a, "the acknowledgement for the update given"); }
PROOF(entry_plan) { QueueEntry e; e.initForAddPlan(thing<NodeImpl>(1)); vf_check(e.type == Q_ADD_PLAN && e.plan == thing<NodeImpl>(1), "the plan given"); }
PROOF(entry_message) { QueueEntry e; e.initForReceiveMessage(thing<Message>(1)); vf_check(e.type == Q_RECEIVE_MSG && e.message == thing<Message>(1), "the message given"); }
PROOF(entry_accept) { QueueEntry e; String h; vf_string(&h, "handle"); e.initForAcceptMessage(thing<Message>(1), h); vf_check(e.type == Q_ACCEPT_MSG && e.message == thing<Message>(1) && handleIn(e, h), "the message and the handle given"); }
PROOF(entry_handle) { QueueEntry e; String h; vf_string(&h, "handle"); e.initForReleaseMessageHandle(h); vf_check(e.type == Q_RELEASE_MSG_HANDLE && handleIn(e, h), "the handle given"); }
PROOF(entry_no_messages) { QueueEntry e; e.initForMessageQueueEmpty(); vf_check(e.type == Q_MSG_QUEUE_EMPTY, "no more messages"); }
PROOF(entry_mark) { QueueEntry e; unsigned s = vf_u32("sequence"); e.initForMark(s); vf_check(e.type == Q_MARK && e.sequence == s, "the mark given"); }
