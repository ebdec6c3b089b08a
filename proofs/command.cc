#include "vf.hh"
#include "CommandImpl.hh"
#include "Assignable.hh"
#include "ExprVec.hh"
#include "PlexilTypeTraits.hh"
#include "ResourceArbiterInterface.hh"
#include "State.hh"
using namespace PLEXIL;
static const size_t MAXN = 1000000000;
// a name, argument or resource expression
template <class T> struct X : Expression { bool known, fixed; T x; unsigned on, off; X() : known(false), fixed(false), x(), on(0), off(0) {}
  bool isConstant() const override { return fixed; } void activate() override { ++on; } void deactivate() override { ++off; }
  char const *exprName() const override { return "X"; } ValueType valueType() const override { return PlexilValueType<T>::value; } bool isKnown() const override { return known; } Value toValue() const override { return known ? Value(x) : Value(); } void printValue(std::ostream &) const override {} bool isPropagationSource() const override { return true; }
  bool getValue(T &r) const override { if (known) r = x; return known; } };
struct Name : X<String> { bool getValuePointer(String const *&p) const override { if (known) p = &x; return known; } };
// where a return value goes
struct Dest : Assignable { unsigned sets, on, off; Integer got; bool gotKnown; Dest() : sets(0), on(0), off(0), got(0), gotKnown(false) {} void activate() override { ++on; } void deactivate() override { ++off; } char const *exprName() const override { return "D"; } ValueType valueType() const override { return INTEGER_TYPE; } bool isKnown() const override { return true; } Value toValue() const override { return Value(); } void printValue(std::ostream &) const override {} bool isPropagationSource() const override { return true; }
  void saveCurrentValue() override {} void restoreSavedValue() override {} Value getSavedValue() const override { return Value(); } Variable *getBaseVariable() override { return nullptr; } Variable const *getBaseVariable() const override { return nullptr; } void setUnknown() override {} void setValue(Value const &v) override { ++sets; gotKnown = v.getValue(got); } };
struct Arb : ResourceArbiterInterface { unsigned rel; CommandImpl *who; Arb() : rel(0), who(nullptr) {} bool readResourceHierarchyFile(std::string const &) override { return true; } bool readResourceHierarchy(std::istream &) override { return true; } void arbitrateCommands(LinkedQueue<CommandImpl> &, LinkedQueue<CommandImpl> &, LinkedQueue<CommandImpl> &) override {} void releaseResourcesForCommand(CommandImpl *c) override { ++rel; who = c; } };
struct Args : ExprVec { std::vector<bool> known; std::vector<int32_t> vals; size_t n, odd; mutable X<Integer> cur; unsigned on, off; Args() : n(vf_size("arguments", 0, MAXN)), odd(n), on(0), off(0) { vf_vec_bool(&known, "argument known", n); vf_elems(&vals, "argument", n); }
  Expression *at(size_t i) const { vf_check(i < n, "argument index in range"); cur.known = known[i]; cur.x = vals[i]; cur.fixed = i != odd; return &cur; } size_t size() const override { return n; } Expression const *operator[](size_t i) const override { return at(i); } Expression *operator[](size_t i) override { return at(i); } void setArgument(size_t, Expression *, bool) override {} void addListener(ExpressionListener *) override {} void removeListener(ExpressionListener *) override {} void doSubexprs(ListenableUnaryOperator const &) override {} void print(std::ostream &) const override {} void activate() override { ++on; } void deactivate() override { ++off; } };
// publishing by the notifier's contract (E06)
struct Ear : ExpressionListener { unsigned calls; Ear() : calls(0) {} void notifyChanged() override { ++calls; } };
static Ear *ack_ear, *abort_ear; static Notifier *ack_of; static void publish(Notifier *n) { if (n->m_activeCount) ++(n == ack_of ? ack_ear : abort_ear)->calls; }
static void hear(CommandImpl &c, Ear &a, Ear &b) {
#ifdef VF_SYMBOLIC
  ack_ear = &a; abort_ear = &b; ack_of = &c.m_ack; vf_instead("PLEXIL::Notifier::publishChange", (void (*)()) &publish);
#else
  c.m_ack.m_outgoingListeners.push_back(&a); c.m_abortComplete.m_outgoingListeners.push_back(&b);
#endif
}
static void quiet(CommandImpl &c) {
#ifndef VF_SYMBOLIC
  c.m_ack.m_activeCount = c.m_abortComplete.m_activeCount = 0; c.m_ack.m_outgoingListeners.clear(); c.m_abortComplete.m_outgoingListeners.clear();
#endif
}
static CommandHandleValue handle(char const *n) { uint8_t h = vf_u8(n); vf_assume((h >= NO_COMMAND_HANDLE) & (h < COMMAND_HANDLE_MAX)); return (CommandHandleValue) h; }
// a command in any state its own operations can leave it in, resources aside
struct Cmd { CommandImpl c; Name name; Dest dest; Ear ack, abort; bool active, hasDest, aborted; CommandHandleValue h; Cmd() : c("node"), active(vf_bool("active")), hasDest(vf_bool("return expected")), aborted(false), h(handle("handle")) {
    name.x = "go"; name.known = true; name.fixed = vf_bool("constant name"); c.m_nameExpr = &name; if (hasDest) c.m_dest = &dest; hear(c, ack, abort); c.m_active = active; c.m_commandHandle = h; c.m_checkedConstant = vf_bool("run before") | active; c.m_commandNameIsConstant = c.m_checkedConstant & name.fixed; c.m_commandNameFixed = c.m_commandNameIsConstant | (active & vf_bool("name fixed")); c.m_commandArgsAreConstant = c.m_commandArgsFixed = c.m_resourcesAreConstant = c.m_resourcesFixed = c.m_checkedConstant;
    if (active) { c.m_ack.m_activeCount = 1; c.m_abortComplete.m_activeCount = 1; aborted = vf_bool("abort acknowledged"); c.m_abortComplete.m_value = aborted; } else c.m_abortComplete.m_value = vf_bool("old abort acknowledgement"); }
  ~Cmd() { c.m_dest = nullptr; c.m_nameExpr = nullptr; quiet(c); }
  bool acked(CommandHandleValue &r) { Boolean k = false; vf_check(c.getCommandHandleKnownFn()->getValue(k) && k == (c.getCommandHandle() != NO_COMMAND_HANDLE), "the handle is known exactly when one was received"); return c.getAck()->getValue(r); }
  void sees(CommandHandleValue v, bool a) { CommandHandleValue r = NO_COMMAND_HANDLE; bool g = acked(r); vf_check(g == (v != NO_COMMAND_HANDLE) && (!g || r == v) && c.getCommandHandle() == v, "the handle seen is the last one accepted"); Boolean b = !a; vf_check(c.getAbortComplete()->getValue(b) && b == a, "the abort acknowledgement seen is the last one accepted"); } };
PROOF(new_command) { CommandImpl c("node"); CommandHandleValue r; vf_check(!c.isActive() && c.getCommandHandle() == NO_COMMAND_HANDLE && !c.getAck()->getValue(r) && !c.isReturnExpected(), "a new command is inactive and has no handle"); }
PROOF(handle_received) { Cmd t; uint8_t v = vf_u8("new handle"); bool good = (v > NO_COMMAND_HANDLE) & (v < COMMAND_HANDLE_MAX); vf_expect_error(t.active & !good); t.c.setCommandHandle((CommandHandleValue) v); if (!t.active) { vf_check(t.c.getCommandHandle() == t.h && t.ack.calls == 0, "an inactive command ignores handles"); return; } vf_check(t.ack.calls == 1, "each accepted handle is published"); t.sees((CommandHandleValue) v, t.aborted); vf_check(t.abort.calls == 0 && t.dest.sets == 0, "nothing else changes"); }
PROOF(value_returned) { Cmd t; bool k = vf_bool("value known"); Integer v = vf_i32("value"); t.c.returnValue(k ? Value(v) : Value()); bool take = t.active & t.hasDest; vf_check(t.dest.sets == (take ? 1u : 0u), "a return value is stored exactly when the command is active and a return is expected"); if (take) vf_check(t.dest.gotKnown == k && (!k || t.dest.got == v), "the value stored is the one returned"); vf_check(t.ack.calls + t.abort.calls == 0 && t.c.getCommandHandle() == t.h, "nothing else changes"); if (t.active) t.sees(t.h, t.aborted); }
PROOF(abort_acknowledged) { Cmd t; bool a = vf_bool("acknowledgement"), old = t.c.m_abortComplete.m_value; t.c.acknowledgeAbort(a); if (!t.active) { vf_check(t.c.m_abortComplete.m_value == old && t.abort.calls == 0, "an inactive command ignores abort acknowledgements"); return; } t.sees(t.h, a); vf_check(t.abort.calls == (a != t.aborted ? 1u : 0u), "a changed abort acknowledgement is published"); vf_check(t.ack.calls == 0 && t.dest.sets == 0, "nothing else changes"); }
PROOF(through_functions) { Cmd t; vf_assume(t.active & t.hasDest); Command *c = &t.c; switch (vf_u8("function")) { case 0: { Integer v = vf_i32("value"); commandReturn(c, Value(v)); vf_check(t.dest.sets == 1 && t.dest.gotKnown && t.dest.got == v, "the value stored is the one returned"); break; } case 1: { CommandHandleValue h = handle("new handle"); vf_assume(h != NO_COMMAND_HANDLE); commandHandleReturn(c, h); t.sees(h, t.aborted); break; } default: { bool a = vf_bool("acknowledgement"); commandAbortAcknowledge(c, a); t.sees(t.h, a); } } }
PROOF(activation) { Cmd t; vf_assume(!t.active); t.c.activate(); vf_check(t.c.isActive() && t.c.m_ack.isActive() && t.c.m_abortComplete.isActive(), "active"); t.sees(NO_COMMAND_HANDLE, false); vf_check(t.dest.on == (t.hasDest ? 1u : 0u), "the return variable is active"); vf_check(t.name.on == (t.name.fixed ? 0u : 1u), "the name is active"); vf_check(t.name.fixed || !t.c.m_commandNameFixed, "a name that is no constant is read anew"); }
PROOF(twice_active) { Cmd t; vf_assume(t.active); vf_expect_error(true); t.c.activate(); }
PROOF(deactivation) { Cmd t; Arb a; bool noArb = vf_bool("no arbiter"); vf_assume(t.active); t.c.deactivate(noArb ? nullptr : &a); vf_check(!t.c.isActive() && !t.c.m_ack.isActive() && !t.c.m_abortComplete.isActive(), "inactive"); vf_check(a.rel == ((noArb | (t.h == COMMAND_DENIED)) ? 0u : 1u), "resources are released unless the command was denied"); if (a.rel) vf_check(a.who == &t.c, "its own resources are released"); vf_check(t.dest.off == (t.hasDest ? 1u : 0u) && t.name.off == (t.name.fixed ? 0u : 1u), "the expressions it uses are deactivated"); CommandHandleValue r; vf_check(!t.c.getAck()->getValue(r), "an inactive command shows no handle"); }
PROOF(not_active) { Cmd t; Arb a; vf_assume(!t.active); vf_expect_error(true); t.c.deactivate(&a); }
// the command sent has the name and arguments the expressions have; any number of arguments
static size_t par_n, par_w; static bool par_got, par_known; static int32_t par_v; static State *par_state;
static void set_count(State *s, size_t n) { vf_check(s == par_state, "the command's state is set"); par_n = n; }
static void set_param(State *s, size_t i, Value const &v) { vf_check(s == par_state && i < par_n, "argument index in range"); if (i == par_w) { par_got = true; par_known = v.getValue(par_v); } }
static bool par_inv(void *p, size_t k) { Args &q = *(Args *) p; return (par_w >= k) | (par_got & (par_known == q.known[par_w]) & (!par_known | (par_v == q.vals[par_w]))); }
static void sent(CommandImpl &c, Args *q, size_t w) { vf_check(c.getName() == "go", "the command's name is the expression's value"); if (!q) return;
#ifdef VF_SYMBOLIC
  vf_check(par_n == q->n, "as many arguments as expressions"); if (q->n) vf_check(par_got && par_known == q->known[w] && (!par_known || par_v == q->vals[w]), "the arguments are the expressions' values");
#else
  std::vector<Value> const &a = c.getArgValues(); Integer v; vf_check(a.size() == q->n, "as many arguments as expressions"); if (q->n) vf_check(a[w].isKnown() == q->known[w] && (!q->known[w] || (a[w].getValue(v) && v == q->vals[w])), "the arguments are the expressions' values");
#endif
}
PROOF(arguments) { Name name; name.known = true; name.x = "go"; name.fixed = vf_bool("constant name"); Args *q = vf_bool("has arguments") ? new Args : nullptr; CommandImpl c("node"); c.m_nameExpr = &name; c.m_argVec.reset(q); size_t w = q && q->n ? vf_size("witness", 0, q->n - 1) : 0; if (q && q->n && vf_bool("one varies")) q->odd = vf_size("which varies", 0, q->n - 1);
#ifdef VF_SYMBOLIC
  par_state = &c.m_command; par_n = 0; par_w = w; par_got = par_known = false; vf_instead("PLEXIL::State::setParameterCount", (void (*)()) &set_count); vf_instead("PLEXIL::State::setParameter", (void (*)()) &set_param); if (q) vf_inv(par_inv, q);
#endif
  c.activate(); vf_check(!q || q->on == (q->odd < q->n ? 1u : 0u), "arguments that vary are activated"); c.fixValues(); sent(c, q, w); 
  if (vf_bool("again")) { Arb a; c.deactivate(&a); vf_check(!q || q->off == q->on, "arguments are deactivated"); if (q && q->n && w == q->odd) { q->known[w] = true; q->vals[w] = vf_i32("new argument"); } c.activate(); c.fixValues(); sent(c, q, w); } c.m_nameExpr = nullptr; quiet(c); }
// the resources requested are what their expressions say; any number of resources, each with or without an upper bound and a release flag
template <class T> struct R : X<T> { bool has; R() : has(false) { this->known = true; } };
struct RName : X<String> { RName() { known = true; } };
struct Res { Fam<RName> names; Fam<R<Integer>> prios; Fam<R<Real>> bounds; Fam<R<Boolean>> rels; size_t n, w; ResourceSpecList *list; Res() : names("name"), prios("priority"), bounds("upper bound"), rels("release"), n(vf_size("resources", 1, MAXN)), w(vf_size("witness", 0, n - 1)) {
    vf_struct_field("PLEXIL::ResourceSpec", sizeof(ResourceSpec), offsetof(ResourceSpec, nameExp), 3); vf_struct_field("PLEXIL::ResourceSpec", sizeof(ResourceSpec), offsetof(ResourceSpec, priorityExp), 3); vf_struct_field("PLEXIL::ResourceSpec", sizeof(ResourceSpec), offsetof(ResourceSpec, upperBoundExp), 3); vf_struct_field("PLEXIL::ResourceSpec", sizeof(ResourceSpec), offsetof(ResourceSpec, releaseAtTermExp), 3);
    vf_struct_field("PLEXIL::ResourceValue", sizeof(ResourceValue), offsetof(ResourceValue, name), 4); vf_struct_field("PLEXIL::ResourceValue", sizeof(ResourceValue), offsetof(ResourceValue, priority), 1); vf_struct_field("PLEXIL::ResourceValue", sizeof(ResourceValue), offsetof(ResourceValue, upperBound), 2); vf_struct_field("PLEXIL::ResourceValue", sizeof(ResourceValue), offsetof(ResourceValue, releaseAtTermination), 0);
    names.any(&names.proto.fixed, "constant name"); names.make(n); prios.any(&prios.proto.x, "priority"); prios.any(&prios.proto.fixed, "constant priority"); prios.make(n); bounds.any(&bounds.proto.x, "upper bound"); bounds.any(&bounds.proto.fixed, "constant bound"); bounds.any(&bounds.proto.has, "has upper bound"); bounds.make(n); rels.any(&rels.proto.x, "release"); rels.any(&rels.proto.fixed, "constant release"); rels.any(&rels.proto.has, "has release"); rels.make(n);
    list = new ResourceSpecList(n); vf_field(list, &ResourceSpec::nameExp, names, nullptr); vf_field(list, &ResourceSpec::priorityExp, prios, nullptr); vf_field(list, &ResourceSpec::upperBoundExp, bounds, &bounds.proto.has); vf_field(list, &ResourceSpec::releaseAtTermExp, rels, &rels.proto.has); }
  bool at(ResourceValue const &v, size_t i) { R<Real> *u = bounds.at(i + 1); R<Boolean> *r = rels.at(i + 1); return (v.priority == prios.at(i + 1)->x) & vf_same_f64(v.upperBound, u->has ? u->x : 1.0) & (v.releaseAtTermination == (r->has ? r->x : true)); } };
static CommandImpl *res_of; static bool res_inv(void *p, size_t k) { Res &r = *(Res *) p; return (r.w >= k) | r.at(res_of->m_resourceValueList[r.w], r.w); }
PROOF(resources) { CommandImpl c("node"); Res r; c.m_resourceList.reset(r.list); c.m_resourceValueList.resize(r.n); res_of = &c; vf_inv(res_inv, &r); c.m_active = true; c.m_commandNameFixed = c.m_commandArgsFixed = true; c.fixValues(); vf_check(c.getResourceValues().size() == r.n, "as many resources as specified"); vf_check(r.at(c.getResourceValues()[r.w], r.w), "the resources requested are what their expressions say"); }
static bool fixed_at(Res &r) { size_t i = r.w + 1; return r.names.at(i)->fixed & r.prios.at(i)->fixed & (!r.bounds.at(i)->has | r.bounds.at(i)->fixed) & (!r.rels.at(i)->has | r.rels.at(i)->fixed); }
static bool counts(Res &r, unsigned on, unsigned off) { size_t i = r.w + 1; R<Real> *b = r.bounds.at(i); R<Boolean> *l = r.rels.at(i); return (r.names.at(i)->on == on) & (r.prios.at(i)->on == on) & (b->on == (b->has ? on : 0u)) & (l->on == (l->has ? on : 0u)) & (r.names.at(i)->off == off) & (r.prios.at(i)->off == off) & (b->off == (b->has ? off : 0u)) & (l->off == (l->has ? off : 0u)); }
static bool on_inv(void *p, size_t k) { Res &r = *(Res *) p; return counts(r, r.w < k ? 1 : 0, 0); } static bool off2(Res &r, unsigned off) { return counts(r, 0, off); } static bool off2_inv(void *p, size_t k) { Res &r = *(Res *) p; return off2(r, r.w < k ? 1 : 0); }
static bool still(void *p, size_t) { return counts(*(Res *) p, 0, 0); } static bool const_inv(void *p, size_t k) { Res &r = *(Res *) p; return (r.w >= k) | fixed_at(r); }
PROOF(resources_active) { CommandImpl c("node"); Name name; name.known = name.fixed = true; name.x = "go"; c.m_nameExpr = &name; Res r; c.m_resourceList.reset(r.list); res_of = &c; vf_inv(res_inv, &r); vf_inv(on_inv, &r); vf_inv(still, &r); vf_inv(const_inv, &r); c.activate(); bool fixed = c.m_resourcesAreConstant; if (fixed) vf_check(fixed_at(r), "constant resources have constant parts"); else if (r.n == 1) vf_check(!fixed_at(r), "resources with constant parts are constant"); vf_check(counts(r, fixed ? 0 : 1, 0), "the expressions of varying resources are active"); c.fixValues(); vf_check(c.getResourceValues().size() == r.n && r.at(c.getResourceValues()[r.w], r.w), "the resources requested are what their expressions say"); c.m_nameExpr = nullptr; quiet(c); }
PROOF(resources_inactive) { Cmd t; Arb a; Res r; vf_assume(t.active); t.c.m_resourceList.reset(r.list); bool fixed = t.c.m_resourcesAreConstant = vf_bool("constant"); vf_inv(off2_inv, &r); t.c.deactivate(&a); unsigned o = fixed ? 0 : 1; vf_check(off2(r, o), "the expressions of varying resources are deactivated"); vf_check(fixed || !t.c.m_resourcesFixed, "varying resources are evaluated anew"); }
