#include "vf.hh"
#include <map>
#include <set>
#ifdef VF_SYMBOLIC
#define lower_bound vf_lower_bound
#define binary_search vf_binary_search
#endif
#include "SimpleMap.hh"
#include "SimpleSet.hh"
#ifdef VF_SYMBOLIC
#undef lower_bound
#undef binary_search
#endif
using namespace PLEXIL;
struct Less { bool operator()(int const &a, long const &b) const { return a < b; } bool equal(int const &a, long const &b) const { return a == b; } bool match(int const &a, long const &b) const { return a == b; } };
typedef SimpleMap<int, Val> M; typedef SimpleSet<int> S;
// a map holding any strictly increasing sequence of entries, and an arbitrary one of them (if any)
struct Map : M { size_t n; size_t w; int wk, wv; bool some; Map() { vf_vec(&m_store, "entries"); vf_sorted(&m_store); n = m_store.size(); some = n > 0; w = 0; wk = wv = 0; if (some) { w = vf_size("witness", 0, n - 1); wk = m_store[w].first; wv = m_store[w].second; } } int keyat(size_t i) { return m_store[i].first; } };
struct Set : S { size_t n; size_t w; int wk; bool some; Set() { vf_vec(&m_store, "values"); vf_sorted(&m_store); n = m_store.size(); some = n > 0; w = 0; wk = 0; if (some) { w = vf_size("witness", 0, n - 1); wk = m_store[w]; } } int keyat(size_t i) { return m_store[i]; } };
PROOF(map_find) { Map m; int k = vf_i32("key");
  M::iterator it = m.M::find(k); bool hit = it != m.end();
  if (hit) { vf_check(it->first == k, "found entry has the key"); if (m.some && m.wk == k) vf_check(it->second == m.wv, "found entry has the stored value"); }
  else if (m.some) vf_check(m.wk != k, "no entry with the key is missed");
  M::const_iterator ci = static_cast<M const &>(m).find(k); vf_check((ci != static_cast<M const &>(m).end()) == hit && (!hit || ci->first == k), "const find agrees"); }
PROOF(map_find_index) { Map m; int64_t k = vf_i64("key");
  M::iterator it = m.find<long, Less>((long) k); bool hit = it != m.end();
  if (hit) vf_check(it->first == k, "found entry matches the index"); else if (m.some) vf_check(m.wk != k, "no matching entry is missed"); }
PROOF(map_insert) { Map m; int k = vf_i32("key"), v = vf_i32("value");
  bool had = m.M::find(k) != m.end();
  bool r = m.insert(k, v); size_t n = m.size();
  vf_check(r == !had, "insertion succeeds exactly when the key is new"); vf_check(n == m.n + (r ? 1 : 0), "size grows by one on success");
  if (n >= 2) { size_t i = vf_size("i", 0, n - 2); vf_check(m.keyat(i) < m.keyat(i + 1), "still strictly increasing"); }
  if (m.some) { size_t at = m.w < n && m.keyat(m.w) == m.wk ? m.w : m.w + 1; vf_check(at < n && m.keyat(at) == m.wk && (m.begin() + at)->second == m.wv, "other entries are kept with their values"); } }
PROOF(map_insert_then_find) { Map m; int k = vf_i32("key"), v = vf_i32("value"); bool r = m.insert(k, v); vf_assume(r);
  // the inserted entry sits where the search contract places it
  size_t at = vf_size("at", 0, m.size() - 1); vf_assume(m.keyat(at) == k); vf_check((m.begin() + at)->second == v, "the inserted value is stored for the key"); }
PROOF(map_insert_present) { Map m; int k = vf_i32("key"), v = vf_i32("value"); bool r = m.insert(k, v); vf_assume(r); M::iterator it = m.M::find(k); vf_check(it != m.end(), "the inserted key is found"); if (it != m.end()) vf_check(it->first == k && it->second == v, "with the inserted value"); }
PROOF(map_subscript) { Map m; int k = vf_i32("key"); bool had = m.M::find(k) != m.end();
  int c = static_cast<M const &>(m)[k]; vf_check(had || c == 0, "const subscript of a missing key is the default"); if (m.some && m.wk == k) vf_check(c == m.wv, "const subscript yields the stored value");
  int r = m[k]; size_t n = m.size(); vf_check(n == m.n + (had ? 0 : 1), "subscript inserts exactly a missing key"); vf_check(had || r == 0, "a missing key starts with the default"); if (m.some && m.wk == k) vf_check(r == m.wv, "subscript yields the stored value");
  if (n >= 2) { size_t i = vf_size("i", 0, n - 2); vf_check(m.keyat(i) < m.keyat(i + 1), "still strictly increasing"); } }
PROOF(map_subscript_write) { Map m; int k = vf_i32("key"), v = vf_i32("value"); m[k] = v; M::iterator it = m.M::find(k); vf_check(it != m.end() && it->first == k && it->second == v, "the assigned value is found"); if (m.some && m.wk != k) { size_t n = m.size(); size_t at = m.w < n && m.keyat(m.w) == m.wk ? m.w : m.w + 1; vf_check(at < n && m.keyat(at) == m.wk && (m.begin() + at)->second == m.wv, "other entries are kept"); } }
PROOF(set_find) { Set s; int k = vf_i32("key"); S::iterator it = s.find(k); bool hit = it != s.end();
  if (hit) vf_check(*it == k, "found element is the value"); else if (s.some) vf_check(s.wk != k, "no element is missed");
  vf_check(static_cast<S const &>(s).contains(k) == hit, "contains agrees with find"); }
PROOF(set_insert) { Set s; int k = vf_i32("key"); bool had = s.contains(k);
  bool r = s.insert(k); size_t n = s.size(); vf_check(r == !had, "insertion succeeds exactly when the value is new"); vf_check(n == s.n + (r ? 1 : 0), "size grows by one on success");
  if (n >= 2) { size_t i = vf_size("i", 0, n - 2); vf_check(s.keyat(i) < s.keyat(i + 1), "still strictly increasing"); }
  if (s.some) { size_t at = s.w < n && s.keyat(s.w) == s.wk ? s.w : s.w + 1; vf_check(at < n && s.keyat(at) == s.wk, "other elements are kept"); }
  vf_check(s.contains(k), "the inserted value is found"); }
PROOF(set_erase) { Set s; int k = vf_i32("key"); bool had = s.contains(k); size_t r = s.erase(k); size_t n = s.size();
  vf_check(r == (had ? 1 : 0), "erase reports whether the value was there"); vf_check(n == s.n - r, "size shrinks by one on success"); vf_check(!s.contains(k), "the value is gone");
  if (s.some && s.wk != k) { size_t at = s.w < n && s.keyat(s.w) == s.wk ? s.w : s.w - 1; vf_check(at < n && s.keyat(at) == s.wk, "other elements are kept"); }
  if (n >= 2) { size_t i = vf_size("i", 0, n - 2); vf_check(s.keyat(i) < s.keyat(i + 1), "still strictly increasing"); } }
PROOF(fresh) { M m; S s; vf_check(m.empty() && m.size() == 0 && s.empty() && s.size() == 0, "a new map or set is empty"); int k = vf_i32("key"); vf_check(m.find(k) == m.end() && !s.contains(k), "nothing is found in it"); m.insert(k, 1); s.insert(k); m.clear(); s.clear(); vf_check(m.empty() && s.empty(), "clear empties"); }
