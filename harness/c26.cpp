// C26: containers against the abstract data types, all operation sequences up to a depth.
#include "rp.h"
#include "strictalloc.h"
#include <reactphysics3d/containers/Array.h>
#include <reactphysics3d/containers/Set.h>
#include <reactphysics3d/containers/Map.h>
#include <reactphysics3d/containers/Deque.h>
#include <reactphysics3d/containers/Stack.h>
#include <reactphysics3d/containers/LinkedList.h>
#include <reactphysics3d/containers/Pair.h>
#include <list>
#include <deque>

// element that knows whether it is alive
struct E {
    static long live; static const char* err;
    int v; uint32_t magic;
    static const uint32_t ALIVE = 0x600DF00D, DEAD = 0xDEADE1E1;
    E(int x = 0) : v(x), magic(ALIVE) { live++; }
    E(const E& o) : v(o.v), magic(ALIVE) { if (o.magic != ALIVE) err = "copy of an element that is not alive"; live++; }
    E& operator=(const E& o) { if (o.magic != ALIVE || magic != ALIVE) err = "assignment involving a dead element"; v = o.v; return *this; }
    ~E() { if (magic != ALIVE) err = "destruction of an element that is not alive"; magic = DEAD; live--; }
    bool operator==(const E& o) const { if (o.magic != ALIVE || magic != ALIVE) err = "comparison with a dead element"; return v == o.v; }
    bool operator!=(const E& o) const { return !(*this == o); }
};
long E::live = 0; const char* E::err = nullptr;
// keys: few distinct hashes so that buckets are shared, equal low bits with different high bits too
static int HASHMODE = 0;
namespace std { template <> struct hash<E> { size_t operator()(const E& e) const {
    switch (HASHMODE) { case 0: return e.v; case 1: return (size_t)(e.v % 3) * 5; case 2: return ((size_t)e.v << 32) | 7; case 3: return (size_t)e.v * 16; default: return ~(size_t)0 - e.v; } } }; }

static void common(Run& r, StrictAllocator& a, const char* what, long expectLive) {
    r.checked(3);
    if (E::err) r.fail("element-lifetime", "%s: %s", what, E::err);
    if (!a.error.empty()) r.fail("allocator-misuse", "%s: %s", what, a.error.c_str());
    if (E::live != expectLive) r.fail("element-count", "%s: %ld elements alive, expected %ld", what, E::live, expectLive);
}
struct Reset { Reset() { E::live = 0; E::err = nullptr; } };

// every pair of positions of a random access iterator (of the first twelve): order, distance and steps
template<class C> static void iterators(Run& r, const C& c, const std::vector<int>& m, const char* what, const char* sig) {
    long n = std::min<size_t>(m.size(), 12); std::vector<decltype(c.begin())> at; auto it = c.begin(); for (long i = 0; i <= n; i++) { at.push_back(it); if (i < n) { auto old = it++; MC_CHECK(r, old == at[i] && old != it, sig, "%s: it++ at %ld", what, i); } }
    auto& e = at[n]; MC_CHECK(r, (long)m.size() > n || e == c.end(), sig, "%s: %ld steps do not lead to end()", what, n); auto bk = e; for (long i = n; i-- > 0;) { auto old = bk--; MC_CHECK(r, old == at[i + 1] && bk == at[i], sig, "%s: it-- to %ld", what, i); }
    for (long i = 0; i <= n; i++) for (long j = 0; j <= n; j++) { auto& a = at[i]; auto& b = at[j]; r.checked();
        if ((a < b) != (i < j) || (a > b) != (i > j) || (a <= b) != (i <= j) || (a >= b) != (i >= j) || (a == b) != (i == j) || (a != b) != (i != j)) r.fail(sig, "%s: iterators at %ld and %ld compare wrongly", what, i, j);
        if ((b - a) != j - i) r.fail(sig, "%s: distance from %ld to %ld is %ld", what, i, j, (long)(b - a));
        auto x = a, y = a; x += j - i; y -= i - j; auto u = a + (j - i), v = a - (i - j); if (x != b || y != b || u != b || v != b) r.fail(sig, "%s: steps from %ld to %ld", what, i, j);
        if (j < (long)m.size() && (x->v != m[j] || (*u).v != m[j])) r.fail(sig, "%s: value after the steps from %ld to %ld", what, i, j); } }
// ---------------------------------------------------------------- Array
typedef rp3d::Array<E> A;
static void cmpArray(Run& r, const A& a, const std::vector<int>& m, const char* what) {
    MC_CHECK(r, a.size() == m.size(), "array-size", "%s: size %llu, expected %zu", what, (unsigned long long)a.size(), m.size());
    for (size_t i = 0; i < m.size(); i++) MC_CHECK(r, a[i].v == m[i] && a[i].magic == E::ALIVE, "array-content", "%s: element %zu is %d, expected %d", what, i, a[i].v, m[i]);
    size_t i = 0; for (auto it = a.begin(); it != a.end(); ++it, ++i) MC_CHECK(r, i < m.size() && (*it).v == m[i], "array-iteration", "%s: iteration differs at %zu", what, i);
    MC_CHECK(r, i == m.size(), "array-iteration", "%s: iteration ended after %zu of %zu", what, i, m.size());
    MC_CHECK(r, a.capacity() >= a.size(), "array-capacity", "%s: capacity below size", what);
    if (!m.empty()) { auto it = a.end(); --it; MC_CHECK(r, it->v == m.back(), "array-iteration", "%s: --end()", what);
        auto b = a.begin(); b += (long)m.size() - 1; MC_CHECK(r, b == it && b->v == m.back() && (b - a.begin()) == (long)m.size() - 1 && a.begin() <= b, "array-iteration", "%s: iterator arithmetic", what); }
    iterators(r, a, m, what, "array-iterators");
}
static void arrayScenario(Run& r) {
    Reset rs; StrictAllocator al; long ext = 0;
    static const int starts[] = {0, 1, 3, 15, 16, 17};
    int n0 = starts[r.choose(6)];
    { A a(al, r.choose(2) ? 5 : 0), b(al); std::vector<int> ma, mb;
      for (int i = 0; i < n0; i++) { a.add(E(i)); ma.push_back(i); }
      for (int i = 0; i < 2; i++) { b.add(E(100 + i)); mb.push_back(100 + i); }
      MC_LOG(r, "array of %d elements, second array of 2", n0);
      int depth = r.thorough ? 5 : 4;
      for (int s = 0; s < depth; s++) {
        int op = r.choose(18); char what[80]; snprintf(what, 80, "step %d op %d", s, op);
        switch (op) {
        case 0: a.add(E(7)); ma.push_back(7); MC_LOG(r, "add(7)"); break;
        case 1: a.emplace(8); ma.push_back(8); MC_LOG(r, "emplace(8)"); break;
        case 2: case 3: case 4: { if (ma.empty()) r.prune(); size_t i = op == 2 ? 0 : op == 3 ? ma.size() / 2 : ma.size() - 1; if (op > 2 && ma.size() == 1) r.prune(); MC_LOG(r, "removeAt(%zu)", i);
            auto it = a.removeAt(i); ma.erase(ma.begin() + i); bool end = i == ma.size(); r.checked();
            if (end != (it == a.end()) || (!end && it->v != ma[i])) r.fail("array-remove-iterator", "%s: removeAt(%zu) returned a wrong iterator", what, i); break; }
        case 5: { int v = ma.empty() ? 0 : ma[ma.size() / 2]; E key(v); auto it = a.find(key); auto f = std::find(ma.begin(), ma.end(), v); MC_LOG(r, "find/remove(%d)", v); r.checked();
            if ((it == a.end()) != (f == ma.end())) r.fail("array-find", "%s: find(%d) wrong", what, v);
            if (f != ma.end()) { if (it - a.begin() != f - ma.begin()) r.fail("array-find", "%s: find(%d) found another position", what, v); auto n = a.remove(it); f = ma.erase(f); if ((n == a.end()) != (f == ma.end()) || (f != ma.end() && n->v != *f)) r.fail("array-remove-iterator", "%s: remove(it) returned a wrong iterator", what); } break; }
        case 6: { if (ma.empty()) r.prune(); E key(ma.back()); auto f = std::find(ma.begin(), ma.end(), key.v); a.remove(key); ma.erase(f); MC_LOG(r, "remove(last value)"); break; }
        case 7: case 8: { if (ma.empty() || (op == 8 && ma.size() == 1)) r.prune(); size_t i = op == 7 ? 0 : ma.size() - 1; a.removeAtAndReplaceByLast(i); ma[i] = ma.back(); ma.pop_back(); MC_LOG(r, "removeAtAndReplaceByLast(%zu)", i); break; }
        case 9: a.clear(); ma.clear(); MC_LOG(r, "clear()"); break;
        case 10: a.clear(true); ma.clear(); r.checked(); if (a.capacity() != 0) r.fail("array-clear", "clear(true) keeps capacity"); MC_LOG(r, "clear(true)"); break;
        case 11: a.reserve(17); r.checked(); if (a.capacity() < 17) r.fail("array-reserve", "reserve(17) gives %llu", (unsigned long long)a.capacity()); MC_LOG(r, "reserve(17)"); break;
        case 12: a.addRange(b); ma.insert(ma.end(), mb.begin(), mb.end()); MC_LOG(r, "addRange(b)"); break;
        case 13: { size_t st = mb.size() / 2; a.addRange(b, st); ma.insert(ma.end(), mb.begin() + st, mb.end()); MC_LOG(r, "addRange(b,%zu)", st); break; }
        case 14: a = b; ma = mb; MC_LOG(r, "a = b"); break;
        case 15: b = a; mb = ma; MC_LOG(r, "b = a"); break;
        case 16: { A c(a); cmpArray(r, c, ma, "copy"); r.checked(); if (!(c == a) || c != a) r.fail("array-equal", "copy not equal"); c.add(E(55)); if (c == a) r.fail("array-equal", "longer array equal"); MC_LOG(r, "copy construct"); break; }
        case 17: { A& self = a; a = self; if (!ma.empty()) { a[0] = E(42); ma[0] = 42; } MC_LOG(r, "self-assign, a[0]=42"); break; }
        }
        r.transition();
        cmpArray(r, a, ma, what); cmpArray(r, b, mb, what); r.checked();
        if ((a == b) != (ma == mb) || (a != b) == (ma == mb)) r.fail("array-equal", "%s: comparison of arrays wrong", what);
        common(r, al, what, (long)(ma.size() + mb.size()));
        mc::Hash h; h.u(a.size()); h.u(a.capacity()); for (int x : ma) h.u(x); for (int x : mb) h.u(x); r.state(h.h);
      }
    }
    common(r, al, "destruction", 0);
    MC_CHECK(r, al.live == 0, "leak", "%ld blocks leaked", al.live);
}
static void rawArray(Run& r) {      // addWithoutInit on a trivial type
    StrictAllocator al; { rp3d::Array<int> a(al); std::vector<int> m; int d = 5;
      for (int s = 0; s < d; s++) { int op = r.choose(5); static const int ns[] = {1, 2, 15, 16, 17};
        MC_LOG(r, "addWithoutInit(%d)", ns[op]); a.addWithoutInit(ns[op]); for (int i = 0; i < ns[op]; i++) m.push_back(1000 * s + i);
        for (size_t i = m.size() - ns[op]; i < m.size(); i++) a[i] = m[i]; if (r.flip()) { a.add(-1); m.push_back(-1); MC_LOG(r, "add(-1)"); } r.transition();
        MC_CHECK(r, a.size() == m.size(), "array-size", "size %llu expected %zu", (unsigned long long)a.size(), m.size());
        for (size_t i = 0; i < m.size(); i++) MC_CHECK(r, a[i] == m[i], "array-content", "element %zu is %d, expected %d", i, a[i], m[i]);
        mc::Hash h; h.u(a.size()); h.u(a.capacity()); r.state(h.h); }
    } MC_CHECK(r, al.live == 0 && al.error.empty(), "allocator-misuse", "%s (%ld live)", al.error.c_str(), al.live);
}

// ---------------------------------------------------------------- Set
typedef rp3d::Set<E> SetE;
template <class C> static void checkIter(Run& r, const C& s, const std::set<int>& m, const char* what) {
    std::set<int> seen; size_t n = 0;
    for (auto it = s.begin(); it != s.end(); ++it) { MC_CHECK(r, it->magic == E::ALIVE, "set-iteration", "%s: iterator reaches a dead entry", what); MC_CHECK(r, seen.insert((*it).v).second, "set-iteration", "%s: %d visited twice", what, it->v); MC_CHECK(r, ++n <= m.size() + 1, "set-iteration", "%s: iteration does not end", what); }
    MC_CHECK(r, seen == m, "set-iteration", "%s: iteration visits %zu elements, expected %zu", what, seen.size(), m.size());
}
static void cmpSet(Run& r, const SetE& s, const std::set<int>& m, const char* what, int maxKey) {
    MC_CHECK(r, s.size() == m.size(), "set-size", "%s: size %llu, expected %zu", what, (unsigned long long)s.size(), m.size());
    checkIter(r, s, m, what);
    for (int k = 0; k <= maxKey; k++) { E e(k); bool c = s.contains(e); MC_CHECK(r, c == (m.count(k) > 0), "set-contains", "%s: contains(%d)=%d", what, k, c); auto it = s.find(e); MC_CHECK(r, (it == s.end()) == !c && (!c || it->v == k), "set-find", "%s: find(%d) wrong", what, k); }
}
static void setScenario(Run& r) {
    Reset rs; StrictAllocator al; HASHMODE = r.choose(5);
    static const int starts[] = {0, 1, 15, 16, 17, 32}; int n0 = starts[r.choose(6)]; int cap = r.choose(3) * 10;
    int maxKey = n0 + 4;
    { SetE s(al, cap), t(al); std::set<int> m, mt; for (int i = 0; i < n0; i++) { s.add(E(i)); m.insert(i); } t.add(E(1)); t.add(E(4)); mt = {1, 4};
      MC_LOG(r, "hash mode %d, set of %d elements, capacity hint %d, t={1,4}", HASHMODE, n0, cap);
      int depth = r.thorough ? 5 : 4;
      for (int st = 0; st < depth; st++) { int op = r.choose(13); char what[80]; snprintf(what, 80, "step %d op %d", st, op);
        switch (op) {
        case 0: case 1: case 2: { int k = op == 0 ? n0 : op == 1 ? n0 + 1 : 0; bool ins = s.add(E(k)); bool exp = m.insert(k).second; MC_LOG(r, "add(%d)", k); MC_CHECK(r, ins == exp, "set-add", "%s: add(%d) returned %d", what, k, ins); break; }
        case 3: case 4: case 5: { int k = op == 3 ? 0 : op == 4 ? (n0 > 2 ? n0 / 2 : 1) : n0 + 3; std::vector<int> o0; for (auto& e : s) o0.push_back(e.v); auto it = s.remove(E(k)); bool had = m.erase(k) > 0; MC_LOG(r, "remove(%d)", k);
            if (had) { size_t x = std::find(o0.begin(), o0.end(), k) - o0.begin() + 1; MC_CHECK(r, x < o0.size() ? it != s.end() && it->v == o0[x] : it == s.end(), "set-remove-iterator", "%s: remove(%d) does not return the next element", what, k); }
            if (!had) MC_CHECK(r, it == s.end(), "set-remove-iterator", "%s: removing an absent value does not return end()", what); break; }
        case 6: { // remove everything satisfying a predicate through the returned iterator
            int par = r.choose(3); MC_LOG(r, "remove every k %% 3 == %d through iterators", par); size_t n = 0;
            for (auto it = s.begin(); it != s.end();) { MC_CHECK(r, ++n <= m.size(), "set-remove-iterator", "%s: elements are visited twice", what); if (it->v % 3 == par) it = s.remove(it); else ++it; }
            for (auto i = m.begin(); i != m.end();) if (*i % 3 == par) i = m.erase(i); else ++i; break; }
        case 7: s.clear(); m.clear(); MC_LOG(r, "clear()"); break;
        case 8: s.clear(true); m.clear(); MC_LOG(r, "clear(true)"); break;
        case 9: s = t; m = mt; MC_LOG(r, "s = t"); break;
        case 10: t = s; mt = m; MC_LOG(r, "t = s"); break;
        case 11: { SetE c(s); cmpSet(r, c, m, "copy", maxKey); MC_CHECK(r, c == s && !(c != s), "set-equal", "%s: copy not equal", what); c.add(E(maxKey)); c.add(E(maxKey - 1)); c.remove(E(0)); bool same = m.count(maxKey) && m.count(maxKey - 1) && !m.count(0); MC_CHECK(r, (c == s) == same, "set-equal", "%s: modified copy compares wrongly", what);
            StrictAllocator al2; { auto arr = s.toArray(al2); MC_CHECK(r, arr.size() == m.size(), "set-toarray", "%s: toArray size", what); std::set<int> got; for (auto& e : arr) got.insert(e.v); MC_CHECK(r, got == m, "set-toarray", "%s: toArray content", what); } MC_LOG(r, "copy, toArray"); break; }
        case 12: { s.reserve(33); MC_CHECK(r, s.capacity() >= 33, "set-reserve", "%s", what); MC_LOG(r, "reserve(33)"); break; }
        }
        r.transition(); cmpSet(r, s, m, what, maxKey); cmpSet(r, t, mt, what, maxKey); MC_CHECK(r, (s == t) == (m == mt), "set-equal", "%s: == wrong", what);
        common(r, al, what, (long)(m.size() + mt.size()));
        mc::Hash h; h.u(HASHMODE); h.u(s.capacity()); for (auto& e : s) h.u(e.v); h.u(99); for (int x : mt) h.u(x); r.state(h.h);
      } }
    common(r, al, "destruction", 0); MC_CHECK(r, al.live == 0, "leak", "%ld blocks leaked", al.live);
}
// ---------------------------------------------------------------- Map
typedef rp3d::Map<E, E> MapE; typedef rp3d::Pair<E, E> PairE;
static void cmpMap(Run& r, const MapE& s, const std::map<int, int>& m, const char* what, int maxKey) {
    MC_CHECK(r, s.size() == m.size(), "map-size", "%s: size %llu, expected %zu", what, (unsigned long long)s.size(), m.size());
    std::map<int, int> seen; size_t n = 0;
    for (auto it = s.begin(); it != s.end(); ++it) { MC_CHECK(r, it->first.magic == E::ALIVE && ++n <= m.size(), "map-iteration", "%s: iteration reaches a dead entry or too many", what); seen[it->first.v] = (*it).second.v; }
    MC_CHECK(r, seen == m, "map-iteration", "%s: iteration content differs", what);
    for (int k = 0; k <= maxKey; k++) { E e(k); bool c = s.containsKey(e), x = m.count(k) > 0; MC_CHECK(r, c == x, "map-contains", "%s: containsKey(%d)=%d", what, k, c); auto it = s.find(e); MC_CHECK(r, (it == s.end()) == !x && (!x || (it->first.v == k && it->second.v == m.at(k))), "map-find", "%s: find(%d) wrong", what, k); if (x) MC_CHECK(r, s[e].v == m.at(k), "map-index", "%s: [%d]", what, k); }
}
static void mapScenario(Run& r) {
    Reset rs; StrictAllocator al; HASHMODE = r.choose(5); static const int starts[] = {0, 1, 15, 16, 17, 32}; int n0 = starts[r.choose(6)]; int cap = r.choose(2) * 20; int maxKey = n0 + 4;
    { MapE s(al, cap), t(al); std::map<int, int> m, mt; for (int i = 0; i < n0; i++) { s.add(PairE(E(i), E(i * 10))); m[i] = i * 10; } t.add(PairE(E(1), E(10))); mt[1] = 10; MC_LOG(r, "hash mode %d, map of %d, t={1:10}", HASHMODE, n0);
      int depth = r.thorough ? 5 : 4;
      for (int st = 0; st < depth; st++) { int op = r.choose(14); char what[80]; snprintf(what, 80, "step %d op %d", st, op);
        switch (op) {
        case 0: case 1: { int k = n0 + op; if (m.count(k)) r.prune(); bool ok = s.add(PairE(E(k), E(k * 10 + 1))); m[k] = k * 10 + 1; MC_CHECK(r, ok, "map-add", "%s: add(%d) returned false", what, k); MC_LOG(r, "add(%d)", k); break; }
        case 2: case 3: { int k = op == 2 ? 0 : n0; bool ok = s.add(PairE(E(k), E(777 + st)), true); m[k] = 777 + st; MC_CHECK(r, ok, "map-add", "%s: add(%d, overwrite) returned false", what, k); MC_LOG(r, "add(%d, overwrite)", k); break; }
        case 4: case 5: case 6: { int k = op == 4 ? 0 : op == 5 ? (n0 > 2 ? n0 / 2 : 1) : n0 + 3; std::vector<int> o0; for (auto i = s.begin(); i != s.end(); ++i) o0.push_back(i->first.v); bool had = m.erase(k) > 0; auto it = s.remove(E(k)); if (had) { size_t x = std::find(o0.begin(), o0.end(), k) - o0.begin() + 1; MC_CHECK(r, x < o0.size() ? it != s.end() && it->first.v == o0[x] : it == s.end(), "map-remove-iterator", "%s: remove(%d) does not return the next entry", what, k); } if (!had) MC_CHECK(r, it == s.end(), "map-remove-iterator", "%s: removing an absent key does not return end()", what); MC_LOG(r, "remove(%d)", k); break; }
        case 7: { int par = r.choose(3); size_t n = 0; for (auto it = s.begin(); it != s.end();) { MC_CHECK(r, ++n <= m.size(), "map-remove-iterator", "%s: entries are visited twice", what); if (it->first.v % 3 == par) it = s.remove(it); else ++it; }
            for (auto i = m.begin(); i != m.end();) if (i->first % 3 == par) i = m.erase(i); else ++i; MC_LOG(r, "remove every k %% 3 == %d through iterators", par); break; }
        case 8: s.clear(); m.clear(); MC_LOG(r, "clear()"); break;
        case 9: s.clear(true); m.clear(); MC_LOG(r, "clear(true)"); break;
        case 10: s = t; m = mt; MC_LOG(r, "s = t"); break;
        case 11: t = s; mt = m; MC_LOG(r, "t = s"); break;
        case 12: { MapE c(s); cmpMap(r, c, m, "copy", maxKey); MC_CHECK(r, c == s, "map-equal", "%s: copy not equal", what); if (!m.empty()) { c[E(m.begin()->first)] = E(-5); MC_CHECK(r, c != s, "map-equal", "%s: maps with different values equal", what); } MC_LOG(r, "copy"); break; }
        case 13: { if (m.empty()) r.prune(); int k = m.rbegin()->first; s[E(k)] = E(31); m[k] = 31; MC_LOG(r, "[%d]=31", k); break; }
        }
        r.transition(); cmpMap(r, s, m, what, maxKey); cmpMap(r, t, mt, what, maxKey); MC_CHECK(r, (s == t) == (m == mt), "map-equal", "%s: == wrong", what); common(r, al, what, 2 * (long)(m.size() + mt.size()));
        mc::Hash h; h.u(HASHMODE); h.u(s.capacity()); for (auto it = s.begin(); it != s.end(); ++it) { h.u(it->first.v); h.u(it->second.v); } r.state(h.h);
      } }
    common(r, al, "destruction", 0); MC_CHECK(r, al.live == 0, "leak", "%ld blocks leaked", al.live);
}
// ---------------------------------------------------------------- Deque
typedef rp3d::Deque<E> DequeE;
static void cmpDeque(Run& r, const DequeE& d, const std::deque<int>& m, const char* what) {
    MC_CHECK(r, d.size() == m.size(), "deque-size", "%s: size %llu, expected %zu", what, (unsigned long long)d.size(), m.size());
    for (size_t i = 0; i < m.size(); i++) MC_CHECK(r, d[i].v == m[i] && d[i].magic == E::ALIVE, "deque-content", "%s: element %zu is %d, expected %d", what, i, d[i].v, m[i]);
    if (!m.empty()) MC_CHECK(r, d.getFront().v == m.front() && d.getBack().v == m.back(), "deque-ends", "%s: front/back wrong", what);
    size_t i = 0; for (auto it = d.begin(); it != d.end(); ++it, ++i) MC_CHECK(r, i < m.size() && it->v == m[i], "deque-iteration", "%s: iteration differs at %zu", what, i); MC_CHECK(r, i == m.size(), "deque-iteration", "%s: iteration length", what);
    iterators(r, d, std::vector<int>(m.begin(), m.end()), what, "deque-iterators");
}
static void dequeScenario(Run& r) {
    Reset rs; StrictAllocator al; static const int starts[] = {0, 1, 7, 8, 9, 16}; int nb = starts[r.choose(6)], nf = starts[r.choose(6)];
    { DequeE d(al), e(al); std::deque<int> m, me; for (int i = 0; i < nb; i++) { d.addBack(E(i)); m.push_back(i); } for (int i = 0; i < nf; i++) { d.addFront(E(100 + i)); m.push_front(100 + i); } MC_LOG(r, "%d addBack, %d addFront", nb, nf);
      int depth = r.thorough ? 7 : 5;
      for (int s = 0; s < depth; s++) { int op = r.choose(10); char what[80]; snprintf(what, 80, "step %d op %d", s, op);
        switch (op) {
        case 0: d.addBack(E(s)); m.push_back(s); MC_LOG(r, "addBack"); break;
        case 1: d.addFront(E(s + 50)); m.push_front(s + 50); MC_LOG(r, "addFront"); break;
        case 2: d.popFront(); if (!m.empty()) m.pop_front(); MC_LOG(r, "popFront"); break;
        case 3: d.popBack(); if (!m.empty()) m.pop_back(); MC_LOG(r, "popBack"); break;
        case 4: d.clear(); m.clear(); MC_LOG(r, "clear"); break;
        case 5: { DequeE c(d); cmpDeque(r, c, m, "copy"); MC_CHECK(r, c == d && !(c != d), "deque-equal", "%s: copy not equal", what); c.addFront(E(1)); c.addBack(E(2)); auto mm = m; mm.push_front(1); mm.push_back(2); cmpDeque(r, c, mm, "copy extended"); MC_CHECK(r, c != d, "deque-equal", "%s: different deques equal", what); MC_LOG(r, "copy"); break; }
        case 6: e = d; me = m; MC_LOG(r, "e = d"); break;
        case 7: d = e; m = me; MC_LOG(r, "d = e"); break;
        case 8: for (int i = 0; i < 9; i++) { d.addFront(E(200 + i)); m.push_front(200 + i); } MC_LOG(r, "9 x addFront"); break;
        case 9: for (int i = 0; i < 9; i++) { d.popBack(); if (!m.empty()) m.pop_back(); } MC_LOG(r, "9 x popBack"); break;
        }
        r.transition(); cmpDeque(r, d, m, what); cmpDeque(r, e, me, what); MC_CHECK(r, (d == e) == (m == me), "deque-equal", "%s: == wrong", what); common(r, al, what, (long)(m.size() + me.size()));
        mc::Hash h; for (int x : m) h.u(x); h.u(7777); for (int x : me) h.u(x); r.state(h.h);
      } }
    common(r, al, "destruction", 0); MC_CHECK(r, al.live == 0, "leak", "%ld blocks leaked", al.live);
}
// ---------------------------------------------------------------- Stack
typedef rp3d::Stack<E> StackE;
static void cmpStack(Run& r, StackE s /*copy*/, std::vector<int> m, const char* what) {
    MC_CHECK(r, s.size() == m.size(), "stack-size", "%s: size %llu, expected %zu", what, (unsigned long long)s.size(), m.size());
    while (!m.empty()) { MC_CHECK(r, s.top().v == m.back(), "stack-content", "%s: top is %d, expected %d", what, s.top().v, m.back()); E e = s.pop(); MC_CHECK(r, e.v == m.back(), "stack-content", "%s: pop gives %d", what, e.v); m.pop_back(); }
    MC_CHECK(r, s.size() == 0, "stack-size", "%s: not empty", what);
}
static void stackScenario(Run& r) {
    Reset rs; StrictAllocator al; int cap = r.choose(3) * 3; static const int st0[] = {0, 1, 2, 7, 8}; int n0 = st0[r.choose(5)];
    { StackE s(al, cap), t(al, 2); std::vector<int> m, mt; for (int i = 0; i < n0; i++) { s.push(E(i)); m.push_back(i); } t.push(E(9)); mt = {9};
      int depth = r.thorough ? 9 : 7;
      for (int k = 0; k < depth; k++) { int op = r.choose(7); char what[80]; snprintf(what, 80, "step %d op %d", k, op);
        switch (op) {
        case 0: s.push(E(k)); m.push_back(k); MC_LOG(r, "push"); break;
        case 1: { if (m.empty()) r.prune(); E e = s.pop(); MC_CHECK(r, e.v == m.back(), "stack-content", "%s: pop gives %d, expected %d", what, e.v, m.back()); m.pop_back(); MC_LOG(r, "pop"); break; }
        case 2: s.clear(); m.clear(); MC_LOG(r, "clear"); break;
        case 3: for (int i = 0; i < 5; i++) { s.push(E(70 + i)); m.push_back(70 + i); } MC_LOG(r, "5 x push"); break;
        case 4: { StackE c(s); c.push(E(1)); auto mm = m; mm.push_back(1); cmpStack(r, c, mm, "copy pushed"); MC_LOG(r, "copy, push"); break; }
        case 5: { if (m.empty()) r.prune(); s.top() = E(66); m.back() = 66; MC_LOG(r, "top()=66"); break; }
        case 6: { if (mt.empty()) r.prune(); E e = t.pop(); s.push(e); m.push_back(mt.back()); mt.pop_back(); MC_LOG(r, "s.push(t.pop())"); break; }
        }
        r.transition(); cmpStack(r, s, m, what); cmpStack(r, t, mt, what); common(r, al, what, (long)(m.size() + mt.size())); MC_CHECK(r, s.capacity() >= s.size(), "stack-capacity", "%s", what);
        mc::Hash h; h.u(s.capacity()); for (int x : m) h.u(x); h.u(7777); for (int x : mt) h.u(x); r.state(h.h);
      } }
    common(r, al, "destruction", 0); MC_CHECK(r, al.live == 0, "leak", "%ld blocks leaked", al.live);
}
// ---------------------------------------------------------------- LinkedList and Pair
static void listScenario(Run& r) {
    Reset rs; StrictAllocator al;
    { rp3d::LinkedList<E> l(al); std::list<int> m; int depth = 6;
      for (int k = 0; k < depth; k++) { int op = r.choose(3); if (op < 2) { l.insert(E(op + 10 * k)); m.push_front(op + 10 * k); MC_LOG(r, "insert"); } else { l.reset(); m.clear(); MC_LOG(r, "reset"); } r.transition();
        auto* e = l.getListHead(); for (int x : m) { MC_CHECK(r, e && e->data.v == x && e->data.magic == E::ALIVE, "list-content", "element differs"); e = e->next; } MC_CHECK(r, !e, "list-content", "list too long"); common(r, al, "list", (long)m.size()); MC_CHECK(r, al.live == (long)m.size(), "leak", "list holds %ld blocks for %zu elements", al.live, m.size()); mc::Hash h; for (int x : m) h.u(x); r.state(h.h); } }
    common(r, al, "destruction", 0); MC_CHECK(r, al.live == 0, "leak", "%ld blocks leaked", al.live);
    typedef rp3d::Pair<int, int> P; int a = r.choose(3), b = r.choose(3), c = r.choose(3), d = r.choose(3); P p(a, b), q(c, d); r.transition();
    MC_CHECK(r, (p == q) == (a == c && b == d), "pair-equal", "(%d,%d)==(%d,%d)", a, b, c, d); MC_CHECK(r, (p != q) == !(p == q), "pair-equal", "!="); MC_CHECK(r, p != q || std::hash<P>()(p) == std::hash<P>()(q), "pair-hash", "equal pairs with different hashes"); P x = p; x = q; MC_CHECK(r, x == q, "pair-equal", "assignment");
}
int main(int c, char** v) {
    std::vector<mc::Scenario> s;
    s.push_back({"array", arrayScenario, "6 start sizes x 2 capacity hints, all sequences of 4 (thorough 5) of 18 operations on two arrays"});
    s.push_back({"rawarray", rawArray, "all sequences of 5 addWithoutInit/add steps"});
    s.push_back({"set", setScenario, "5 hash functions x 6 start sizes x 3 capacity hints, all sequences of 4 (thorough 5) of 13 operations on two sets"});
    s.push_back({"map", mapScenario, "5 hash functions x 6 start sizes x 2 capacity hints, all sequences of 4 (thorough 5) of 14 operations on two maps"});
    s.push_back({"deque", dequeScenario, "36 start fillings, all sequences of 5 (thorough 7) of 10 operations on two deques"});
    s.push_back({"stack", stackScenario, "15 start fillings, all sequences of 7 (thorough 9) of 7 operations on two stacks"});
    s.push_back({"list", listScenario, "all sequences of 6 operations on a list, all pairs over {0,1,2}"});
    return mc::main(c, v, propertyId("C26"), s, "element types are relocatable by memmove (Array::removeAt moves elements that way)\nan argument does not alias an element of the container it is added to\nMap::add is not called with a present key unless overwriting is requested (asserted precondition)");
}
