// P25: the core containers against their mathematical models.
#include "engine.hpp"
typedef std::vector<std::string> Strs;

// ---------------------------------------------------------------- tracked objects
// Every key, value and element handed to a container; freeing one twice or not at all is noticed.
struct Obj { int id; unsigned long v; bool freed; char s[24]; };
static std::vector<Obj *> objs;
static Obj *obj(unsigned long v, const std::string &s = "") { Obj *o = (Obj *)calloc(1, sizeof(Obj)); o->id = (int)objs.size(); o->v = v; snprintf(o->s, sizeof o->s, "%s", s.c_str()); objs.push_back(o); return o; }
static void obj_free(void *p) { Obj *o = (Obj *)p; for (auto q : objs) if (q == o) { CHECK(!o->freed, "free", "an element was freed twice"); o->freed = true; return; } fail("free", "something that is no element was freed"); }
static void str_free(void *p) { obj_free((char *)p - offsetof(Obj, s)); }
static void objs_reset() { for (auto o : objs) free(o); objs.clear(); }
static void same_freed(const char *what, const std::set<int> &want)
{
    for (auto o : objs) CHECK(o->freed == (want.count(o->id) != 0), "free", "after %s element #%d (%lu \"%s\") is %sfreed", what, o->id, o->v, o->s, o->freed ? "" : "not ");
}

// ---------------------------------------------------------------- hash table
static unsigned long h_weak;                    // how bad the hash function is
static unsigned long o_hash(const void *p) { unsigned long v = ((const Obj *)p)->v; switch (h_weak) { case 0: return v; case 1: return v % 3; case 2: return 7; case 3: return v << 8; case 4: return ~v; default: return v * 0x9E3779B97F4A7C15UL; } }
static int o_eq(const void *a, const void *b) { return ((const Obj *)a)->v == ((const Obj *)b)->v; }
static const Strs &skeys()
{
    static Strs v; if (v.empty()) { for (const char *p : {"", "a", "b", "c", "ab", "ba", "aa", "bb", "abc", "i", "key", "key1", "key2"}) v.push_back(p);
        // the same str_hash: (x, y) and (x + 1, y - 37)
        for (int k = 0; k < 6; k++) for (int y = 0; y < 3; y++) { char b[3] = {(char)('A' + y), (char)('o' + k), 0}; v.push_back(b); char d[3] = {(char)('A' + y + 1), (char)('o' + k - 37), 0}; v.push_back(d); }
        for (int i = 0; i < 60; i++) v.push_back(fmt("w%d", i * 7)); }
    return v;
}
struct EachArg { std::map<std::pair<const void *, const void *>, int> seen; };
static void each_cb(void *k, void *v, void *arg) { ((EachArg *)arg)->seen[{k, v}]++; }
static void *cl_key(void *k) { Obj *o = (Obj *)((char *)k - offsetof(Obj, s)); return obj(o->v, o->s)->s; }
static void *cl_val(void *v) { Obj *o = (Obj *)v; return obj(o->v, o->s); }

static void t_hash(Ctx &c)
{
    Src &s = c.src; objs_reset();
    enum { STR, INT, CUS } kind = (decltype(kind))s.draw(3);
    bool own = s.chance(2, 3); h_weak = s.draw(6);
    FrtHash *h = kind == STR ? frt_h_new_str(own ? str_free : NULL, own ? obj_free : NULL) : kind == INT ? frt_h_new_int(own ? obj_free : NULL) : frt_h_new(o_hash, o_eq, own ? obj_free : NULL, own ? obj_free : NULL);
    c.t("%s hash table%s (hash %lu)", kind == STR ? "string" : kind == INT ? "integer" : "object", own ? ", owning" : "", h_weak);
    struct Ent { const void *key; Obj *val; int kid; };
    std::map<std::string, Ent> m; std::set<int> dead;
    uint32_t space = s.pick(std::vector<uint32_t>{3, 8, 20, 70, 300}), shift = s.pick(std::vector<uint32_t>{0, 0, 3, 16, 40});
    auto name = [&](unsigned long v) { return kind == STR ? skeys()[v % skeys().size()] : std::to_string(v); };
    auto val_of = [&] { unsigned long v = s.draw(space); if (kind == INT) { v <<= shift; if (s.chance(1, 20)) v = ~0UL - v; } return v; };
    Obj *tmp = obj(0);                           // probes that are never handed over
    auto probe = [&](unsigned long v) -> const void * { if (kind == INT) return (const void *)v; tmp->v = v; snprintf(tmp->s, sizeof tmp->s, "%s", name(v).c_str()); return kind == STR ? (const void *)tmp->s : (const void *)tmp; };
    auto freed = [&](const Ent &e, bool key, bool val) { if (!own) return; if (key && e.kid >= 0) dead.insert(e.kid); if (val && e.val) dead.insert(e.val->id); };
    uint32_t steps = 5 + s.geo(c.thorough ? 600 : 200, 98), sets = 0, dels = 0;
    for (uint32_t i = 0; i < steps; i++) {
        unsigned long v = val_of(); std::string k = name(v); auto it = m.find(k); std::string what;
        switch (s.weighted({10, 3, 4, 4, 1, 6, 1, 1})) {
            case 0: case 1: {                    // set, set_safe
                bool safe = s.chance(1, 4); Obj *ko = NULL; const void *kp;
                bool same = it != m.end() && kind != INT && s.chance(1, 5);
                if (kind == INT) kp = (void *)v; else if (same) kp = it->second.key; else { ko = obj(v, k); kp = kind == STR ? (void *)ko->s : (void *)ko; }
                Obj *vo = it != m.end() && s.chance(1, 8) ? it->second.val : obj(v, "val");
                what = fmt("%s(%s)", safe ? "set_safe" : "set", k.c_str()); c.t("%s%s", what.c_str(), same ? " with its own key" : "");
                if (safe) {
                    int r = kind == INT ? frt_h_set_safe_int(h, v, vo) : frt_h_set_safe(h, kp, vo);
                    CHECK(!!r == (it == m.end()), "hash", "%s returned %d, the key was %s", what.c_str(), r, it == m.end() ? "absent" : "present");
                    if (it == m.end()) m[k] = {kp, vo, ko ? ko->id : -1};
                }
                else {
                    FrtHashKeyStatus r = kind == INT ? frt_h_set_int(h, v, vo) : frt_h_set(h, kp, vo);
                    int want = it == m.end() ? FRT_HASH_KEY_DOES_NOT_EXIST : kind == INT || it->second.key != kp ? FRT_HASH_KEY_EQUAL : FRT_HASH_KEY_SAME;
                    CHECK((int)r == want, "hash", "%s returned %d instead of %d", what.c_str(), (int)r, want);
                    if (it != m.end()) { freed(it->second, want == FRT_HASH_KEY_EQUAL, it->second.val != vo); m[k] = {kp, vo, same ? it->second.kid : ko ? ko->id : -1}; }
                    else m[k] = {kp, vo, ko ? ko->id : -1};
                }
                sets++; break; }
            case 2: {                            // del
                what = fmt("del(%s)", k.c_str()); c.t("%s", what.c_str());
                bool self_key = it != m.end() && kind != INT && s.chance(1, 4);
                int r = kind == INT ? frt_h_del_int(h, v) : frt_h_del(h, self_key ? it->second.key : probe(v));
                CHECK(!!r == (it != m.end()), "hash", "%s returned %d", what.c_str(), r);
                if (it != m.end()) { freed(it->second, true, true); m.erase(it); dels++; }
                break; }
            case 3: {                            // rem
                bool dk = s.chance(1, 2); what = fmt("rem(%s, %d)", k.c_str(), (int)dk); c.t("%s", what.c_str());
                void *r = kind == INT ? frt_h_rem_int(h, v) : frt_h_rem(h, probe(v), dk);
                CHECK(r == (it == m.end() ? NULL : (void *)it->second.val), "hash", "%s returned the wrong value", what.c_str());
                if (it != m.end()) { freed(it->second, dk && kind != INT, false); m.erase(it); dels++; }
                break; }
            case 4: what = "clear"; if (!s.chance(1, 4)) break; c.t("clear"); frt_h_clear(h); for (auto &e : m) freed(e.second, true, true); m.clear(); break;
            case 5: {                            // look up
                what = fmt("get(%s)", k.c_str());
                void *r = kind == INT ? frt_h_get_int(h, v) : frt_h_get(h, probe(v));
                CHECK(r == (it == m.end() ? NULL : (void *)it->second.val), "hash", "%s returned the wrong value (the key is %s)", what.c_str(), it == m.end() ? "absent" : "present");
                int e = kind == INT ? frt_h_has_key_int(h, v) : (int)frt_h_has_key(h, probe(v));
                CHECK(!!e == (it != m.end()), "hash", "has_key(%s) returned %d", k.c_str(), e);
                if (kind != INT && it != m.end()) CHECK(frt_h_has_key(h, it->second.key) == FRT_HASH_KEY_SAME, "hash", "has_key(%s) with the table's own key is not SAME", k.c_str());
                break; }
            case 6: {                            // each
                what = "each"; EachArg a; frt_h_each(h, each_cb, &a);
                size_t n = 0; for (auto &x : a.seen) { n += x.second; if (kind != INT) CHECK(x.second == 1, "hash", "each visits an entry twice"); }
                CHECK(n == m.size(), "hash", "each visits %zu entries of %zu", n, m.size());
                for (auto &e : m) { bool f = false; for (auto &x : a.seen) if ((kind == INT || x.first.first == e.second.key) && x.first.second == e.second.val) f = true; CHECK(f, "hash", "each misses %s", e.first.c_str()); }
                break; }
            default: {                           // clone
                if (!s.chance(1, 2)) break;
                what = "clone"; c.t("clone");
                bool deep = own || s.chance(1, 2);
                FrtHash *q = frt_h_clone(h, deep && kind != INT ? (kind == STR ? (frt_h_clone_ft)cl_key : (frt_h_clone_ft)cl_val) : NULL, deep ? cl_val : NULL);
                CHECK(q->size == (int)m.size(), "clone", "the clone has %d entries instead of %zu", q->size, m.size());
                for (unsigned long x = 0; x < space; x++) { unsigned long xv = kind == INT ? x << shift : x; auto j = m.find(name(xv)); Obj *r = (Obj *)(kind == INT ? frt_h_get_int(q, xv) : frt_h_get(q, probe(xv)));
                    if (j == m.end()) CHECK(!r, "clone", "the clone has %s", name(xv).c_str()); else CHECK(r && (deep ? r != j->second.val && r->v == j->second.val->v : r == j->second.val), "clone", "the clone lacks %s", name(xv).c_str()); }
                if (own) { size_t before = 0; for (auto o : objs) before += o->freed; frt_h_destroy(q); size_t after = 0; for (auto o : objs) after += o->freed; CHECK(after == before + m.size() * (kind == INT ? 1 : 2), "clone", "destroying the clone freed %zu objects", after - before);
                    for (auto &e : m) { CHECK(!e.second.val->freed, "clone", "destroying the clone freed an element of the original"); }
                    dead.clear(); for (auto o : objs) if (o->freed) dead.insert(o->id); }
                else frt_h_destroy(q);
                break; }
        }
        CHECK(h->size == (int)m.size(), "hash", "after %s the size is %d instead of %zu", what.c_str(), h->size, m.size());
    }
    for (auto &e : m) { void *r = kind == INT ? frt_h_get_int(h, strtoul(e.first.c_str(), NULL, 10)) : frt_h_get(h, e.second.key); CHECK(r == e.second.val, "hash", "at the end get(%s) is wrong", e.first.c_str()); }
    same_freed("the history", dead);
    if (own) for (auto &e : m) freed(e.second, true, true);
    frt_h_destroy(h); same_freed("destroy", dead); objs_reset();
    c.nontrivial = sets > 2 && dels > 0; c.label("hash");
}

// ---------------------------------------------------------------- hash set
static void t_set(Ctx &c)
{
    Src &s = c.src; objs_reset();
    enum { STR, PTR, CUS } kind = (decltype(kind))s.draw(3); h_weak = s.draw(6);
    bool own = s.chance(2, 3);
    auto mk = [&] { return kind == STR ? frt_hs_new_str(own ? str_free : NULL) : kind == PTR ? frt_hs_new_ptr(own ? obj_free : NULL) : frt_hs_new(o_hash, o_eq, own ? obj_free : NULL); };
    FrtHashSet *h = mk(); c.t("%s set", kind == STR ? "string" : kind == PTR ? "pointer" : "object");
    std::vector<Obj *> m, pool; std::set<int> dead; uint32_t space = s.pick(std::vector<uint32_t>{2, 5, 20, 70});
    auto nm = [&](unsigned long v) { return kind == STR ? skeys()[v % skeys().size()] : std::to_string(v); };
    auto at = [&](Obj *o) -> void * { return kind == STR ? (void *)o->s : (void *)o; };
    auto eq = [&](Obj *a, Obj *b) { return kind == STR ? !strcmp(a->s, b->s) : kind == PTR ? a == b : a->v == b->v; };
    auto find = [&](Obj *o) { for (size_t i = 0; i < m.size(); i++) if (eq(m[i], o)) return (int)i; return -1; };
    auto fresh = [&] { unsigned long v = s.draw(space); Obj *o = obj(v, nm(v)); return o; };
    auto live = [&]() -> Obj * { std::vector<Obj *> l; for (auto o : pool) if (!o->freed) l.push_back(o); return l.empty() ? NULL : s.pick(l); };
    auto check = [&](FrtHashSet *x, const std::vector<Obj *> &w, const char *what) {
        CHECK(x->size == (int)w.size(), "set", "after %s the size is %d instead of %zu", what, x->size, w.size());
        size_t i = 0; FrtHashSetEntry *prev = NULL;
        for (auto e = x->first; e; prev = e, e = e->next, i++) { CHECK(i < w.size() && e->elem == at(w[i]), "set", "after %s element %zu in insertion order is wrong", what, i); CHECK(e->prev == prev, "set", "after %s the list is not linked back", what); }
        CHECK(i == w.size() && x->last == prev, "set", "after %s the list has %zu elements instead of %zu", what, i, w.size()); };
    uint32_t rem = 0, dup = 0;
    for (uint32_t i = 4 + s.geo(c.thorough ? 300 : 120, 97); i; i--) {
        Obj *o = s.chance(1, 3) ? live() : NULL; if (!o) { o = fresh(); pool.push_back(o); }
        int j = find(o); std::string what;
        switch (s.weighted({8, 3, 4, 4, 3, 1, 1})) {
            case 0: { what = fmt("add(%s)", o->s[0] ? o->s : std::to_string(o->v).c_str()); c.t("%s", what.c_str()); FrtHashKeyStatus r = frt_hs_add(h, at(o)); int want = j < 0 ? FRT_HASH_KEY_DOES_NOT_EXIST : m[j] == o ? FRT_HASH_KEY_SAME : FRT_HASH_KEY_EQUAL;
                CHECK((int)r == want, "set", "%s returned %d instead of %d", what.c_str(), (int)r, want); if (j < 0) m.push_back(o); else { dup++; if (want == FRT_HASH_KEY_EQUAL && own) dead.insert(o->id); } break; }
            case 1: { what = fmt("add_safe(%s)", o->s); c.t("%s", what.c_str()); int r = frt_hs_add_safe(h, at(o)); CHECK(!!r == (j < 0 || m[j] == o), "set", "%s returned %d", what.c_str(), r); if (j < 0) m.push_back(o); break; }
            case 2: { what = fmt("del(%s)", o->s); c.t("%s", what.c_str()); int r = frt_hs_del(h, at(o)); CHECK(!!r == (j >= 0), "set", "%s returned %d", what.c_str(), r); if (j >= 0) { if (own) dead.insert(m[j]->id); m.erase(m.begin() + j); rem++; } break; }
            case 3: { what = fmt("rem(%s)", o->s); c.t("%s", what.c_str()); void *r = frt_hs_rem(h, at(o)); CHECK(r == (j < 0 ? NULL : at(m[j])), "set", "%s returned the wrong element", what.c_str()); if (j >= 0) { m.erase(m.begin() + j); rem++; } break; }
            case 4: { what = "exists"; int r = frt_hs_exists(h, at(o)); int want = j < 0 ? FRT_HASH_KEY_DOES_NOT_EXIST : m[j] == o ? FRT_HASH_KEY_SAME : FRT_HASH_KEY_EQUAL; CHECK(r == want, "set", "exists returned %d instead of %d", r, want);
                CHECK(frt_hs_orig(h, at(o)) == (j < 0 ? NULL : at(m[j])), "set", "orig returned the wrong element"); break; }
            case 5: { what = "merge"; c.t("merge"); FrtHashSet *g = mk(); std::vector<Obj *> w;
                for (uint32_t n = s.geo(12, 80); n; n--) { Obj *x = fresh(); pool.push_back(x); bool in = false; for (auto y : w) if (eq(x, y)) in = true; frt_hs_add(g, at(x)); if (in) { if (own) dead.insert(x->id); } else w.push_back(x); }
                check(g, w, "filling the other set"); CHECK(frt_hs_merge(h, g) == h, "set", "merge did not return the set");
                for (auto x : w) { if (find(x) < 0) m.push_back(x); else { dup++; if (own) dead.insert(x->id); } } break; }
            default: if (!s.chance(1, 3)) continue; what = "clear"; c.t("clear"); frt_hs_clear(h); if (own) for (auto x : m) dead.insert(x->id); m.clear(); break;
        }
        check(h, m, what.c_str()); same_freed(what.c_str(), dead);
    }
    if (s.chance(1, 3)) { frt_hs_free(h); same_freed("free", dead); } else { frt_hs_destroy(h); if (own) for (auto x : m) dead.insert(x->id); same_freed("destroy", dead); }
    objs_reset(); c.nontrivial = rem > 0 && dup > 0; c.label("set");
}

// ---------------------------------------------------------------- bit vector
struct Bits {               // an infinite sequence of bits: exc are the positions that differ from `ones`
    bool ones = false; std::set<int> exc;
    bool get(int i) const { return ones != (exc.count(i) != 0); }
    void put(int i, bool v) { if (v == ones) exc.erase(i); else exc.insert(i); }
};
static Bits bop(const Bits &a, const Bits &b, int op)
{
    auto f = [&](bool x, bool y) { return op == 0 ? x && y : op == 1 ? x || y : x != y; };
    Bits r; r.ones = f(a.ones, b.ones); std::set<int> all(a.exc); all.insert(b.exc.begin(), b.exc.end()); for (int i : all) r.put(i, f(a.get(i), b.get(i))); return r;
}
static void bcheck(FrtBitVector *v, const Bits &m, const char *what)
{
    CHECK(v->count == (int)m.exc.size(), "count", "after %s the count is %d instead of %zu", what, v->count, m.exc.size());
    int top = m.exc.empty() ? -1 : *m.exc.rbegin();
    CHECK(v->size > top, "size", "after %s the size is %d though bit %d differs from the rest", what, v->size, top);
    CHECK(!!v->extends_as_ones == m.ones, "bits", "after %s the vector extends as %d", what, (int)v->extends_as_ones);
    for (int i = 0; i < v->size + 70; i++) CHECK(!!frt_bv_get(v, i) == m.get(i), "bits", "after %s bit %d is %d", what, i, frt_bv_get(v, i));
}
static void bscan(Src &s, FrtBitVector *v, const Bits &m)
{
    frt_bv_scan_reset(v); std::vector<int> got; int b; size_t n = 0;
    while ((b = m.ones ? frt_bv_scan_next_unset(v) : frt_bv_scan_next(v)) >= 0) { got.push_back(b); CHECK(++n < 100000, "scan", "the scan does not end"); }
    CHECK(got == std::vector<int>(m.exc.begin(), m.exc.end()), "scan", "scanning yields %zu bits instead of %zu", got.size(), m.exc.size());
    for (int k = 0; k < 4; k++) { int from = k == 0 ? v->size : k == 1 ? std::max(0, v->size - 1) : (int)s.draw(v->size + 100); auto it = m.exc.lower_bound(from);
        int r = m.ones ? frt_bv_scan_next_unset_from(v, from) : frt_bv_scan_next_from(v, from); CHECK(r == (it == m.exc.end() ? -1 : *it), "scan", "scanning from %d yields %d instead of %d", from, r, it == m.exc.end() ? -1 : *it);
        // the opposite scan only promises a correct, first bit inside the vector
        int q = m.ones ? frt_bv_scan_next_from(v, from) : frt_bv_scan_next_unset_from(v, from);
        if (q >= 0) CHECK(q >= from && !m.exc.count(q), "scan", "the opposite scan from %d yields %d", from, q);
        for (int i = from; i < (q < 0 ? v->size : q); i++) CHECK(m.exc.count(i), "scan", "the opposite scan from %d passes over %d", from, i); }
}
static void t_bits(Ctx &c)
{
    Src &s = c.src; std::vector<FrtBitVector *> v; std::vector<Bits> m; uint32_t span = s.pick(std::vector<uint32_t>{1, 33, 64, 100, 260, 700, 3000}), ops = 0, negs = 0;
    auto bit = [&] { return s.chance(1, 3) ? (int)s.pick(std::vector<uint32_t>{0, 1, 7, 8, 31, 32, 63, 64, 95, 96, 127, 128, 255, 256, 511, 512}) : (int)s.draw(span); };
    for (uint32_t i = s.range(2, 3); i; i--) { int k = s.draw(3); v.push_back(k == 0 ? frt_bv_new() : frt_bv_new_capa(k == 1 ? 0 : (int)s.draw(span))); m.push_back(Bits()); }
    { uint32_t cap = 1 + s.draw(span); v.push_back(frt_bv_new_capa(cap)); Bits b; for (uint32_t i = 0; i < cap; i++) if (s.chance(1, 4)) { frt_bv_set_fast(v.back(), i); b.put(i, true); if (s.chance(1, 40)) break; } m.push_back(b); c.t("vector %zu filled with set_fast up to %u", v.size() - 1, cap); }
    for (uint32_t st = 4 + s.geo(c.thorough ? 200 : 100, 97); st; st--) {
        size_t i = s.draw(v.size()), j = s.draw(v.size()); std::string what;
        switch (s.weighted({10, 5, 6, 3, 4, 3, 1, 2, 1, 3})) {
            case 0: { int b = bit(); what = fmt("set(v%zu, %d)", i, b); c.t("%s", what.c_str()); frt_bv_set(v[i], b); m[i].put(b, true); break; }
            case 1: { int b = bit(); what = fmt("unset(v%zu, %d)", i, b); c.t("%s", what.c_str()); frt_bv_unset(v[i], b); m[i].put(b, false); break; }
            case 2: { int op = s.draw(3); what = fmt("v%zu = v%zu %c v%zu", i, i, "&|^"[op], j); c.t("%s", what.c_str()); Bits r = bop(m[i], m[j], op); FrtBitVector *q = op == 0 ? frt_bv_and_x(v[i], v[j]) : op == 1 ? frt_bv_or_x(v[i], v[j]) : frt_bv_xor_x(v[i], v[j]); CHECK(q == v[i], "bits", "an in-place operation returned another vector"); m[i] = r; ops++; break; }
            case 3: { int op = s.draw(3); size_t k = s.draw(v.size()); what = fmt("v%zu = new v%zu %c v%zu", k, i, "&|^"[op], j); c.t("%s", what.c_str()); FrtBitVector *q = op == 0 ? frt_bv_and(v[i], v[j]) : op == 1 ? frt_bv_or(v[i], v[j]) : frt_bv_xor(v[i], v[j]); Bits r = bop(m[i], m[j], op); bcheck(v[i], m[i], "use as an operand"); bcheck(v[j], m[j], "use as an operand"); frt_bv_destroy(v[k]); v[k] = q; m[k] = r; i = k; ops++; break; }
            case 4: { what = fmt("not_x(v%zu)", i); c.t("%s", what.c_str()); frt_bv_not_x(v[i]); m[i].ones = !m[i].ones; negs++; break; }
            case 5: { what = fmt("v%zu = not(v%zu)", j, i); c.t("%s", what.c_str()); FrtBitVector *q = frt_bv_not(v[i]); Bits r = m[i]; r.ones = !r.ones; frt_bv_destroy(v[j]); v[j] = q; m[j] = r; i = j; negs++; break; }
            case 6: what = fmt("clear(v%zu)", i); c.t("%s", what.c_str()); frt_bv_clear(v[i]); m[i] = Bits(); break;
            case 7: what = fmt("recount(v%zu)", i); c.t("%s", what.c_str()); CHECK(frt_bv_recount(v[i]) == (int)m[i].exc.size(), "count", "recount of v%zu returned %d instead of %zu", i, v[i]->count, m[i].exc.size()); break;
            case 8: { int b = bit(); bool x = s.chance(1, 2); what = fmt("set_value(v%zu, %d, %d)", i, b, (int)x); c.t("%s", what.c_str()); frt_bv_set_value(v[i], b, x); m[i].put(b, x); break; }
            default: what = fmt("scan(v%zu)", i); bscan(s, v[i], m[i]); break;
        }
        bcheck(v[i], m[i], what.c_str());
        bool same = m[i].ones == m[j].ones && m[i].exc == m[j].exc;
        CHECK(!!frt_bv_eq(v[i], v[j]) == same, "eq", "after %s v%zu and v%zu compare as %sequal", what.c_str(), i, j, same ? "un" : "");
        CHECK(!same || frt_bv_hash(v[i]) == frt_bv_hash(v[j]), "hash", "after %s the equal vectors v%zu and v%zu have different hashes", what.c_str(), i, j);
    }
    // the same bits set in another order and representation
    for (size_t i = 0; i < v.size(); i++) {
        bscan(s, v[i], m[i]);
        FrtBitVector *q = frt_bv_new_capa(s.draw(300)); std::vector<int> b(m[i].exc.begin(), m[i].exc.end()); for (size_t k = b.size(); k > 1; k--) std::swap(b[k - 1], b[s.draw(k)]);
        for (int x : b) frt_bv_set(q, x);
        if (s.chance(1, 2)) frt_bv_unset(q, (b.empty() ? 0 : *m[i].exc.rbegin()) + 1 + s.draw(200));
        if (m[i].ones) frt_bv_not_x(q);
        CHECK(frt_bv_eq(q, v[i]) && frt_bv_eq(v[i], q), "eq", "v%zu is not equal to a new vector with the same bits", i);
        CHECK(frt_bv_hash(q) == frt_bv_hash(v[i]), "hash", "v%zu and a new vector with the same bits have different hashes", i);
        frt_bv_destroy(q);
    }
    for (auto x : v) frt_bv_destroy(x);
    c.nontrivial = ops > 0 && negs > 0; c.label("bits");
}

// ---------------------------------------------------------------- priority queue
static int o_lt(const void *a, const void *b) { return ((const Obj *)a)->v < ((const Obj *)b)->v; }
static void t_pq(Ctx &c)
{
    Src &s = c.src; objs_reset(); int capa = s.pick(std::vector<int>{0, 1, 2, 3, 5, 10, 126, 127, 128, 129, 200, 300}); bool own = s.chance(2, 3); uint32_t space = s.pick(std::vector<uint32_t>{1, 3, 10, 1000});
    FrtPriorityQueue *q = frt_pq_new(capa, (frt_lt_ft)o_lt, own ? obj_free : NULL); std::vector<Obj *> m; std::set<int> dead; c.t("queue of capacity %d", capa);
    auto least = [&](const std::vector<Obj *> &w) { unsigned long x = ~0UL; for (auto o : w) x = std::min(x, o->v); return x; };
    auto drop = [&](std::vector<Obj *> &w, void *p) { for (size_t i = 0; i < w.size(); i++) if (w[i] == p) { w.erase(w.begin() + i); return true; } return false; };
    auto pop = [&](FrtPriorityQueue *x, std::vector<Obj *> &w) { Obj *o = (Obj *)frt_pq_pop(x); if (w.empty()) { CHECK(!o, "pq", "popping an empty queue gave an element"); return; } unsigned long want = least(w); CHECK(o && drop(w, o), "pq", "pop gave something that is not in the queue"); CHECK(o->v == want, "pq", "pop gave %lu though %lu is in the queue", o->v, want); };
    uint32_t pops = 0, repl = 0, steps = 4 + s.geo(c.thorough ? 900 : 400, 99);
    for (uint32_t i = 0; i < steps; i++) {
        switch (s.weighted({10, 4, 4, 1, 2, 1})) {
            case 0: { Obj *o = obj(s.draw(space)); unsigned long lo = least(m); c.t("insert %lu", o->v); int r = frt_pq_insert(q, o);
                if ((int)m.size() < capa) { CHECK(r == FRT_PQ_ADDED, "pq", "insert into a queue that is not full returned %d", r); m.push_back(o); }
                else if (!m.empty() && lo < o->v) { CHECK(r == FRT_PQ_INSERTED, "pq", "inserting %lu into a full queue with least %lu returned %d", o->v, lo, r); repl++;
                    // one of the least elements was dropped
                    Obj *gone = NULL; std::set<void *> in; for (int k = 1; k <= q->size; k++) in.insert(q->heap[k]); m.push_back(o); for (auto x : m) if (!in.count(x)) { CHECK(!gone, "pq", "two elements were lost"); gone = x; }
                    CHECK(gone && gone->v == lo, "pq", "the element dropped is not the least"); drop(m, gone); if (own) dead.insert(gone->id); }
                else { CHECK(r == FRT_PQ_DROPPED, "pq", "inserting %lu into a full queue with least %lu returned %d", o->v, lo, r); if (own) dead.insert(o->id); }
                break; }
            case 1: if ((int)m.size() >= capa && !s.chance(1, 3)) break; { Obj *o = obj(s.draw(space)); c.t("push %lu", o->v); frt_pq_push(q, o); m.push_back(o); } break;
            case 2: c.t("pop"); pop(q, m); pops++; break;
            case 3: { c.t("clone"); FrtPriorityQueue *x = frt_pq_clone(q); std::vector<Obj *> w = m; for (uint32_t k = s.draw((uint32_t)w.size() + 2); k; k--) pop(x, w); if (s.chance(1, 2)) frt_pq_push(x, obj(0)); frt_pq_free(x); break; }
            case 4: if (!m.empty()) { Obj *o = (Obj *)frt_pq_top(q); o->v = s.chance(1, 2) ? o->v + s.draw(space) : s.draw(space); c.t("top becomes %lu", o->v); frt_pq_down(q); } break;
            default: if (s.chance(1, 8)) { c.t("clear"); frt_pq_clear(q); if (own) for (auto o : m) dead.insert(o->id); m.clear(); } break;
        }
        CHECK(q->size == (int)m.size(), "pq", "the size is %d instead of %zu", q->size, m.size());
        CHECK((frt_pq_full(q) != 0) == ((int)m.size() == capa), "pq", "full is wrong");
        Obj *t = (Obj *)frt_pq_top(q); CHECK(m.empty() ? !t : t && t->v == least(m), "pq", "the top is not the least element");
    }
    same_freed("the history", dead);
    if (s.chance(1, 2)) { while (!m.empty()) pop(q, m); frt_pq_free(q); } else { frt_pq_destroy(q); if (own) for (auto o : m) dead.insert(o->id); }
    same_freed("the end", dead); objs_reset(); c.nontrivial = pops > 0 && (repl > 0 || steps > 20); c.label("pq");
}

// ---------------------------------------------------------------- array
struct Odd { char b[12]; };
static void t_ary(Ctx &c)
{
    Src &s = c.src; objs_reset(); uint32_t rem = 0, grow = 0;
    if (s.chance(1, 4)) {                        // arrays of values
        int cap = s.draw(20); Odd *a = frt_ary_new_type_capa(Odd, cap); std::vector<std::string> m; c.t("array of 12-byte values, capacity %d", cap);
        for (uint32_t i = 3 + s.geo(80, 95); i; i--) { int sz = s.chance(1, 5) ? (int)(m.size() + s.draw(30)) : (int)m.size(); frt_ary_resize(a, sz); grow++; m.resize(std::max<size_t>(m.size(), sz + 1), std::string(12, '\0')); for (int k = 0; k < 12; k++) { char ch = (char)s.draw(256); a[sz].b[k] = ch; m[sz][k] = ch; } c.t("resize to %d", sz); CHECK(frt_ary_sz(a) == (int)m.size() && frt_ary_type_size(a) == 12, "ary", "size %d instead of %zu", frt_ary_sz(a), m.size());
            for (size_t k = 0; k < m.size(); k++) CHECK(!memcmp(a[k].b, m[k].data(), 12), "ary", "element %zu changed", k); }
        frt_ary_free(a); c.nontrivial = grow > 4; c.label("ary.values"); return;
    }
    int cap = s.pick(std::vector<int>{0, 0, 1, 2, 7, 8, 9, 30}); void **a = cap ? frt_ary_new_capa(cap) : frt_ary_new(); std::vector<Obj *> m; std::set<int> dead; c.t("array of capacity %d", cap);
    for (uint32_t i = 4 + s.geo(c.thorough ? 300 : 120, 97); i; i--) {
        switch (s.weighted({8, 3, 3, 3, 3, 3, 3, 2})) {
            case 0: { Obj *o = obj(i); c.t("push"); frt_ary_push(a, o); m.push_back(o); grow++; break; }
            case 1: { if (m.empty()) break; c.t("pop"); CHECK(frt_ary_pop(a) == m.back(), "ary", "pop gave the wrong element"); m.pop_back(); rem++; break; }
            case 2: { Obj *o = obj(i); c.t("unshift"); frt_ary_unshift(a, o); m.insert(m.begin(), o); grow++; break; }
            case 3: { if (m.empty()) break; c.t("shift"); CHECK(frt_ary_shift(a) == m[0], "ary", "shift gave the wrong element"); m.erase(m.begin()); rem++; break; }
            case 4: { int k = (int)s.draw((uint32_t)m.size() + 2) - (s.chance(1, 10) ? 3 : 0); c.t("remove(%d)", k); void *r = frt_ary_remove(a, k); bool in = k >= 0 && k < (int)m.size(); CHECK(r == (in ? m[k] : NULL), "ary", "remove(%d) gave the wrong element", k); if (in) { m.erase(m.begin() + k); rem++; } break; }
            case 5: { int k = (int)s.draw((uint32_t)m.size() + 5); if (s.chance(1, 4)) k = -1 - (int)s.draw((uint32_t)m.size() + 3); Obj *o = obj(i); c.t("set(%d)", k); int n = k < 0 ? k + (int)m.size() : k;
                int rc = frt_try([&] { frt_ary_set(a, k, o); }); CHECK((rc != 0) == (n < 0), "ary", "set(%d) on %zu elements gave status %d", k, m.size(), rc); if (n >= 0) { if (n >= (int)m.size()) m.resize(n + 1, NULL); m[n] = o; } break; }
            case 6: { int k = (int)s.draw((uint32_t)m.size() + 3); if (s.chance(1, 3)) k = -1 - (int)s.draw((uint32_t)m.size() + 3); int n = k < 0 ? k + (int)m.size() : k; CHECK(frt_ary_get(a, k) == (n >= 0 && n < (int)m.size() ? m[n] : NULL), "ary", "get(%d) is wrong", k); break; }
            default: { if (m.empty()) break; int k = (int)s.draw((uint32_t)m.size()); if (!m[k]) break; c.t("delete(%d)", k); frt_ary_delete_i(a, k, obj_free); dead.insert(m[k]->id); m.erase(m.begin() + k); rem++; }
        }
        CHECK(frt_ary_sz(a) == (int)m.size(), "ary", "the size is %d instead of %zu", frt_ary_sz(a), m.size());
        for (size_t k = 0; k < m.size(); k++) CHECK(a[k] == m[k], "ary", "element %zu is wrong", k);
        if (!m.empty()) CHECK(frt_ary_last(a) == m.back(), "ary", "the last element is wrong");
        CHECK(frt_ary_capa(a) >= frt_ary_sz(a), "ary", "the capacity is below the size");
    }
    same_freed("the history", dead);
    bool nul = false; for (auto o : m) nul |= !o;
    if (!nul && s.chance(1, 2)) { frt_ary_destroy_i(a, obj_free); for (auto o : m) dead.insert(o->id); same_freed("destroy", dead); } else frt_ary_free(a);
    objs_reset(); c.nontrivial = rem > 0 && grow > 3; c.label("ary");
}

// ---------------------------------------------------------------- memory pool and symbols
static void t_mp(Ctx &c)
{
    Src &s = c.src; int chunk = s.pick(std::vector<int>{8, 16, 64, 100, 65536}); FrtMemoryPool *mp = chunk == 65536 ? frt_mp_new() : frt_mp_new_capa(chunk, 1 + s.draw(4)); c.t("pool of %d-byte chunks", chunk);
    uint32_t resets = 0, big = 0;
    for (int round = 0; round < 1 + (int)s.geo(4, 60); round++) {
        std::vector<std::pair<char *, std::string>> m;
        for (uint32_t i = 2 + s.geo(60, 93); i; i--) {
            uint32_t n = s.chance(1, 6) ? (uint32_t)chunk - 1 + s.draw(4) : s.chance(1, 12) ? (uint32_t)chunk * (1 + s.draw(3)) + s.draw(50) : s.draw(std::min(chunk, 200)); if ((int)n > chunk) big++;
            std::string d; for (uint32_t k = 0; k < n; k++) d += (char)('a' + (i * 7 + k) % 26); char *p; c.t("alloc %u", n);
            switch (s.draw(4)) { case 0: p = frt_mp_strdup(mp, d.c_str()); d += '\0'; break; case 1: p = frt_mp_strndup(mp, (d + "zz").c_str(), (int)n); d += '\0'; break; case 2: p = (char *)frt_mp_memdup(mp, d.data(), (int)n); break; default: p = (char *)frt_mp_alloc(mp, (int)n); memcpy(p, d.data(), n); }
            m.push_back({p, d});
            for (auto &x : m) CHECK(!memcmp(x.first, x.second.data(), x.second.size()), "mp", "a block changed when another was allocated");
        }
        c.t("reset"); frt_mp_reset(mp); resets++; CHECK(frt_mp_used(mp) == 0, "mp", "%d bytes used after reset", frt_mp_used(mp));
    }
    frt_mp_destroy(mp); c.nontrivial = big > 0 || resets > 1; c.label("mempool");
}
static void t_sym(Ctx &c)
{
    Src &s = c.src; std::map<std::string, FrtSymbol> m; uint32_t again = 0;
    for (uint32_t i = 5 + s.geo(200, 98); i; i--) {
        std::string k = s.chance(1, 2) ? s.pick(skeys()) : fmt("s%u", s.draw(400)); char *d = frt_estrdup(k.c_str()); FrtSymbol y;
        if (s.chance(1, 2)) { y = frt_intern(d); CHECK((const char *)y != d, "sym", "the symbol is the caller's string"); memset(d, 'x', k.size()); free(d); } else y = frt_intern_and_free(d);
        CHECK(k == FRT_S(y), "sym", "the symbol of \"%s\" reads \"%s\"", k.c_str(), FRT_S(y));
        if (m.count(k)) { again++; CHECK(m[k] == y, "sym", "\"%s\" has two symbols", k.c_str()); } else { for (auto &x : m) CHECK(x.second != y, "sym", "\"%s\" and \"%s\" share a symbol", k.c_str(), x.first.c_str()); m[k] = y; }
    }
    for (auto &x : m) CHECK(x.first == FRT_S(x.second), "sym", "the symbol of \"%s\" changed to \"%s\"", x.first.c_str(), FRT_S(x.second));
    c.nontrivial = again > 0; c.label("symbols");
}

// ---------------------------------------------------------------- multi mapper
static std::string ref_map(const std::vector<std::pair<std::string, std::string>> &p, const std::string &t)
{
    std::string out; size_t base = 0;            // the text since the last replacement is t[base..]
    for (size_t i = 0; i < t.size(); i++) {
        out += t[i]; int best = -1;
        for (int k = 0; k < (int)p.size(); k++) { size_t n = p[k].first.size(); if (n <= i + 1 - base && t.compare(i + 1 - n, n, p[k].first) == 0 && (best < 0 || n >= p[best].first.size())) best = k; }
        if (best >= 0) { out.resize(out.size() - p[best].first.size()); out += p[best].second; base = i + 1; }
    }
    return out;
}
static void t_map(Ctx &c)
{
    Src &s = c.src; FrtMultiMapper *mm = frt_mulmap_new(); std::vector<std::pair<std::string, std::string>> p; uint32_t alpha = s.range(2, 5), hits = 0; bool high = s.chance(1, 4);
    auto word = [&](uint32_t max, bool empty) { std::string w; for (uint32_t n = (empty ? 0 : 1) + s.geo(max, 55); n; n--) w += (char)((high ? 0xfa : 'a') + s.draw(alpha)); return w; };
    auto add = [&] { std::string a = s.chance(1, 20) ? word(60, false) + std::string(s.draw(60), (char)(high ? 0xfa : 'a')) : word(5, false), b = s.chance(1, 10) ? std::string(s.draw(1100), 'R') : s.chance(1, 2) ? std::string(s.geo(4), 'X') : word(6, true); p.push_back({a, b}); c.t("%s -> %s", esc(a).c_str(), esc(b).c_str()); frt_mulmap_add_mapping(mm, a.c_str(), b.c_str()); };
    for (uint32_t n = s.chance(1, 10) ? 130 : s.geo(12, 75); n; n--) add();
    CHECK(frt_try([&] { frt_mulmap_add_mapping(mm, "", "x"); }) == FRT_ARG_ERROR, "map", "an empty pattern is accepted");
    if (s.chance(1, 2)) frt_mulmap_compile(mm);
    for (uint32_t n = 1 + s.geo(8, 75); n; n--) {
        std::string t; for (uint32_t k = s.geo(30, 88); k; k--) t += !p.empty() && s.chance(1, 3) ? s.pick(p).first : word(3, false);
        std::string want = ref_map(p, t); if (want != t) hits++;
        std::vector<char> in(t.begin(), t.end()); in.push_back(0); size_t room = 0; for (auto &x : p) room = std::max(room, x.second.size());
        size_t capa = (room + 1) * (t.size() + 1) + 1; std::vector<char> to(capa); c.t("map %s", esc(t, 200).c_str());
        int len = frt_mulmap_map_len(mm, to.data(), in.data(), (int)capa);
        CHECK(len == (int)want.size() && !memcmp(to.data(), want.c_str(), want.size() + 1), "map", "%s maps to %s instead of %s", esc(t, 200).c_str(), esc(std::string(to.data(), len), 200).c_str(), esc(want, 200).c_str());
        { std::vector<char> t2(capa); char *r = frt_mulmap_map(mm, t2.data(), in.data(), (int)capa); CHECK(r == t2.data() && want == r, "map", "mulmap_map gives %s instead of %s", esc(r, 200).c_str(), esc(want, 200).c_str()); }
        char *d = frt_mulmap_dynamic_map(mm, in.data()); CHECK(want == d, "map", "the dynamic mapping of %s is %s instead of %s", esc(t, 200).c_str(), esc(d, 200).c_str(), esc(want, 200).c_str()); free(d);
        uint32_t small = 1 + s.draw((uint32_t)want.size() + 3); char *sm = (char *)malloc(small); len = frt_mulmap_map_len(mm, sm, in.data(), (int)small); CHECK(len < (int)small && (int)strlen(sm) == len, "map", "mapping into %u bytes gives length %d", small, len); free(sm);
        if (s.chance(1, 6)) add();
    }
    frt_mulmap_destroy(mm); c.nontrivial = hits > 0; c.label("mapper");
}

static void p25(Ctx &c)
{
    switch (c.src.weighted({5, 3, 6, 3, 3, 1, 1, 3})) { case 0: t_hash(c); break; case 1: t_set(c); break; case 2: t_bits(c); break; case 3: t_pq(c); break; case 4: t_ary(c); break; case 5: t_mp(c); break; case 6: t_sym(c); break; default: t_map(c); }
}
const Prop the_props[] = {
    {"P25", p25, 500000, 20000000, "one container (hash table over strings, integers or objects with weak hashes; hash set; bit vectors with boolean operations; priority queue; array; memory pool; symbols; multi-mapper) driven through a random operation history and compared with its model, including which elements were freed; non-trivial: elements were removed or replaced as well as added (bit vectors: operations and negations; mapper: something was replaced)", "exploration", false, 60},
    {nullptr, nullptr, 0, 0, nullptr, nullptr, false, 0}};
