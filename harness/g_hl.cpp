// P23: highlighting compared with a brute-force account of what matches where.
#include "sq.hpp"

extern "C" const char *__asan_default_options() { return "malloc_fill_byte=0:max_malloc_fill_size=65536"; }   // uninitialised memory looks plausible
static FrtSymbol sy(const std::string &s) { return frt_intern(s.c_str()); }
typedef std::pair<int, int> PR;                 // positions, both inclusive
struct Exp { std::vector<PR> sure, maybe; bool some = false; bool countable = true; };   // some: a loose phrase must be marked somewhere

static void collect(SX &x, const QN &q, const std::string &field, size_t i, Exp &e)
{
    auto term = [&](const std::string &t) { if (q.field == field) if (auto p = plist(x, field, t, i)) for (int a : *p) e.sure.push_back({a, a}); };
    switch (q.k) {
        case Q_TERM: term(q.term); break;
        case Q_BOOL: for (size_t k = 0; k < q.sub.size(); k++) if (q.occ[k] != 2) collect(x, q.sub[k], field, i, e); break;
        case Q_WILD: if (q.term.find_first_of("*?") == std::string::npos) { term(q.term); break; } /* fall through */
        case Q_FUZZY: if (q.k == Q_FUZZY && q.pre_len >= (int)q.term.size()) { term(q.term); break; } /* fall through */
        case Q_MULTI: case Q_PREFIX: e.countable = false; if (q.field == field) for (auto &t : expand(x, q)) term(t.first); break;
        case Q_RANGE: case Q_TRANGE: {
            if (q.field != field) break;
            auto it = x.m.live[i].d->inv.find(field); if (it == x.m.live[i].d->inv.end()) break;
            for (auto &kv : it->second.postings) if (range_term(q, kv.first)) term(kv.first);
            break;
        }
        case Q_PHRASE: {
            if (q.field != field || q.pos.empty()) break;
            if (q.pos.size() == 1) { e.countable = e.countable && q.pos[0].size() == 1; for (auto &t : q.pos[0]) term(t); break; }
            std::vector<int> off; auto L = phrase_lists(x, q, i, off);
            for (auto &v : L) if (v.empty()) return;
            if (!q.slop) {
                int lo = *std::min_element(off.begin(), off.end()), hi = *std::max_element(off.begin(), off.end());
                for (int b : L[0]) { bool all = true; for (auto &v : L) all = all && std::binary_search(v.begin(), v.end(), b); if (all) e.sure.push_back({b + lo, b + hi}); }
                break;
            }
            // loose: any window with one occurrence of each within the slop may be marked
            e.countable = false;
            for (auto &v0 : L) for (int s : v0) {
                bool all = true; int mn = INT_MAX, mx = INT_MIN;
                for (size_t k = 0; k < L.size(); k++) {
                    bool any = false;
                    for (int p : L[k]) if (p >= s && p - s <= q.slop) { any = true; mn = std::min(mn, p + off[k]); mx = std::max(mx, p + off[k]); }
                    all = all && any;
                }
                if (all) { e.maybe.push_back({mn, mx}); e.some = true; }
            }
            break;
        }
        case Q_ALL: case Q_CONST: case Q_FILT: break;
        default: {
            if (q.field != field) break;
            e.countable = false;
            std::set<std::string> ts; span_terms(x, q, ts);
            auto sp = spans_of(x, q, i);
            for (auto &t : ts) if (auto p = plist(x, field, t, i)) for (int a : *p) for (auto &s : sp) if (a >= s.first && a < s.second) { e.sure.push_back({a, a}); break; }
        }
    }
}
struct MR { long s, e; double n; };             // byte range and how many matches it stands for
static std::vector<MR> merged(std::vector<PR> v, const MInv &iv)
{
    std::sort(v.begin(), v.end()); std::vector<PR> o; std::vector<double> cnt;
    for (auto &r : v) if (!o.empty() && r.first <= o.back().second) { o.back().second = std::max(o.back().second, r.second); cnt.back()++; } else { o.push_back(r); cnt.push_back(1); }
    std::vector<MR> m; for (size_t i = 0; i < o.size(); i++) m.push_back({iv.offsets[o[i].first].first, iv.offsets[o[i].second].second, cnt[i]});
    return m;
}
struct Ex { std::string plain; std::vector<std::pair<long, long>> tags; bool pre = false, post = false; };   // one excerpt taken apart
static Ex take_apart(std::string s, const std::string &pre, const std::string &post, const std::string &ell)
{
    Ex x; std::string orig = s;
    if (!ell.empty() && s.compare(0, ell.size(), ell) == 0) { x.pre = true; s.erase(0, ell.size()); }
    if (!ell.empty() && s.size() >= ell.size() && s.compare(s.size() - ell.size(), ell.size(), ell) == 0) { x.post = true; s.resize(s.size() - ell.size()); }
    if (s.empty() && x.pre && !x.post) { x.pre = false; x.post = true; }        // an empty piece at the start
    bool in = false;
    for (size_t i = 0; i < s.size(); ) {
        if (s.compare(i, pre.size(), pre) == 0) { CHECK(!in, "nested", "a tag inside a tag: %s", esc(orig).c_str()); in = true; x.tags.push_back({(long)x.plain.size(), -1}); i += pre.size(); }
        else if (s.compare(i, post.size(), post) == 0) { CHECK(in, "nested", "a closing tag without an opening one: %s", esc(orig).c_str()); in = false; x.tags.back().second = (long)x.plain.size(); i += post.size(); }
        else x.plain += s[i++];
    }
    CHECK(!in, "nested", "a tag is not closed: %s", esc(orig).c_str());
    return x;
}
static std::string list(char **a) { std::string r; for (int i = 0; i < frt_ary_size(a); i++) r += fmt("%s%s", i ? " | " : "", esc(a[i]).c_str()); return "[" + r + "]"; }

struct HlHist : SHist {
    bool stdan = false; std::vector<std::string> fields{"t0", "t1", "t2", "k", "n"};
    HlHist(Ctx &c) : SHist(c) {}
    void setup_hl()
    {
        cfg = gen_cfg(c); stdan = c.src.chance(1, 3); cfg.analyzer = stdan ? A_STANDARD : A_WHITESPACE; cfg.c.max_field_length = 10000;
        auto add = [&](const char *n, FrtIndexValue iv, FrtTermVectorValue tv, FrtStoreValue st) { MField f; f.name = n; f.store = st; f.index = iv; f.tv = tv; f.boost = 1; schema.declared.push_back(f); };
        schema.dstore = FRT_STORE_YES; schema.dindex = FRT_INDEX_YES; schema.dtv = FRT_TERM_VECTOR_NO;
        FrtTermVectorValue po = FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS;
        add("uid", FRT_INDEX_UNTOKENIZED_OMIT_NORMS, FRT_TERM_VECTOR_NO, FRT_STORE_YES);
        add("t0", FRT_INDEX_YES, po, FRT_STORE_YES);
        add("t1", FRT_INDEX_YES, c.src.pick(std::vector<FrtTermVectorValue>{po, po, FRT_TERM_VECTOR_NO, FRT_TERM_VECTOR_YES, FRT_TERM_VECTOR_WITH_POSITIONS, FRT_TERM_VECTOR_WITH_OFFSETS}), c.src.chance(1, 6) ? FRT_STORE_COMPRESS : c.src.chance(1, 8) ? FRT_STORE_NO : FRT_STORE_YES);
        add("t2", FRT_INDEX_YES_OMIT_NORMS, po, FRT_STORE_YES);
        add("k", FRT_INDEX_UNTOKENIZED, po, FRT_STORE_YES);
        add("n", FRT_INDEX_UNTOKENIZED_OMIT_NORMS, po, FRT_STORE_YES);
        std::set<std::string> v; uint32_t n = 2 + c.src.geo(20, 90);
        for (uint32_t i = 0; i < n; i++) { std::string w; uint32_t l = 1 + c.src.geo(8, c.src.chance(1, 3) ? 80 : 40); for (uint32_t k = 0; k < l; k++) w += !stdan && c.src.chance(1, 25) ? std::string("\xc3\xa9") : std::string(1, (char)('a' + c.src.draw(3))); v.insert(w); }
        if (stdan) { v.insert("the"); v.insert("and"); }
        qg.words.assign(v.begin(), v.end()); qg.nums = {"0", "1", "2", "3", "7", "10", "-5", "25", "100"};
        qg.filters = false;
        init(c.src.chance(1, 12));
    }
    std::string text(uint32_t max)
    {
        Src &s = c.src; std::string r; uint32_t n = s.geo(max, max > 20 ? 97 : 85); bool plain = s.draw(2);
        auto sep = [&] { return plain ? std::string(" ") : s.pick(stdan ? std::vector<std::string>{" ", "  ", ", ", ". ", "\n", " - "} : std::vector<std::string>{" ", "  ", "\n", "\t ", "     "}); };
        if (!plain && s.chance(1, 3)) r += sep();
        for (uint32_t i = 0; i < n; i++) { if (i) r += sep(); r += s.pick(qg.words); }
        if (!plain && s.chance(1, 3)) r += sep();
        return r;
    }
    DocP hdoc()
    {
        Src &s = c.src; DocP d = std::make_shared<MDoc>(); d->uid = g.next_uid++;
        auto put = [&](const char *n, std::string v) { for (auto &f : d->fields) if (f.name == n) { f.data.push_back(v); return; } MDocField f; f.name = n; f.data.push_back(v); d->fields.push_back(f); };
        put("uid", fmt("%llu", (unsigned long long)d->uid));
        put("t0", text(60)); while (s.chance(1, 8)) put("t0", text(10));
        if (s.chance(1, 2)) put("t1", text(30));
        if (s.chance(1, 4)) put("t2", text(15));
        if (s.chance(1, 5)) { put("k", s.pick(qg.words)); while (s.chance(1, 3)) put("k", s.pick(qg.words)); }
        if (s.chance(1, 5)) put("n", s.pick(qg.nums));
        return d;
    }
};
#define SAFE(what, ...) do { int rc__ = frt_try([&] { __VA_ARGS__; }); if (rc__) fail("error", "%s: unexpected error %d: %s", (what), rc__, g_last_error.c_str()); } while (0)

static void p23(Ctx &c)
{
    Src &s = c.src; HlHist h(c); h.setup_hl();
    uint32_t steps = 1 + s.geo(5, 75);
    for (uint32_t i = 0; i < steps; i++) switch (s.weighted({12, 1, 2, 1, 1})) {
        case 0: h.add(h.hdoc()); break;
        case 1: if (h.m.live.size() > 2) h.del_term(); break;
        case 2: h.commit(); break;
        case 3: h.reopen(); break;
        default: h.optimize();
    }
    if (h.m.live.empty()) h.add(h.hdoc());
    FrtIndexReader *ir = h.reader(); FrtSearcher *one = frt_isea_new(ir), *sea = one;
    SX x(c, ir, one, h.m, h.schema);
    if (h.m.live.empty()) { one->close(one); h.finish(); return; }
    bool multi = s.chance(1, 8);
    if (multi) { FrtSearcher **a = FRT_ALLOC_N(FrtSearcher *, 1); a[0] = one; sea = frt_msea_new(a, 1, true); c.t("through a multi-searcher"); }
    bool tagged = false, cut = false;
    for (uint32_t nq = 1 + s.geo(3, 60); nq > 0; nq--) {
        QN q = gen_query(c, h.qg);
        if (ambiguous(x, q)) continue;
        FrtQuery *fq = q_build(q);
        c.t("query %s", q_str(q).c_str());
        for (uint32_t nd = 1 + s.geo(3, 60); nd > 0; nd--) {
            size_t i = s.draw((uint32_t)x.map.size()); const MDoc &d = *h.m.live[i].d;
            std::string field = s.draw(3) ? "t0" : s.pick(h.fields); int dn = x.map[i];
            const MDocField *df = d.get(field); MField mf = h.schema.get(field);
            std::string txt; if (df) for (size_t k = 0; k < df->data.size(); k++) txt += (k ? " " : "") + df->data[k];
            auto iv = d.inv.find(field);
            bool can = df && mf.stored() && mf.tv_pos() && mf.tv_off() && iv != d.inv.end() && !iv->second.postings.empty();
            std::string pre = s.pick(std::vector<std::string>{"<b>", "{", "\x01\x02"}), post = s.pick(std::vector<std::string>{"</b>", "}", "\x03"}), ell = s.pick(std::vector<std::string>{"...", "~", "[--------]", "...", ""});
            // the whole field
            char **full = nullptr;
            int bignum = s.pick(std::vector<int>{1, 1, 1, 2, 7, 1000}), biglen = s.draw(2) ? INT_MAX / 2 : (int)txt.size() + 1;
            SAFE("highlight", full = frt_searcher_highlight(sea, fq, dn, sy(field), biglen, bignum, pre.c_str(), post.c_str(), ell.c_str()));
            c.t("whole %s of doc %d (#%llu) %s: %s", field.c_str(), dn, (unsigned long long)d.uid, esc(txt).c_str(), full ? list(full).c_str() : "nothing");
            if (!can) { CHECK(!full, "none", "field %s of doc %d has no stored text or no term vector, but was highlighted", field.c_str(), dn); continue; }
            CHECK(full && frt_ary_size(full) == 1, "whole", "highlighting the whole field %s of doc %d gave %d pieces", field.c_str(), dn, full ? frt_ary_size(full) : -1);
            Ex w = take_apart(full[0], pre, post, "");
            CHECK(w.plain == txt, "text", "the highlighted field without its tags is %s, the text is %s", esc(w.plain).c_str(), esc(txt).c_str());
            Exp e; collect(x, q, field, i, e);
            std::vector<MR> R = merged(e.sure, iv->second);
            if (e.maybe.empty()) {
                bool same = R.size() == w.tags.size(); for (size_t k = 0; same && k < R.size(); k++) same = R[k].s == w.tags[k].first && R[k].e == w.tags[k].second;
                if (!same) { std::string ws = txt; for (size_t k = R.size(); k-- > 0; ) { ws.insert((size_t)R[k].e, "}"); ws.insert((size_t)R[k].s, "{"); } fail("tags", "%s marked %s in %s, expected %s", q_str(q).c_str(), esc(full[0]).c_str(), field.c_str(), esc(ws).c_str()); }
            } else {
                std::vector<PR> all = e.sure; all.insert(all.end(), e.maybe.begin(), e.maybe.end());
                std::vector<MR> U = merged(all, iv->second);
                for (auto &t : w.tags) { bool in = false; for (auto &u : U) in = in || (t.first >= u.s && t.second <= u.e); CHECK(in, "tags", "%s marked bytes %ld-%ld, which no match covers: %s", q_str(q).c_str(), t.first, t.second, esc(full[0]).c_str()); }
                for (auto &r : R) { bool in = false; for (auto &t : w.tags) in = in || (r.s >= t.first && r.e <= t.second); CHECK(in, "tags", "%s did not mark bytes %ld-%ld: %s", q_str(q).c_str(), r.s, r.e, esc(full[0]).c_str()); }
                CHECK(!w.tags.empty(), "tags", "%s marked nothing in %s", q_str(q).c_str(), esc(txt).c_str());
                R.clear(); for (auto &t : w.tags) R.push_back({t.first, t.second, 1});
            }
            tagged = tagged || !R.empty();
            // the match vector, and the two ways of compacting it
            FrtMatchVector *mv = nullptr;
            SAFE("match vector", mv = frt_searcher_get_match_vector(sea, fq, dn, sy(field)));
            std::vector<PR> got; for (int k = 0; k < mv->size; k++) got.push_back({mv->matches[k].start, mv->matches[k].end});
            std::sort(got.begin(), got.end());
            if (e.maybe.empty()) { std::vector<PR> want = e.sure; std::sort(want.begin(), want.end()); CHECK(got == want, "vector", "the match vector of %s has %zu matches, expected %zu (or other positions)", q_str(q).c_str(), got.size(), want.size()); }
            bool breaks = s.draw(2); if (breaks) frt_matchv_compact_with_breaks(mv); else frt_matchv_compact(mv);
            std::vector<PR> comp; for (auto &r : got) if (!comp.empty() && r.first <= comp.back().second + !breaks) comp.back().second = std::max(comp.back().second, r.second); else comp.push_back(r);
            std::vector<PR> cg; for (int k = 0; k < mv->size; k++) cg.push_back({mv->matches[k].start, mv->matches[k].end});
            CHECK(cg == comp, "vector", "compacting the match vector of %s (%s breaks) left %zu ranges, expected %zu (or other ranges)", q_str(q).c_str(), breaks ? "with" : "without", cg.size(), comp.size());
            frt_matchv_destroy(mv);
            frt_ary_destroy_i((void **)full, &free);
            // excerpts
            for (uint32_t ne = 1 + s.geo(3, 60); ne > 0; ne--) {
                int num = 1 + (int)s.geo(4, 60), len = s.chance(1, 10) ? (int)s.draw(4) : 1 + (int)s.draw((uint32_t)txt.size() / (s.draw(2) ? 1 : (uint32_t)num) + 8);
                char **ex = nullptr;
                SAFE("highlight", ex = frt_searcher_highlight(sea, fq, dn, sy(field), len, num, pre.c_str(), post.c_str(), ell.c_str()));
                c.t("%d excerpts of %d: %s", num, len, ex ? list(ex).c_str() : "none");
                if ((long)txt.size() < (long)len * num) { CHECK(ex && frt_ary_size(ex) == 1 && take_apart(ex[0], pre, post, "").tags == w.tags && take_apart(ex[0], pre, post, "").plain == txt, "whole", "excerpts as long as the field differ from the whole field"); frt_ary_destroy_i((void **)ex, &free); continue; }
                if (R.empty()) { CHECK(!ex, "none", "excerpts although nothing matches"); continue; }
                CHECK(ex, "none", "no excerpt although something matches");
                int n = frt_ary_size(ex); cut = true;
                CHECK(n >= 1 && n <= num, "count", "%d excerpts, %d requested", n, num);
                bool lng = false; for (auto &r : R) lng = lng || r.e - r.s > len;
                long from = 0, total = 0; int marks = 0; double sum = 0; std::string why;
                for (int k = 0; k < n; k++) {
                    Ex e1 = take_apart(ex[k], pre, post, ell); long L = (long)e1.plain.size(); bool ok = false;
                    total += L; marks += (int)e1.tags.size();
                    for (size_t at = txt.find(e1.plain, (size_t)from); at != std::string::npos && !ok; at = at + 1 <= txt.size() ? txt.find(e1.plain, at + 1) : std::string::npos) {
                        long a = (long)at, b = a + L; bool good = true; double here = 0;
                        if (!ell.empty()) good = e1.pre == (a > 0) && e1.post == (b < (long)txt.size());
                        size_t ti = 0;
                        for (auto &r : R) {
                            bool inside = r.s >= a && r.e <= b, has = ti < e1.tags.size() && e1.tags[ti].first + a == r.s && e1.tags[ti].second + a == r.e;
                            if (has) { ti++; here += r.n; } else if (inside) good = false;
                        }
                        if (ti != e1.tags.size()) good = false;
                        if (good) { ok = true; sum += here; from = lng ? a : b < (long)txt.size() ? b : std::max(from, b - (long)ell.size()); }
                    }
                    CHECK(ok, "excerpt", "excerpt %d %s of %s (%d of %d characters; whole: %s) is not a later piece of the text with exactly its matches marked", k, esc(ex[k]).c_str(), list(ex).c_str(), num, len, esc(txt).c_str());
                }
                CHECK(marks > 0, "count", "no excerpt of %s contains a match", list(ex).c_str());
                if (!lng) CHECK(total <= (long)num * len + (long)n * (long)ell.size(), "length", "%d excerpts of %d characters have %ld characters: %s", num, len, total, list(ex).c_str());
                if (!lng && e.countable && e.maybe.empty()) {   // the first piece has as many matches as fit, every other one at least one more
                    double best = 0, all = 0;
                    for (size_t a = 0; a < R.size(); a++) { double t = 0; all += R[a].n; for (size_t b = a; b < R.size() && R[b].e - R[a].s <= len; b++) t += R[b].n; best = std::max(best, t); }
                    CHECK(sum >= std::min(all, best + num - 1), "best", "%d excerpts %s contain %g of %g matches; the best piece alone could contain %g (whole: %s)", num, list(ex).c_str(), sum, all, best, esc(txt).c_str());
                }
                frt_ary_destroy_i((void **)ex, &free);
            }
        }
        frt_q_deref(fq);
    }
    sea->close(sea);
    h.finish();
    if (tagged) c.label("tagged"); if (cut) c.label("excerpts");
    c.nontrivial = tagged && cut;
}

const Prop the_props[] = {
    {"P23", p23, 80000, 3000000, "queries of every kind are highlighted in random documents of a generated index: the whole field is compared with the positions a brute-force evaluation finds; excerpts of random number and length must be consecutive pieces of the text with exactly their matches marked, and a single excerpt must contain as many matches as possible; non-trivial: something was marked and excerpts were cut", "exploration", true, 60},
    {nullptr, nullptr, 0, 0, nullptr, nullptr, false, 0}};
