// P11-P19, P28: searches over generated indexes compared with brute-force evaluation of the query.
#include "sq.hpp"

static FrtSymbol sy(const std::string &s) { return frt_intern(s.c_str()); }
struct HitV { int doc; float score; };
struct Res { std::vector<HitV> v; int total = 0; float max = 0; };

static Res do_search(FrtSearcher *sea, FrtQuery *q, int first, int num, FrtFilter *f = nullptr, FrtSort *so = nullptr, FrtPostFilter *pf = nullptr)
{
    Res r;
    FrtTopDocs *td = sea->search(sea, q, first, num, f, so, pf, false);
    for (int i = 0; i < td->size; i++) r.v.push_back({td->hits[i]->doc, td->hits[i]->score});
    r.total = td->total_hits; r.max = td->max_score;
    frt_td_destroy(td);
    return r;
}
static void each_cb(FrtSearcher *, int d, float s, void *a) { ((std::vector<HitV> *)a)->push_back({d, s}); }
static std::vector<HitV> do_each(FrtSearcher *sea, FrtQuery *q, FrtFilter *f = nullptr, FrtPostFilter *pf = nullptr)
{
    std::vector<HitV> v; sea->search_each(sea, q, f, pf, &each_cb, &v); return v;
}
static std::string ids(const std::vector<int> &v) { std::string r; for (size_t i = 0; i < v.size() && i < 40; i++) r += fmt("%s%d", i ? " " : "", v[i]); return "[" + r + (v.size() > 40 ? " ..." : "") + "]"; }
static std::vector<int> docs_of(const std::vector<HitV> &v, bool sort) { std::vector<int> r; for (auto &h : v) r.push_back(h.doc); if (sort) std::sort(r.begin(), r.end()); return r; }
static bool close_to(double a, double b) { return a == b || fabs(a - b) <= 2e-4 * std::max(fabs(a), fabs(b)) || (fabs(a) < 1e-30 && fabs(b) < 1e-30); }

// An opened generated index.
struct Op {
    SHist h; FrtIndexReader *ir = nullptr; FrtSearcher *sea = nullptr; SX *x = nullptr;
    Op(Ctx &c) : h(c) {}
    void make(uint32_t max_steps = 8)
    {
        Ctx &c = h.c;
        h.setup(c.src.chance(1, 10));
        h.fill(1 + c.src.geo(max_steps, 80));
        open();
    }
    void open() { ir = h.reader(); sea = frt_isea_new(ir); x = new SX(h.c, ir, sea, h.m, h.schema); }
    void close() { delete x; x = nullptr; if (sea) sea->close(sea); sea = nullptr; ir = nullptr; }
    void finish() { close(); h.finish(); }
};
static void unexpected(const char *what, const QN &q, int rc) { fail("error", "%s %s: unexpected error %d: %s", what, q_str(q).c_str(), rc, g_last_error.c_str()); }
#define SAFE(what, q, ...) do { int rc__ = frt_try([&] { __VA_ARGS__; }); if (rc__) unexpected(what, q, rc__); } while (0)

static std::vector<int> expected(SX &x, const QN &q, std::vector<QR> *sc = nullptr)
{
    QW w = q_weight_top(x, q); std::vector<int> r;
    for (size_t i = 0; i < x.map.size(); i++) { QR e = q_eval(x, w, i); if (e.m) r.push_back(x.map[i]); if (sc) sc->push_back(e); }
    return r;
}
static void cmp_docs(const char *how, const QN &q, std::vector<int> got, const std::vector<int> &want)
{
    if (got == want) return;
    std::vector<int> miss, extra; std::vector<int> g = got; std::sort(g.begin(), g.end());
    std::set_difference(want.begin(), want.end(), g.begin(), g.end(), std::back_inserter(miss));
    std::set_difference(g.begin(), g.end(), want.begin(), want.end(), std::back_inserter(extra));
    fail("hits", "%s of %s gave %s, expected %s (missing %s, extra %s)", how, q_str(q).c_str(), ids(got).c_str(), ids(want).c_str(), ids(miss).c_str(), ids(extra).c_str());
}
// The four ways of asking which documents match.
static void check_hits(SX &x, const QN &q, FrtQuery *fq, const std::vector<int> &want)
{
    Ctx &c = x.c;
    Res r; SAFE("search", q, r = do_search(x.sea, fq, 0, x.max_doc + 10));
    cmp_docs("search", q, docs_of(r.v, true), want);
    CHECK(r.total == (int)want.size(), "total", "search of %s reports %d hits, lists %zu", q_str(q).c_str(), r.total, want.size());
    uint32_t times = 1 + c.src.draw(3);
    for (uint32_t i = 0; i < times; i++) {
        int from = c.src.chance(1, 4) ? 0 : (int)c.src.draw((uint32_t)x.max_doc + 2), limit = c.src.chance(1, 2) ? x.max_doc + 5 : 1 + (int)c.src.draw(8);
        std::vector<int> buf((size_t)limit + 1, -7); int n = 0;
        SAFE("search_unscored", q, n = x.sea->search_unscored(x.sea, fq, buf.data(), limit, from));
        CHECK(n >= 0 && n <= limit && buf[limit] == -7, "unscored", "search_unscored(limit=%d, from=%d) of %s returned %d", limit, from, q_str(q).c_str(), n);
        std::vector<int> e; for (int d : want) if (d >= from && (int)e.size() < limit) e.push_back(d);
        buf.resize((size_t)n);
        cmp_docs(fmt("search_unscored(limit=%d, from=%d)", limit, from).c_str(), q, buf, e);
    }
    std::vector<HitV> ev; SAFE("search_each", q, ev = do_each(x.sea, fq));
    cmp_docs("search_each", q, docs_of(ev, false), want);
    // explanations
    std::set<int> w(want.begin(), want.end());
    uint32_t k = 1 + c.src.draw(4);
    for (uint32_t i = 0; i < k && x.max_doc; i++) {
        int d = !want.empty() && c.src.draw(2) ? want[c.src.draw((uint32_t)want.size())] : (int)c.src.draw((uint32_t)x.max_doc);
        float val = 0; SAFE("explain", q, FrtExplanation *e = x.sea->explain(x.sea, fq, d); val = e->value; frt_expl_destroy(e));
        CHECK((val != 0) == (w.count(d) > 0) && !std::isnan(val), "explain", "explain of %s for document %d is %g but it is %s hit", q_str(q).c_str(), d, val, w.count(d) ? "a" : "not a");
    }
}
static void run_hits(Ctx &c, std::function<QN(QGen &)> gen)
{
    Op o(c); o.make();
    SX &x = *o.x; uint32_t n = 2 + c.src.geo(6, 75); int hits = 0, some = 0;
    for (uint32_t i = 0; i < n; i++) {
        QN q = gen(o.h.qg);
        if (ambiguous(x, q)) { c.label("query.skipped_rounding"); continue; }
        c.t("query %s", q_str(q).c_str());
        auto want = expected(x, q);
        FrtQuery *fq = q_build(q);
        check_hits(x, q, fq, want);
        frt_q_deref(fq);
        if (!want.empty()) { hits++; if (want.size() < x.map.size()) some++; }
        c.label(want.empty() ? "query.none" : want.size() == x.map.size() ? "query.all" : "query.some");
    }
    c.nontrivial = hits >= 1 && some >= 1;
    o.finish();
}
static void p11(Ctx &c) { run_hits(c, [&](QGen &g) { QGen h = g; h.expanding = h.phrases = h.spans = h.ranges = false; return gen_query(c, h); }); }
static QN wrap(Ctx &c, QGen &g, QN q)                // perhaps inside a boolean query
{
    if (!c.src.chance(1, 3)) return q;
    QN b; b.k = Q_BOOL; b.sub.push_back(q); b.occ.push_back((int)c.src.weighted({4, 4, 2}));
    uint32_t n = c.src.geo(3, 70);
    for (uint32_t i = 0; i < n; i++) { QGen h = g; h.max_depth = 1; b.sub.insert(b.sub.begin() + c.src.draw((uint32_t)b.sub.size() + 1), gen_query(c, h, 1)); b.occ.push_back((int)c.src.weighted({4, 4, 2})); }
    return b;
}
static void p12(Ctx &c) { run_hits(c, [&](QGen &g0) { QGen g = g0; g.phrases = g.spans = false; return wrap(c, g, c.src.chance(2, 5) ? gen_range(c, g, c.src.draw(2)) : gen_expanding(c, g)); }); }

// A sloppy phrase with repeated terms: each needs an occurrence of its own; every assignment is tried.
static void repeated_phrase(SX &x, QGen &g)
{
    Ctx &c = x.c; QN q; q.k = Q_PHRASE; q.field = "t0"; uint32_t n = 2 + c.src.geo(2, 50);
    std::string w = c.src.pick(g.words);
    for (uint32_t i = 0; i < n; i++) { q.pos.push_back({c.src.draw(2) ? w : c.src.pick(g.words)}); q.inc.push_back(i ? 1 + (c.src.chance(1, 8) ? 1 : 0) : 0); }
    q.slop = 1 + (int)c.src.geo(5, 60);
    c.t("query %s (repeated terms)", q_str(q).c_str()); c.label("query.repeated_sloppy");
    std::vector<int> want; size_t work = 0;
    for (size_t i = 0; i < x.map.size(); i++) {
        std::vector<const std::vector<int> *> L; auto it = x.m.live[i].d->inv.find("t0"); bool all = it != x.m.live[i].d->inv.end();
        for (auto &p : q.pos) { if (!all) break; auto f = it->second.postings.find(p[0]); if (f == it->second.postings.end()) all = false; else L.push_back(&f->second); }
        if (!all) continue;
        std::vector<int> used; bool ok = false;
        std::function<void(size_t, int, int, int)> rec = [&](size_t k, int at, int lo, int hi) {
            if (ok || ++work > 3000000) return;
            if (k == L.size()) { ok = true; return; }
            int off = at + q.inc[k];
            for (int p : *L[k]) {
                if (std::find(used.begin(), used.end(), p) != used.end()) continue;
                int l = k ? std::min(lo, p - off) : p - off, h = k ? std::max(hi, p - off) : p - off; if (h - l > q.slop) continue;
                used.push_back(p); rec(k + 1, off, l, h); used.pop_back();
            }
        };
        rec(0, 0, 0, 0); if (ok) want.push_back(x.map[i]);
    }
    if (work > 3000000) return;
    FrtQuery *fq = q_build(q); check_hits(x, q, fq, want); frt_q_deref(fq);
}
static void p13(Ctx &c)
{
    Op o(c); o.make();
    SX &x = *o.x; QGen &g = o.h.qg; uint32_t n = 2 + c.src.geo(7, 78); int hits = 0;
    for (uint32_t i = 0; i < n; i++) {
        if (c.src.chance(1, 12)) { repeated_phrase(x, g); continue; }
        QN q = gen_phrase(c, g);
        if (c.src.chance(1, 2) && !o.h.m.live.empty()) {      // take it from a document so that it occurs
            auto &d = *o.h.m.live[c.src.draw((uint32_t)o.h.m.live.size())].d; auto it = d.inv.find(q.field);
            if (it != d.inv.end() && !it->second.postings.empty()) {
                std::map<int, std::string> at; for (auto &kv : it->second.postings) for (int p : kv.second) at[p] = kv.first;
                int p = -1; std::set<std::string> used; int base = (int)c.src.draw((uint32_t)at.size());
                std::vector<std::vector<std::string>> pos; std::vector<int> inc; int prev = 0;
                for (auto it2 = std::next(at.begin(), base); it2 != at.end() && pos.size() < 2 + q.pos.size() % 3; ++it2) {
                    if (p >= 0 && c.src.chance(1, 5)) continue;
                    if (q.slop && used.count(it2->second)) continue;
                    std::vector<std::string> alt{it2->second}; used.insert(it2->second);
                    if (c.src.chance(1, 8)) { std::string w = c.src.pick(g.words); if (!used.count(w)) { alt.push_back(w); used.insert(w); if (c.src.draw(2)) std::swap(alt[0], alt[1]); } }
                    pos.push_back(alt); inc.push_back(p < 0 ? 0 : it2->first - prev); prev = it2->first; p = 0;
                }
                if (q.slop && pos.size() > 1 && c.src.chance(1, 3)) std::swap(pos[0], pos[1]);
                if (pos.size() >= 2) { q.pos = pos; q.inc = inc; }
            }
        }
        QGen gw = g; gw.spans = gw.expanding = gw.ranges = false;
        QN top = wrap(c, gw, q);
        if (ambiguous(x, top)) continue;
        c.t("query %s", q_str(top).c_str());
        auto want = expected(x, top);
        FrtQuery *fq = q_build(top); check_hits(x, top, fq, want); frt_q_deref(fq);
        // frequency of an exact phrase, seen through its score
        if (!q.slop && q.pos.size() > 1) {
            std::vector<QR> sc; expected(x, q, &sc);
            fq = q_build(q); Res r; SAFE("search", q, r = do_search(x.sea, fq, 0, x.max_doc + 10)); frt_q_deref(fq);
            std::map<int, float> by; for (auto &h : r.v) by[h.doc] = h.score;
            for (size_t k = 0; k < sc.size(); k++) if (sc[k].m) { CHECK(by.count(x.map[k]), "hits", "%s misses document %d", q_str(q).c_str(), x.map[k]); CHECK(close_to(by[x.map[k]], sc[k].s), "freq", "%s: document %d scores %g, expected %g from the number of occurrences", q_str(q).c_str(), x.map[k], by[x.map[k]], sc[k].s); }
            if (!r.v.empty()) c.label("phrase.exact_hit");
        }
        if (!want.empty()) hits++;
        c.label(want.empty() ? "query.none" : "query.some");
    }
    c.nontrivial = hits >= 1;
    o.finish();
}
static void p14(Ctx &c) { g_bad_clauses = true; run_hits(c, [&](QGen &g0) { QGen g = g0; g.phrases = g.expanding = g.ranges = false; return wrap(c, g, gen_span(c, g, c.src.pick(std::vector<std::string>{"t0", "t0", "t0", "t1", "t2", "k"}))); }); }

// ---------------------------------------------------------------- P15
struct PF { int mod; };
static float pf_cb(int doc, float, FrtSearcher *, void *a) { int k = doc % ((PF *)a)->mod; return k == 0 ? 0.0f : k == 1 ? 1.0f : 0.5f; }
static void p15(Ctx &c)
{
    SHist h(c); h.setup(c.src.chance(1, 10)); h.fill(1 + c.src.geo(6, 80));
    QGen g = h.qg; g.max_depth = 1;
    auto gen_f = [&] { QN f = c.src.draw(2) ? gen_range(c, g, c.src.draw(2)) : gen_query(c, g, 1); f.boost = 1; return f; };
    QN fq = gen_f(), cq; FrtFilter *filt = f_build(fq);
    QN csn; csn.k = Q_CONST; csn.sub.push_back(fq); if (c.src.chance(1, 3)) csn.boost = 3.0f; FrtQuery *csq = frt_csq_new(filt); csq->boost = csn.boost;
    c.t("filter %s", q_str(fq).c_str());
    int restricts = 0, reuse = 0; uint32_t rounds = 1 + c.src.geo(3, 65);
    for (uint32_t round = 0; round < rounds; round++) {
        FrtIndexReader *ir = h.reader(); FrtSearcher *sea = frt_isea_new(ir);
        Model at_open = h.m; bool can_undelete = !ir->has_deletions(ir);
        uint32_t steps = 1 + c.src.geo(5, 70);
        for (uint32_t st = 0; st < steps; st++) {
            SX x(c, ir, sea, h.m, h.schema);
            if (ambiguous(x, fq)) { c.label("query.skipped_rounding"); break; }
            std::vector<char> acc((size_t)x.max_doc, 0); size_t na = 0;
            for (size_t i = 0; i < x.map.size(); i++) if (q_match(x, fq, i)) { acc[(size_t)x.map[i]] = 1; na++; }
            if (na && na < x.map.size()) restricts++;
            reuse++;
            switch (c.src.weighted({5, 2, 2, 2, 3, 1})) {
                case 0: case 3: {
                    QN q = gen_query(c, g, 0); if (ambiguous(x, q)) break;
                    PF pf{2 + (int)c.src.draw(4)}; FrtPostFilter post{&pf_cb, &pf}; bool usepf = c.src.chance(1, 3), usef = !usepf || c.src.draw(2);
                    c.t("search %s%s%s", q_str(q).c_str(), usef ? " filtered" : "", usepf ? " post-filtered" : "");
                    FrtQuery *a = q_build(q), *b = q_build(q); Res plain, got; std::vector<HitV> ev;
                    SAFE("search", q, plain = do_search(sea, a, 0, x.max_doc + 1));
                    SAFE("filtered search", q, got = do_search(sea, b, 0, x.max_doc + 1, usef ? filt : nullptr, nullptr, usepf ? &post : nullptr));
                    SAFE("filtered search_each", q, ev = do_each(sea, b, usef ? filt : nullptr, usepf ? &post : nullptr));
                    std::vector<HitV> want;
                    for (auto &hh : plain.v) { float f = usepf ? pf_cb(hh.doc, 0, nullptr, &pf) : 1.0f; if (f != 0 && (!usef || acc[(size_t)hh.doc])) want.push_back({hh.doc, hh.score * f}); }
                    std::sort(want.begin(), want.end(), [](const HitV &p, const HitV &r) { return p.score != r.score ? p.score > r.score : p.doc < r.doc; });
                    cmp_docs("filtered search", q, docs_of(got.v, true), docs_of(want, true));
                    std::map<int, float> by; for (auto &hh : want) by[hh.doc] = hh.score;
                    for (size_t i = 0; i < want.size(); i++) {
                        CHECK(close_to(got.v[i].score, by[got.v[i].doc]), "score", "filtered search of %s: document %d scores %g, unfiltered %g", q_str(q).c_str(), got.v[i].doc, got.v[i].score, by[got.v[i].doc]);
                        CHECK(!i || got.v[i - 1].score > got.v[i].score || (got.v[i - 1].score == got.v[i].score && got.v[i - 1].doc < got.v[i].doc), "order", "filtered search of %s: hit %zu is out of order", q_str(q).c_str(), i);
                    }
                    CHECK(got.total == (int)want.size(), "total", "filtered search of %s: total %d, expected %zu", q_str(q).c_str(), got.total, want.size());
                    CHECK(got.max == (want.empty() ? 0 : got.v[0].score), "max", "filtered search of %s: max score %g, expected %g", q_str(q).c_str(), got.max, want.empty() ? 0 : want[0].score);
                    cmp_docs("filtered search_each", q, docs_of(ev, false), docs_of(want, true));
                    frt_q_deref(a); frt_q_deref(b);
                    break;
                }
                case 1: {
                    auto want = expected(x, csn); c.t("constant-score query");
                    check_hits(x, csn, csq, want);
                    Res r; SAFE("search", csn, r = do_search(sea, csq, 0, x.max_doc + 1));
                    for (auto &hh : r.v) CHECK(hh.score == r.v[0].score, "score", "%s gives different scores %g and %g", q_str(csn).c_str(), hh.score, r.v[0].score);
                    break;
                }
                case 2: {
                    QN q; q.k = Q_FILT; q.sub.push_back(gen_query(c, g, 1)); q.sub.push_back(fq); if (c.src.chance(1, 4)) q.boost = 2.0f;
                    if (ambiguous(x, q)) break;
                    c.t("filtered query %s", q_str(q).c_str());
                    auto want = expected(x, q); FRT_REF(filt); FrtQuery *f = frt_fq_new(q_build(q.sub[0]), filt); f->boost = q.boost;
                    check_hits(x, q, f, want); frt_q_deref(f);
                    break;
                }
                case 4:
                    if (h.m.live.size() > 1) { uint32_t k = c.src.draw((uint32_t)h.m.live.size()); c.t("delete document %d in the reader", x.map[k]); SAFE("delete", fq, frt_ir_delete_doc(ir, x.map[k])); h.model_delete_at(k); c.label("filter.delete"); }
                    break;
                default:
                    if (can_undelete && ir->has_deletions(ir)) { c.t("undelete all in the reader"); SAFE("undelete", fq, frt_ir_undelete_all(ir)); h.m = at_open; c.label("filter.undelete"); }
            }
        }
        SAFE("close", fq, sea->close(sea));
        if (c.src.chance(2, 3)) h.fill(1 + c.src.draw(2));
    }
    frt_q_deref(csq); frt_filt_deref(filt);
    c.nontrivial = restricts && reuse >= 2;
    h.finish();
}

// ---------------------------------------------------------------- P16
static void rescale(Ctx &c, QN &q)                   // changes one boost somewhere
{
    QN *p = &q; while ((p->k == Q_BOOL || p->k == Q_FILT) && !p->sub.empty() && c.src.draw(4)) p = p->k == Q_FILT ? &p->sub[0] : &p->sub[c.src.draw((uint32_t)p->sub.size())];
    p->boost *= c.src.pick(std::vector<float>{2.0f, 0.25f, 7.0f, 100.0f});
}
static void p16(Ctx &c)
{
    Op o(c); o.make();
    SX &x = *o.x; QGen g = o.h.qg; g.filters = true; uint32_t n = 2 + c.src.geo(7, 78); int scored = 0;
    for (uint32_t i = 0; i < n; i++) {
        QN q;
        if (x.df("t0", "rep") && c.src.chance(1, 3)) {        // the word that some documents hold hundreds of times
            q.field = "t0"; q.term = "rep"; if (c.src.chance(1, 3)) { q.k = Q_MULTI; q.terms = {"rep"}; q.tb = {1}; if (c.src.draw(2)) { q.terms.push_back(c.src.pick(g.words)); q.tb.push_back(2); } }
            q = wrap(c, g, q); c.label("query.high_frequency");
        }
        else q = gen_query(c, g);
        if (ambiguous(x, q)) { c.label("query.skipped_rounding"); continue; }
        c.t("query %s", q_str(q).c_str());
        std::vector<QR> sc; auto want = expected(x, q, &sc);
        FrtQuery *fq = q_build(q); Res r; SAFE("search", q, r = do_search(x.sea, fq, 0, x.max_doc + 10));
        std::map<int, float> by; for (auto &h : r.v) by[h.doc] = h.score;
        float mx = 0;
        for (size_t k = 0; k < sc.size(); k++) if (sc[k].m) {
            CHECK(by.count(x.map[k]), "hits", "%s misses document %d", q_str(q).c_str(), x.map[k]);
            float got = by[x.map[k]]; mx = std::max(mx, got);
            CHECK(close_to(got, sc[k].s), "score", "%s: document %d scores %.7g, the formula gives %.7g", q_str(q).c_str(), x.map[k], got, sc[k].s);
            scored++;
        }
        CHECK(r.v.size() == want.size(), "hits", "%s has %zu hits, expected %zu", q_str(q).c_str(), r.v.size(), want.size());
        if (!r.v.empty()) CHECK(r.max == mx, "max", "%s: max score %g, best score %g", q_str(q).c_str(), r.max, mx);
        uint32_t k = 1 + c.src.draw(4);
        for (uint32_t j = 0; j < k && x.max_doc; j++) {
            int d = !want.empty() && c.src.chance(3, 4) ? want[c.src.draw((uint32_t)want.size())] : (int)c.src.draw((uint32_t)x.max_doc);
            float val = 0; SAFE("explain", q, FrtExplanation *e = x.sea->explain(x.sea, fq, d); val = e->value; char *s = frt_expl_to_s(e); char *ht = frt_expl_to_html(e); free(s); free(ht); frt_expl_destroy(e));
            double e = by.count(d) ? by[d] : 0;
            CHECK(close_to(val, e), "explain", "%s: explain of document %d gives %.7g, its score is %.7g", q_str(q).c_str(), d, val, e);
        }
        frt_q_deref(fq);
        if (c.src.chance(1, 2)) {
            QN q2 = q; rescale(c, q2); c.t("rescaled %s", q_str(q2).c_str());
            fq = q_build(q2); Res r2; SAFE("search", q2, r2 = do_search(x.sea, fq, 0, x.max_doc + 10));
            cmp_docs("search with another boost", q2, docs_of(r2.v, true), docs_of(r.v, true));
            frt_q_deref(fq);
        }
        c.label(fmt("top.%d", q.k).c_str());
    }
    c.nontrivial = scored >= 3;
    o.finish();
}

// ---------------------------------------------------------------- P17
static void same(const char *how, const QN &q, const std::vector<HitV> &got, const std::vector<HitV> &want)
{
    CHECK(docs_of(got, false) == docs_of(want, false), "slice", "%s of %s gave %s, expected %s", how, q_str(q).c_str(), ids(docs_of(got, false)).c_str(), ids(docs_of(want, false)).c_str());
    for (size_t i = 0; i < got.size(); i++) CHECK(got[i].score == want[i].score, "slice", "%s of %s: document %d scores %g, expected %g", how, q_str(q).c_str(), got[i].doc, got[i].score, want[i].score);
}
static void p17(Ctx &c)
{
    Op o(c); o.make();
    SX &x = *o.x; QGen g = o.h.qg; g.filters = true; uint32_t n = 1 + c.src.geo(4, 70); int multi = 0;
    for (uint32_t i = 0; i < n; i++) {
        QN q = gen_query(c, g); if (ambiguous(x, q)) continue;
        c.t("query %s", q_str(q).c_str());
        auto want = expected(x, q);
        FrtQuery *fq = q_build(q); std::vector<HitV> ev; SAFE("search_each", q, ev = do_each(x.sea, fq));
        cmp_docs("search_each", q, docs_of(ev, false), want);
        std::vector<HitV> full = ev; std::sort(full.begin(), full.end(), [](const HitV &p, const HitV &r) { return p.score != r.score ? p.score > r.score : p.doc < r.doc; });
        float mx = full.empty() ? 0 : full[0].score;
        uint32_t k = 3 + c.src.geo(5, 70);
        for (uint32_t j = 0; j < k; j++) {
            int first = c.src.chance(1, 3) ? 0 : (int)c.src.draw((uint32_t)full.size() + 3);
            int num = c.src.chance(1, 12) ? INT_MAX - (c.src.draw(2) ? 0 : (int)c.src.draw(4)) : c.src.chance(1, 8) ? (int)full.size() + 1 : 1 + (int)c.src.geo(30, 85);
            Res r; SAFE("search", q, r = do_search(x.sea, fq, first, num));
            std::vector<HitV> w; for (size_t p = (size_t)first; p < full.size() && (long)w.size() < (long)num; p++) w.push_back(full[p]);
            std::string how = fmt("search(first=%d, num=%d)", first, num); same(how.c_str(), q, r.v, w);
            CHECK(r.total == (int)full.size(), "total", "%s of %s: total %d, expected %zu", how.c_str(), q_str(q).c_str(), r.total, full.size());
            CHECK(r.max == mx, "max", "%s of %s: max score %g, expected %g", how.c_str(), q_str(q).c_str(), r.max, mx);
        }
        for (uint32_t j = 0; j < 3; j++) {                     // unscored paging: continue after the last document
            std::vector<int> all; int from = 0, limit = 1 + (int)c.src.geo(20, 80); std::vector<int> buf((size_t)limit);
            for (int guard = 0; guard < 100000; guard++) {
                int cnt = 0; SAFE("search_unscored", q, cnt = x.sea->search_unscored(x.sea, fq, buf.data(), limit, from));
                all.insert(all.end(), buf.begin(), buf.begin() + cnt); if (cnt < limit) break; from = buf[(size_t)cnt - 1] + 1;
            }
            cmp_docs(fmt("paged search_unscored(limit=%d)", limit).c_str(), q, all, want);
        }
        if (c.src.chance(1, 3)) {
            int first = 0, num = 10; if (c.src.draw(2)) first = -1 - (int)c.src.draw(3); else num = -(int)c.src.draw(3);
            int rc = frt_try([&] { do_search(x.sea, fq, first, num); });
            CHECK(rc == FRT_ARG_ERROR, "args", "search(first=%d, num=%d) of %s gave %d, expected an argument error", first, num, q_str(q).c_str(), rc);
        }
        frt_q_deref(fq);
        if (full.size() > 1) multi++;
    }
    c.nontrivial = multi > 0;
    o.finish();
}

// ---------------------------------------------------------------- P18
struct SK { int type; std::string field; bool rev; };
enum { S_SCORE, S_DOC, S_BYTE, S_INT, S_FLOAT, S_STR, S_AUTO };
static SK gen_key(Ctx &c)
{
    SK k; k.rev = c.src.chance(1, 3); k.type = (int)c.src.weighted({2, 2, 3, 4, 3, 4, 1});
    k.field = k.type == S_INT || k.type == S_FLOAT ? c.src.pick(std::vector<std::string>{"n", "x", "n", "s"}) : k.type == S_AUTO ? std::string("uid") : c.src.pick(std::vector<std::string>{"k", "s", "t1", "n", "t0", "uid"});
    return k;
}
static FrtSort *build_sort(const std::vector<SK> &ks)
{
    FrtSort *s = frt_sort_new();
    for (auto &k : ks) {
        FrtSortField *f = nullptr; FrtSymbol fd = sy(k.field);
        switch (k.type) {
            case S_SCORE: f = frt_sort_field_score_new(k.rev); break; case S_DOC: f = frt_sort_field_doc_new(k.rev); break;
            case S_BYTE: f = frt_sort_field_byte_new(fd, k.rev); break; case S_INT: f = frt_sort_field_int_new(fd, k.rev); break;
            case S_FLOAT: f = frt_sort_field_float_new(fd, k.rev); break; case S_STR: f = frt_sort_field_string_new(fd, k.rev); break;
            default: f = frt_sort_field_auto_new(fd, k.rev);
        }
        frt_sort_add_sort_field(s, f);
    }
    return s;
}
static std::string sort_str(const std::vector<SK> &ks) { static const char *nm[] = {"score", "doc", "byte", "int", "float", "string", "auto"}; std::string r; for (auto &k : ks) r += (r.empty() ? "" : ", ") + std::string(nm[k.type]) + (k.type > S_DOC ? ":" + k.field : "") + (k.rev ? "!" : ""); return r; }
struct KV { bool has = false; std::string s; long i = 0; float f = 0; };
static KV key_val(const MDoc &d, const std::string &field)
{
    KV v; auto it = d.inv.find(field); if (it == d.inv.end() || it->second.postings.empty()) return v;
    v.has = true; v.s = it->second.postings.rbegin()->first;
    // a value that is not a number counts as nothing at all
    sscanf(v.s.c_str(), "%ld", &v.i); sscanf(v.s.c_str(), "%g", &v.f);
    return v;
}
static int key_cmp(const SK &k, const HitV &a, const HitV &b, const MDoc &da, const MDoc &db)
{
    int r = 0;
    if (k.type == S_SCORE) r = a.score > b.score ? -1 : a.score < b.score;
    else if (k.type == S_DOC) r = a.doc < b.doc ? -1 : a.doc > b.doc;
    else {
        KV x = key_val(da, k.field), y = key_val(db, k.field);
        switch (k.type) {
            case S_INT: case S_AUTO: r = x.i < y.i ? -1 : x.i > y.i; break;
            case S_FLOAT: r = x.f < y.f ? -1 : x.f > y.f; break;
            case S_BYTE: r = x.has != y.has ? (x.has ? 1 : -1) : x.s.compare(y.s); break;
            default: r = x.has != y.has ? (x.has ? -1 : 1) : x.s.compare(y.s);
        }
    }
    r = r < 0 ? -1 : r > 0;
    return k.rev ? -r : r;
}
static void p18(Ctx &c)
{
    SHist h(c); h.setup(c.src.chance(1, 10)); h.fill(2 + c.src.geo(7, 80)); int multi = 0;
    uint32_t rounds = 1 + c.src.geo(2, 40);
    for (uint32_t round = 0; round < rounds; round++) {
        FrtIndexReader *ir = h.reader(); FrtSearcher *sea = frt_isea_new(ir);
        Model at_open = h.m; bool can_undelete = !ir->has_deletions(ir);
        uint32_t n = 2 + c.src.geo(6, 75); QGen g = h.qg; g.max_depth = 1;
        for (uint32_t i = 0; i < n; i++) {
            if (c.src.chance(1, 8) && h.m.live.size() > 2) { SX x(c, ir, sea, h.m, h.schema); uint32_t k = c.src.draw((uint32_t)h.m.live.size()); c.t("delete document %d in the reader", x.map[k]); frt_ir_delete_doc(ir, x.map[k]); h.model_delete_at(k); }
            if (c.src.chance(1, 12) && can_undelete && ir->has_deletions(ir)) { c.t("undelete all in the reader"); frt_ir_undelete_all(ir); h.m = at_open; }
            SX x(c, ir, sea, h.m, h.schema);
            QN q; q.k = Q_ALL; if (c.src.chance(2, 3)) { q = gen_query(c, g, 0); if (ambiguous(x, q)) continue; }
            FrtQuery *fq = q_build(q);
            if (c.src.chance(1, 15)) {
                FrtSort *so = frt_sort_new(); frt_sort_add_sort_field(so, c.src.draw(2) ? frt_sort_field_int_new(sy("no_such_field"), false) : frt_sort_field_auto_new(sy("no_such_field"), false));
                c.t("sort by a field that does not exist");
                Res none; int rc = frt_try([&] { none = do_search(sea, fq, 0, 10, nullptr, so); });
                CHECK(rc == FRT_ARG_ERROR || (!rc && none.v.empty()), "args", "sorting by a field that does not exist gave %d", rc);
                frt_sort_destroy(so);
            }
            std::vector<SK> ks; uint32_t nk = c.src.chance(1, 12) ? 0 : 1 + c.src.geo(3, 45); for (uint32_t k = 0; k < nk; k++) ks.push_back(gen_key(c));
            c.t("query %s sort by %s", q_str(q).c_str(), sort_str(ks).c_str());
            std::vector<HitV> full; SAFE("search_each", q, full = do_each(sea, fq));
            std::map<int, const MDoc *> by; for (size_t k = 0; k < x.map.size(); k++) by[x.map[k]] = h.m.live[k].d.get();
            std::sort(full.begin(), full.end(), [&](const HitV &a, const HitV &b) { for (auto &k : ks) if (int r = key_cmp(k, a, b, *by.at(a.doc), *by.at(b.doc))) return r < 0; return a.doc < b.doc; });
            FrtSort *so = build_sort(ks);
            uint32_t reps = 1 + c.src.draw(3);
            for (uint32_t j = 0; j < reps; j++) {
                int first = j == 0 || c.src.chance(1, 3) ? 0 : (int)c.src.draw((uint32_t)full.size() + 2), num = j == 0 ? x.max_doc + 1 : 1 + (int)c.src.geo(20, 80);
                Res r; SAFE("sorted search", q, r = do_search(sea, fq, first, num, nullptr, so));
                std::vector<HitV> w; for (size_t p = (size_t)first; p < full.size() && (long)w.size() < (long)num; p++) w.push_back(full[p]);
                same(fmt("search(first=%d, num=%d) sorted by %s", first, num, sort_str(ks).c_str()).c_str(), q, r.v, w);
                CHECK(r.total == (int)full.size(), "total", "sorted search total %d, expected %zu", r.total, full.size());
            }
            frt_sort_destroy(so); frt_q_deref(fq);
            if (full.size() > 2) multi++;
        }
        sea->close(sea);
        if (round + 1 < rounds) h.fill(1 + c.src.draw(2));
    }
    c.nontrivial = multi > 0;
    h.finish();
}

// ---------------------------------------------------------------- P19
static bool expands(const QN &q)      // contains a query that is expanded to the terms of the index
{
    if (q.k == Q_PREFIX || q.k == Q_WILD || q.k == Q_FUZZY || q.k == Q_SPPREFIX) return true;
    for (auto &s : q.sub) if (expands(s)) return true;
    return false;
}
static bool monotone(const QN &q)     // more terms in the expansions can only mean more hits; no limit on the number of terms
{
    if (q.max_terms || q.k == Q_SPNOT || q.k == Q_SPNEAR) return false;
    for (size_t i = 0; i < q.sub.size(); i++) if ((q.k == Q_BOOL && q.occ[i] == FRT_BC_MUST_NOT) || !monotone(q.sub[i])) return false;
    return true;
}
static void same_ranking(const char *what, const QN &q, const std::vector<HitV> &a, const std::vector<HitV> &b, const char *ref = "union")    // equal up to the order of equal scores
{
    CHECK(a.size() == b.size(), "hits", "%s of %s gave %s, %s %s", what, q_str(q).c_str(), ids(docs_of(a, false)).c_str(), ref, ids(docs_of(b, false)).c_str());
    for (size_t k = 0; k < a.size(); k++) {
        CHECK(close_to(a[k].score, b[k].score), "score", "%s of %s: rank %zu is document %d with score %g, %s document %d with %g", what, q_str(q).c_str(), k, a[k].doc, a[k].score, ref, b[k].doc, b[k].score);
        if (a[k].doc == b[k].doc) continue;
        // the window may cut a group of equally scored hits
        bool tied = k + 1 == a.size() || k == 0 || close_to(a[k].score, a[k + 1].score) || close_to(a[k].score, a[k - 1].score);
        CHECK(tied, "hits", "%s of %s gave %s, %s %s", what, q_str(q).c_str(), ids(docs_of(a, false)).c_str(), ref, ids(docs_of(b, false)).c_str());
    }
}
static std::string doc_bytes(FrtDocument *d)
{
    std::string r; std::map<std::string, std::string> m;
    for (int i = 0; i < d->size; i++) { FrtDocField *f = d->fields[i]; std::string v; for (int k = 0; k < f->size; k++) v += fmt("<%d>", f->lengths[k]) + std::string(f->data[k], (size_t)f->lengths[k]); m[FRT_S(f->name)] = v; }
    for (auto &kv : m) r += kv.first + "=" + kv.second + ";";
    return r;
}
static void p19(Ctx &c)
{
    uint32_t n = 1 + c.src.geo(3, 70); if (n == 1 && c.src.chance(3, 4)) n = 2;
    std::vector<std::unique_ptr<SHist>> hs; std::vector<FrtIndexReader *> r1, r2; std::vector<FrtSearcher *> ss;
    for (uint32_t i = 0; i < n; i++) {
        hs.emplace_back(new SHist(c)); auto &h = *hs.back(); h.dirname = fmt("idx%u", i);
        h.setup(c.src.chance(1, 12)); if (i) { h.qg.words = hs[0]->qg.words; h.qg.nums = hs[0]->qg.nums; }
        if (!c.src.chance(1, 10)) h.fill(1 + c.src.geo(4, 70));
        h.close_writer();
        // deletions before both readers are opened
        r1.push_back(frt_ir_open(h.st.st)); r2.push_back(frt_ir_open(h.st.st));
        c.t("index %u: %d documents, max_doc %d", i, r1.back()->num_docs(r1.back()), r1.back()->max_doc(r1.back()));
        ss.push_back(frt_isea_new(r1.back()));
    }
    FrtSearcher **sa_ = (FrtSearcher **)malloc(n * sizeof(FrtSearcher *)); std::copy(ss.begin(), ss.end(), sa_);     // both constructors take the array over
    FrtIndexReader **ra_ = (FrtIndexReader **)malloc(n * sizeof(FrtIndexReader *)); std::copy(r2.begin(), r2.end(), ra_);
    FrtSearcher *ms = frt_msea_new(sa_, (int)n, true);
    FrtIndexReader *mr = frt_mr_open(ra_, (int)n); FrtSearcher *us = frt_isea_new(mr);
    int md = us->max_doc(us); CHECK(ms->max_doc(ms) == md, "max_doc", "multi-searcher max_doc %d, multi-reader %d", ms->max_doc(ms), md);
    QGen g = hs[0]->qg; uint32_t nq = 2 + c.src.geo(5, 70); int multi = 0;
    for (uint32_t i = 0; i < nq; i++) {
        QN q = gen_query(c, g); bool ex = expands(q);
        if (ex && !monotone(q)) { c.label("query.expanding_skipped"); continue; }
        c.t("query %s", q_str(q).c_str());
        FrtQuery *a = q_build(q), *b = q_build(q); Res full, got;
        std::vector<SK> ks; if (c.src.chance(1, 3)) { uint32_t nk = 1 + c.src.geo(2, 40); for (uint32_t k = 0; k < nk; k++) { SK s = gen_key(c); if (s.type != S_BYTE && s.type != S_AUTO) ks.push_back(s); } c.t("sort by %s", sort_str(ks).c_str()); }
        FrtSort *sa = ks.empty() ? nullptr : build_sort(ks), *sb = ks.empty() ? nullptr : build_sort(ks);
        int first = c.src.chance(1, 2) ? 0 : (int)c.src.draw(12), num = c.src.chance(1, 2) ? md + 5 : 1 + (int)c.src.geo(12, 80);
        SAFE("union search", q, full = do_search(us, b, first, num, nullptr, sb));
        SAFE("multi search", q, got = do_search(ms, a, first, num, nullptr, sa));
        std::string how = fmt("multi-searcher search(first=%d, num=%d%s)", first, num, ks.empty() ? "" : (" sorted by " + sort_str(ks)).c_str());
        CHECK(got.total == full.total, "total", "%s of %s: total %d, union %d", how.c_str(), q_str(q).c_str(), got.total, full.total);
        if (!ex) {
            CHECK(close_to(got.max, full.max), "max", "%s of %s: max score %g, union %g", how.c_str(), q_str(q).c_str(), got.max, full.max);
            bool by_score = ks.empty(); for (auto &k : ks) by_score |= k.type == S_SCORE;
            if (by_score) same_ranking(how.c_str(), q, got.v, full.v);
            else CHECK(docs_of(got.v, false) == docs_of(full.v, false), "hits", "%s of %s gave %s, union %s", how.c_str(), q_str(q).c_str(), ids(docs_of(got.v, false)).c_str(), ids(docs_of(full.v, false)).c_str());
            std::map<int, float> sc; for (auto &v : full.v) sc[v.doc] = v.score;
            for (auto &v : got.v) if (sc.count(v.doc)) CHECK(close_to(v.score, sc[v.doc]), "score", "%s of %s: document %d scores %g, union %g", how.c_str(), q_str(q).c_str(), v.doc, v.score, sc[v.doc]);
        } else c.label("query.expanding_hits_only");
        std::vector<HitV> ea, eb; SAFE("search_each", q, ea = do_each(ms, a); eb = do_each(us, b));
        cmp_docs("multi-searcher search_each", q, docs_of(ea, false), docs_of(eb, false));
        int from = (int)c.src.draw((uint32_t)md + 2), limit = 1 + (int)c.src.geo(30, 85); std::vector<int> ba((size_t)limit), bb((size_t)limit); int na = 0, nb = 0;
        SAFE("search_unscored", q, na = ms->search_unscored(ms, a, ba.data(), limit, from); nb = us->search_unscored(us, b, bb.data(), limit, from));
        ba.resize((size_t)na); bb.resize((size_t)nb);
        cmp_docs(fmt("multi-searcher search_unscored(limit=%d, from=%d)", limit, from).c_str(), q, ba, bb);
        for (int k = 0; k < 2 && md; k++) {
            int d = !eb.empty() && c.src.draw(3) ? eb[c.src.draw((uint32_t)eb.size())].doc : (int)c.src.draw((uint32_t)md); float va = 0, vb = 0;
            SAFE("explain", q, FrtExplanation *e = ms->explain(ms, a, d); va = e->value; frt_expl_destroy(e); e = us->explain(us, b, d); vb = e->value; frt_expl_destroy(e));
            if (!ex) CHECK(close_to(va, vb), "explain", "explain of %s for document %d: %g, union %g", q_str(q).c_str(), d, va, vb);
            if (!mr->is_deleted(mr, d)) { std::string da, db; SAFE("get_doc", q, FrtDocument *x = ms->get_doc(ms, d); da = doc_bytes(x); frt_doc_destroy(x); x = us->get_doc(us, d); db = doc_bytes(x); frt_doc_destroy(x)); CHECK(da == db, "doc", "document %d is %s, in the union %s", d, esc(da).c_str(), esc(db).c_str()); }
        }
        if (sa) { frt_sort_destroy(sa); frt_sort_destroy(sb); }
        frt_q_deref(a); frt_q_deref(b);
        if (full.total > 1 && n > 1) multi++;
        c.label(fmt("indexes.%u", n).c_str());
    }
    ms->close(ms); us->close(us);
    c.nontrivial = multi > 0;
    for (auto &h : hs) h->finish();
}

// ---------------------------------------------------------------- P28
static bool mutate(Ctx &c, QN &q, const QGen &g)       // changes one thing that the query means
{
    if (!q.sub.empty() && q.k != Q_CONST && c.src.chance(2, 3)) {
        if (q.k == Q_BOOL && c.src.chance(1, 3)) { uint32_t i = c.src.draw((uint32_t)q.sub.size()); q.occ[i] = (q.occ[i] + 1 + (int)c.src.draw(2)) % 3; return true; }
        if ((q.k == Q_BOOL || q.k == Q_SPOR || q.k == Q_SPNEAR) && c.src.chance(1, 4)) { q.sub.pop_back(); if (q.k == Q_BOOL) q.occ.pop_back(); return true; }
        return mutate(c, q.sub[c.src.draw((uint32_t)q.sub.size())], g);
    }
    auto other = [&](const std::string &s) { return s == "q" ? std::string("qq") : c.src.draw(2) ? s + "q" : std::string("q"); };
    if (is_span(q.k) && c.src.chance(1, 6)) {       // another kind of span with the same content
        QN w; w.field = q.field; w.boost = q.boost;
        if (q.k == Q_SPTERM || q.k == Q_SPPREFIX) { w = q; w.k = q.k == Q_SPTERM ? Q_SPPREFIX : Q_SPTERM; if (w.k == Q_SPPREFIX) w.max_terms = 0; }
        else { w.k = Q_SPOR; w.sub.push_back(q); }
        q = w; return true;
    }
    uint32_t r = c.src.draw(3);
    if (r == 0 && q.k != Q_CONST && !is_span(q.k) && q.k != Q_FILT) { q.boost = q.boost == 1.5f ? 2.5f : 1.5f; return true; }
    if (r == 0 && (q.k == Q_SPTERM || q.k == Q_SPMULTI || q.k == Q_SPPREFIX)) { q.boost = q.boost == 1.5f ? 2.5f : 1.5f; return true; }
    if (r == 1 && !q.field.empty() && !is_span(q.k)) { q.field = q.field == "t0" ? "t1" : "t0"; return true; }
    switch (q.k) {
        case Q_TERM: case Q_PREFIX: case Q_SPTERM: case Q_SPPREFIX: q.term = other(q.term); return true;
        case Q_WILD: q.term = other(q.term); return true;
        case Q_FUZZY: if (c.src.draw(2)) q.term = other(q.term); else if (c.src.draw(2)) q.min_sim = q.min_sim == 0.5f ? 0.25f : 0.5f; else q.pre_len++; return true;
        case Q_MULTI: if (q.max_terms) return false; q.terms.push_back("qq"); q.tb.push_back(1); return true;
        case Q_SPMULTI: if (q.max_terms) return false; q.terms.push_back("qq"); return true;
        case Q_RANGE: case Q_TRANGE:
            if (q.has_lo && c.src.draw(2)) { if (c.src.draw(2)) q.inc_lo = !q.inc_lo; else { double a; if (sscanf(q.lo.c_str(), "%lg", &a) == 1) return false; q.lo = "A"; } return true; }
            if (q.has_hi) { if (c.src.draw(2)) q.inc_hi = !q.inc_hi; else { double a; if (sscanf(q.hi.c_str(), "%lg", &a) == 1) return false; q.hi += "z"; } return true; }
            return false;
        case Q_PHRASE:
            if (q.pos.empty()) return false;
            if (c.src.chance(1, 3)) { q.slop++; return true; }
            { uint32_t i = c.src.draw((uint32_t)q.pos.size()); if (i && c.src.draw(2)) q.inc[i]++; else if (c.src.draw(2)) q.pos[i][0] = "qq"; else q.pos[i].push_back("qq"); }
            return true;
        case Q_SPFIRST: q.end++; return true;
        case Q_SPNEAR: if (c.src.draw(2)) q.slop++; else q.in_order = !q.in_order; return true;
        case Q_CONST: return mutate(c, q.sub[0], g);
        default: return false;
    }
}
static QN meaning(QN q)        // a range used as a filter has no boost, nor has a span within a span
{
    for (auto &s : q.sub) { s = meaning(s); if (is_span(q.k)) s.boost = 1; if ((q.k == Q_CONST || (q.k == Q_FILT && &s == &q.sub[1])) && (s.k == Q_RANGE || s.k == Q_TRANGE)) s.boost = 1; }
    return q;
}
static std::string show(FrtQuery *q) { char *s = q->to_s(q, sy("t0")); std::string r = s; free(s); return r; }
static void p28(Ctx &c)
{
    Op a(c), b(c); a.make(4); b.h.dirname = "idx2"; b.h.setup(false); b.h.qg = a.h.qg; b.h.fill(1 + c.src.geo(3, 60)); b.open();
    QGen g = a.h.qg; g.filters = true; uint32_t n = 2 + c.src.geo(5, 70); int used = 0;
    for (uint32_t i = 0; i < n; i++) {
        QN q = gen_query(c, g); c.t("query %s", q_str(q).c_str());
        FrtQuery *p = q_build(q), *r = q_build(q);
        CHECK(frt_q_eq(p, r) && frt_q_eq(r, p), "eq", "two queries built as %s are not equal", q_str(q).c_str());
        CHECK(frt_q_eq(p, p), "eq", "%s is not equal to itself", q_str(q).c_str());
        CHECK(frt_q_hash(p) == frt_q_hash(r), "hash", "two queries built as %s have different hashes", q_str(q).c_str());
        QN q2 = q;
        for (int k = 0; k < 3; k++) {
            q2 = q; if (!mutate(c, q2, g) || meaning(q2) == meaning(q)) continue;
            FrtQuery *o = nullptr; int e = frt_try([&] { o = q_build(q2); });
            if (e) { CHECK(e == FRT_ARG_ERROR, "error", "building %s: error %d: %s", q_str(q2).c_str(), e, g_last_error.c_str()); continue; }      // the mutation is not a valid query
            CHECK(!frt_q_eq(p, o) && !frt_q_eq(o, p), "eq", "%s and %s are equal", q_str(q).c_str(), q_str(q2).c_str());
            frt_q_deref(o); c.label("mutated");
        }
        unsigned long h0 = frt_q_hash(p); std::string s0 = show(p);
        CHECK(s0 == show(r), "to_s", "two queries built as %s print as %s and %s", q_str(q).c_str(), s0.c_str(), show(r).c_str());
        // use it in many ways, on two indexes
        uint32_t uses = 1 + c.src.geo(4, 65);
        for (uint32_t u = 0; u < uses; u++) {
            Op &o = c.src.draw(2) ? b : a; SX &x = *o.x; FrtQuery *fresh = q_build(q);
            switch (c.src.weighted({4, 2, 2, 1, 1})) {
                case 0: {
                    Res rp, rf; c.t("search"); SAFE("search", q, rp = do_search(x.sea, p, 0, x.max_doc + 1)); SAFE("search", q, rf = do_search(x.sea, fresh, 0, x.max_doc + 1));
                    same_ranking("search with a used query object", q, rp.v, rf.v, "with a fresh one"); cmp_docs("search with a used query object", q, docs_of(rp.v, true), docs_of(rf.v, true)); if (!rf.v.empty()) used++; break;
                }
                case 1: if (x.max_doc) {
                    int d = (int)c.src.draw((uint32_t)x.max_doc); float vp = 0, vf = 0; c.t("explain %d", d);
                    SAFE("explain", q, FrtExplanation *e = x.sea->explain(x.sea, p, d); vp = e->value; frt_expl_destroy(e); e = x.sea->explain(x.sea, fresh, d); vf = e->value; frt_expl_destroy(e));
                    CHECK(close_to(vp, vf) || (std::isnan(vp) && std::isnan(vf)), "explain", "explain with a used %s gives %g, with a fresh one %g", q_str(q).c_str(), vp, vf);
                } break;
                case 2: if (!x.map.empty()) {
                    int d = x.map[c.src.draw((uint32_t)x.map.size())]; c.t("highlight %d", d);
                    auto hl = [&](FrtQuery *qq) { std::string t; char **e = frt_searcher_highlight(x.sea, qq, d, sy("t0"), 20, 3, "<", ">", "..."); if (e) { for (int k = 0; k < frt_ary_size(e); k++) t += std::string(e[k]) + "|"; frt_ary_destroy_i((void **)e, &free); } return t; };
                    std::string hp, hf; SAFE("highlight", q, hp = hl(p); hf = hl(fresh));
                    CHECK(hp == hf, "highlight", "highlight with a used %s gives %s, with a fresh one %s", q_str(q).c_str(), esc(hp).c_str(), esc(hf).c_str());
                } break;
                case 3: { FrtQuery *rw = nullptr; c.t("rewrite"); SAFE("rewrite", q, rw = x.sea->rewrite(x.sea, p)); frt_q_deref(rw); break; }
                default: c.t("print"); show(p);
            }
            frt_q_deref(fresh);
            std::string s1 = show(p);
            CHECK(s1 == s0, "to_s", "%s printed as %s before and %s after use", q_str(q).c_str(), s0.c_str(), s1.c_str());
            CHECK(frt_q_hash(p) == h0, "hash", "the hash of %s changed by using it", q_str(q).c_str());
            CHECK(frt_q_eq(p, r) && frt_q_eq(r, p), "eq", "%s is no longer equal to an unused one after use", q_str(q).c_str());
        }
        frt_q_deref(p); frt_q_deref(r);
    }
    c.nontrivial = used > 0;
    a.finish(); b.finish();
}

#define IDX "a random index (fields with and without norms, boosts, several segments, committed and uncommitted deletions) and "
const Prop the_props[] = {
    {"P11", p11, 24000, 400000, IDX "random nested boolean queries over terms and match-all; ranked search, search_unscored, search_each and explain compared with brute force; non-trivial: some query has hits and some query matches a proper subset", "exploration", true, 60},
    {"P12", p12, 24000, 400000, IDX "random prefix, wildcard, fuzzy, range, typed-range and multi-term queries, alone or in boolean queries, compared with brute force over the term dictionary; non-trivial: some query has hits and some query matches a proper subset", "exploration", true, 60},
    {"P13", p13, 24000, 400000, IDX "random exact and sloppy phrases with gaps and alternatives, half taken from a document, compared with brute force over positions; non-trivial: some phrase query has hits", "exploration", true, 60},
    {"P14", p14, 24000, 400000, IDX "random nested span queries, alone or in boolean queries, compared with brute-force span enumeration; non-trivial: some query has hits and some query matches a proper subset", "exploration", true, 60},
    {"P15", p15, 16000, 300000, IDX "one filter reused over searches, readers, deletions and undeletions, as filter, post-filter, filtered query and constant-score query; non-trivial: the filter accepts a proper subset at some point and is used at least twice", "exploration", true, 60},
    {"P16", p16, 24000, 400000, IDX "random queries of every kind; every score compared with the formula, explanations with scores, and hits under changed boosts; non-trivial: at least 3 scores compared", "exploration", true, 60},
    {"P17", p17, 20000, 300000, IDX "random queries of every kind and random windows, compared with the full ranking; non-trivial: some query has at least two hits", "exploration", true, 60},
    {"P18", p18, 16000, 300000, IDX "random queries and sorts (score, doc, byte, integer, float, string, auto; reversed; several keys) with windows, deletions and undeletions, compared with a reference sort; non-trivial: some sorted result has more than two hits", "exploration", true, 60},
    {"P19", p19, 14000, 300000, "1 to 4 random indexes; random queries, sorts and windows through a multi-searcher compared with a searcher over a multi-reader of the same indexes; non-trivial: some query with several hits over at least two indexes", "exploration", true, 60},
    {"P28", p28, 14000, 300000, IDX "random queries of every kind built twice, mutated, and used repeatedly on two indexes; non-trivial: some use returned hits", "exploration", true, 60},
    {0}
};
