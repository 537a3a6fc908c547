#include "sq.hpp"

extern "C" FrtQuery *frt_spanmtq_new_conf(FrtSymbol field, int max_terms);
extern "C" void frt_spanmtq_add_term(FrtQuery *self, const char *term);
static FrtSymbol sy(const std::string &s) { return frt_intern(s.c_str()); }

bool QN::operator==(const QN &o) const
{
    return k == o.k && field == o.field && term == o.term && boost == o.boost && sub == o.sub && occ == o.occ && coord_off == o.coord_off && terms == o.terms && tb == o.tb
        && max_terms == o.max_terms && (k != Q_FUZZY || (min_sim == o.min_sim && pre_len == o.pre_len)) && has_lo == o.has_lo && has_hi == o.has_hi && inc_lo == o.inc_lo && inc_hi == o.inc_hi
        && lo == o.lo && hi == o.hi && pos == o.pos && inc == o.inc && slop == o.slop && end == o.end && in_order == o.in_order;
}
std::string q_str(const QN &q)
{
    std::string r;
    switch (q.k) {
        case Q_TERM: r = "term(" + q.field + ":" + esc(q.term) + ")"; break;
        case Q_ALL: r = "all()"; break;
        case Q_BOOL: r = q.coord_off ? "bool_nocoord(" : "bool("; for (size_t i = 0; i < q.sub.size(); i++) r += std::string(i ? " " : "") + (q.occ[i] == 1 ? "+" : q.occ[i] == 2 ? "-" : "") + q_str(q.sub[i]); r += ")"; break;
        case Q_MULTI: case Q_SPMULTI: r = (q.k == Q_MULTI ? "multi(" : "span_multi(") + q.field + ":"; for (size_t i = 0; i < q.terms.size(); i++) r += fmt("%s%s", i ? "|" : "", esc(q.terms[i]).c_str()) + (i < q.tb.size() && q.tb[i] != 1 ? fmt("^%g", q.tb[i]) : ""); r += ")"; break;
        case Q_PREFIX: r = "prefix(" + q.field + ":" + q.term + "*)"; break;
        case Q_WILD: r = "wild(" + q.field + ":" + q.term + ")"; break;
        case Q_FUZZY: r = fmt("fuzzy(%s:%s min_sim=%g pre_len=%d)", q.field.c_str(), q.term.c_str(), q.min_sim, q.pre_len); break;
        case Q_RANGE: case Q_TRANGE: r = fmt("%s(%s:%s%s,%s%s)", q.k == Q_RANGE ? "range" : "typed_range", q.field.c_str(), q.has_lo ? (q.inc_lo ? "[" : "{") : "<", q.lo.c_str(), q.hi.c_str(), q.has_hi ? (q.inc_hi ? "]" : "}") : ">"); break;
        case Q_PHRASE: r = "phrase(" + q.field + ":"; for (size_t i = 0; i < q.pos.size(); i++) { r += fmt("%s(+%d)", i ? " " : "", q.inc[i]); for (size_t j = 0; j < q.pos[i].size(); j++) r += (j ? "|" : "") + q.pos[i][j]; } r += fmt(")~%d", q.slop); break;
        case Q_SPTERM: r = "span_term(" + q.field + ":" + q.term + ")"; break;
        case Q_SPPREFIX: r = "span_prefix(" + q.field + ":" + q.term + "*)"; break;
        case Q_SPFIRST: r = "span_first(" + q_str(q.sub[0]) + fmt(",%d)", q.end); break;
        case Q_SPOR: case Q_SPNEAR: r = q.k == Q_SPOR ? "span_or(" : fmt("span_near(slop=%d%s;", q.slop, q.in_order ? ",ordered" : ""); for (size_t i = 0; i < q.sub.size(); i++) r += (i ? "," : "") + q_str(q.sub[i]); r += ")"; break;
        case Q_SPNOT: r = "span_not(" + q_str(q.sub[0]) + "," + q_str(q.sub[1]) + ")"; break;
        case Q_CONST: r = "const(" + q_str(q.sub[0]) + ")"; break;
        case Q_FILT: r = "filtered(" + q_str(q.sub[0]) + " by " + q_str(q.sub[1]) + ")"; break;
    }
    if (q.max_terms) r += fmt("<max %d>", q.max_terms);
    if (q.boost != 1.0f) r += fmt("^%g", q.boost);
    return r;
}
FrtFilter *f_build(const QN &q)
{
    if (q.k == Q_RANGE) return frt_rfilt_new(sy(q.field), q.has_lo ? q.lo.c_str() : nullptr, q.has_hi ? q.hi.c_str() : nullptr, q.inc_lo, q.inc_hi);
    if (q.k == Q_TRANGE) return frt_trfilt_new(sy(q.field), q.has_lo ? q.lo.c_str() : nullptr, q.has_hi ? q.hi.c_str() : nullptr, q.inc_lo, q.inc_hi);
    return frt_qfilt_new_nr(q_build(q));
}
bool g_bad_clauses = false;
static void bad_clauses(const QN &q, FrtQuery *r)      // clauses that do not belong there are refused and leave no trace
{
    if (!g_bad_clauses || std::hash<std::string>()(q_str(q)) % 4) return;
    if (q.k == Q_SPNOT) {
        FrtQuery *a = frt_spantq_new(sy(q.field), "a"), *b = frt_spantq_new(sy("other"), "a"), *x = nullptr;
        int e = frt_try([&] { x = frt_spanxq_new_nr(a, b); });
        CHECK(e == FRT_ARG_ERROR, "clause", "a span_not over two fields was accepted (status %d)", e);
        frt_q_deref(a); frt_q_deref(b); return;
    }
    if (q.sub.empty()) return;
    FrtQuery *bad = std::hash<std::string>()(q_str(q)) % 8 ? frt_spantq_new(sy("other"), "a") : frt_tq_new(sy(q.field), "a");
    int e = frt_try([&] { if (q.k == Q_SPOR) frt_spanoq_add_clause_nr(r, bad); else frt_spannq_add_clause_nr(r, bad); });
    CHECK(e == FRT_ARG_ERROR, "clause", "a clause that does not fit was added to %s (status %d)", q_str(q).c_str(), e);
    frt_q_deref(bad);
}
FrtQuery *q_build(const QN &q)
{
    FrtQuery *r = nullptr;
    switch (q.k) {
        case Q_TERM: r = frt_tq_new(sy(q.field), q.term.c_str()); break;
        case Q_ALL: r = frt_maq_new(); break;
        case Q_BOOL: r = frt_bq_new(q.coord_off); for (size_t i = 0; i < q.sub.size(); i++) frt_bq_add_query_nr(r, q_build(q.sub[i]), (FrtBCType)q.occ[i]); break;
        case Q_MULTI: r = q.max_terms ? frt_multi_tq_new_conf(sy(q.field), q.max_terms, 0.0f) : frt_multi_tq_new(sy(q.field)); for (size_t i = 0; i < q.terms.size(); i++) frt_multi_tq_add_term_boost(r, q.terms[i].c_str(), q.tb[i]); break;
        case Q_PREFIX: r = frt_prefixq_new(sy(q.field), q.term.c_str()); if (q.max_terms) FrtMTQMaxTerms(r) = q.max_terms; break;
        case Q_WILD: r = frt_wcq_new(sy(q.field), q.term.c_str()); if (q.max_terms) FrtMTQMaxTerms(r) = q.max_terms; break;
        case Q_FUZZY: r = frt_fuzq_new_conf(sy(q.field), q.term.c_str(), q.min_sim, q.pre_len, q.max_terms); break;
        case Q_RANGE: r = frt_rq_new(sy(q.field), q.has_lo ? q.lo.c_str() : nullptr, q.has_hi ? q.hi.c_str() : nullptr, q.inc_lo, q.inc_hi); break;
        case Q_TRANGE: r = frt_trq_new(sy(q.field), q.has_lo ? q.lo.c_str() : nullptr, q.has_hi ? q.hi.c_str() : nullptr, q.inc_lo, q.inc_hi); break;
        case Q_PHRASE:
            r = frt_phq_new(sy(q.field));
            for (size_t i = 0; i < q.pos.size(); i++) { frt_phq_add_term(r, q.pos[i][0].c_str(), q.inc[i]); for (size_t j = 1; j < q.pos[i].size(); j++) frt_phq_append_multi_term(r, q.pos[i][j].c_str()); }
            frt_phq_set_slop(r, q.slop); break;
        case Q_SPTERM: r = frt_spantq_new(sy(q.field), q.term.c_str()); break;
        case Q_SPMULTI: r = frt_spanmtq_new_conf(sy(q.field), q.max_terms ? q.max_terms : 1024); for (auto &t : q.terms) frt_spanmtq_add_term(r, t.c_str()); break;
        case Q_SPPREFIX: r = frt_spanprq_new(sy(q.field), q.term.c_str()); if (q.max_terms) ((FrtSpanPrefixQuery *)r)->max_terms = q.max_terms; break;
        case Q_SPFIRST: r = frt_spanfq_new_nr(q_build(q.sub[0]), q.end); break;
        case Q_SPOR: r = frt_spanoq_new(); for (auto &s : q.sub) frt_spanoq_add_clause_nr(r, q_build(s)); bad_clauses(q, r); break;
        case Q_SPNEAR: r = frt_spannq_new(q.slop, q.in_order); for (auto &s : q.sub) frt_spannq_add_clause_nr(r, q_build(s)); bad_clauses(q, r); break;
        case Q_SPNOT: bad_clauses(q, nullptr); r = frt_spanxq_new_nr(q_build(q.sub[0]), q_build(q.sub[1])); break;
        case Q_CONST: r = frt_csq_new_nr(f_build(q.sub[0])); break;
        case Q_FILT: r = frt_fq_new(q_build(q.sub[0]), f_build(q.sub[1])); break;
    }
    r->boost = q.boost;
    return r;
}

SX::SX(Ctx &cc, FrtIndexReader *r, FrtSearcher *s, const Model &mm, const Schema &sc) : c(cc), ir(r), sea(s), m(mm), schema(sc)
{
    map = live_map(r); max_doc = r->max_doc(r); sim = frt_sim_create_default();
    CHECK(map.size() == m.live.size(), "count", "the reader shows %zu documents, expected %zu", map.size(), m.live.size());
}
const std::vector<std::string> &SX::terms(const std::string &field)
{
    auto it = terms_cache.find(field);
    if (it != terms_cache.end()) return it->second;
    auto &v = terms_cache[field];
    if (frt_fis_get_field(ir->fis, sy(field))) {
        FrtTermEnum *te = frt_ir_terms(ir, sy(field)); char *t;
        if (te) { while ((t = te->next(te))) v.push_back(t); te->close(te); }
    }
    return v;
}
double SX::norm(const std::string &f, size_t i) const
{
    if (!schema.get(f).has_norms()) return 1.0;
    auto &l = m.live[i]; auto ov = l.norm_over.find(f);
    if (ov != l.norm_over.end()) return frt_sim_decode_norm(sim, ov->second);
    auto it = l.d->inv.find(f);
    return it == l.d->inv.end() ? 0.0 : frt_sim_decode_norm(sim, it->second.norm);
}

bool wc_ref(const char *p, const char *t)
{
    size_t n = strlen(p), m = strlen(t);
    std::vector<std::vector<char>> d(n + 1, std::vector<char>(m + 1, 0));
    d[0][0] = 1;
    for (size_t i = 1; i <= n; i++)
        for (size_t j = 0; j <= m; j++) {
            if (p[i - 1] == '*') d[i][j] = d[i - 1][j] || (j && d[i][j - 1]);
            else if (j) d[i][j] = d[i - 1][j - 1] && (p[i - 1] == '?' || p[i - 1] == t[j - 1]);
        }
    return d[n][m];
}
static int lev(const std::string &a, const std::string &b)
{
    std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1));
    for (size_t i = 0; i <= a.size(); i++) for (size_t j = 0; j <= b.size(); j++)
        d[i][j] = !i ? (int)j : !j ? (int)i : std::min({d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1])});
    return d[a.size()][b.size()];
}
static double fuzzy_sim(const QN &q, const std::string &t)     // -1: the prefix differs
{
    size_t p = (size_t)q.pre_len;
    if (t.compare(0, p, q.term, 0, p) != 0 || t.size() < p) return -1;
    std::string a = q.term.substr(p), b = t.substr(p);
    size_t mn = std::min(a.size(), b.size());
    if (!mn && !p) return 0;
    return 1.0 - (double)lev(a, b) / (double)(p + mn);
}
static bool fuzzy_amb(double s, double m) { return fabs(s - m) < 1e-5 && s * 64 != floor(s * 64); }
bool ambiguous(SX &x, const QN &q)
{
    for (auto &s : q.sub) if (ambiguous(x, s)) return true;
    if (q.k == Q_FUZZY) for (auto &t : x.terms(q.field)) if (fuzzy_amb(fuzzy_sim(q, t), q.min_sim)) return true;
    return false;
}
static void bounded_add(std::vector<std::pair<std::string, double>> &v, const std::string &t, float b, size_t max, float &min_boost)
{
    if (!(b > min_boost) || t.empty()) return;
    auto less = [](const std::pair<std::string, double> &a, const std::pair<std::string, double> &o) { return a.second != o.second ? a.second < o.second : a.first < o.first; };
    v.push_back({t, b});
    if (v.size() > max) v.erase(std::min_element(v.begin(), v.end(), less));
    if (v.size() == max) min_boost = (float)std::min_element(v.begin(), v.end(), less)->second;
}
std::vector<std::pair<std::string, double>> expand(SX &x, const QN &q)
{
    std::vector<std::pair<std::string, double>> v; size_t max = q.max_terms ? (size_t)q.max_terms : 256; float mb = 0;
    switch (q.k) {
        case Q_MULTI: for (size_t i = 0; i < q.terms.size(); i++) bounded_add(v, q.terms[i], q.tb[i], max, mb); break;
        case Q_PREFIX: case Q_SPPREFIX: for (auto &t : x.terms(q.field)) if (t.compare(0, q.term.size(), q.term) == 0 && v.size() < max) v.push_back({t, 1}); break;
        case Q_WILD: for (auto &t : x.terms(q.field)) if (wc_ref(q.term.c_str(), t.c_str())) bounded_add(v, t, 1, max, mb); break;
        case Q_FUZZY: mb = q.min_sim; for (auto &t : x.terms(q.field)) bounded_add(v, t, (float)fuzzy_sim(q, t), max, mb); break;
        default: break;
    }
    return v;
}
static bool parse_num(const std::string &s, double &d)
{
    int len = 0; if (s.empty() || isspace((unsigned char)s[0])) return false;
    return sscanf(s.c_str(), "%lg%n", &d, &len) == 1 && len == (int)s.size();
}
bool range_term(const QN &q, const std::string &t)
{
    double lo = 0, hi = 0, v;
    if (q.k == Q_TRANGE && (!q.has_lo || parse_num(q.lo, lo)) && (!q.has_hi || parse_num(q.hi, hi))) {
        if (!parse_num(t, v) || !strchr("+-.0123456789", t[0])) return false;
        return (!q.has_lo || (q.inc_lo ? v >= lo : v > lo)) && (!q.has_hi || (q.inc_hi ? v <= hi : v < hi));
    }
    return (!q.has_lo || (q.inc_lo ? t >= q.lo : t > q.lo)) && (!q.has_hi || (q.inc_hi ? t <= q.hi : t < q.hi));
}
const std::vector<int> *plist(SX &x, const std::string &f, const std::string &t, size_t i)
{
    auto it = x.m.live[i].d->inv.find(f); if (it == x.m.live[i].d->inv.end()) return nullptr;
    auto p = it->second.postings.find(t); return p == it->second.postings.end() ? nullptr : &p->second;
}
std::vector<std::vector<int>> phrase_lists(SX &x, const QN &q, size_t i, std::vector<int> &off)
{
    std::vector<std::vector<int>> L; int at = 0;
    for (size_t k = 0; k < q.pos.size(); k++) {
        at += q.inc[k]; off.push_back(at);
        std::vector<int> v;
        for (auto &t : q.pos[k]) if (auto p = plist(x, q.field, t, i)) v.insert(v.end(), p->begin(), p->end());
        std::sort(v.begin(), v.end());
        for (auto &p : v) p -= at;
        L.push_back(v);
    }
    return L;
}
static double phrase_freq(SX &x, const QN &q, size_t i)
{
    std::vector<int> off; auto L = phrase_lists(x, q, i, off);
    for (auto &v : L) if (v.empty()) return 0;
    if (L.empty()) return 0;
    if (!q.slop) {
        int n = 0;
        for (int b : L[0]) { bool all = true; for (auto &v : L) all = all && std::binary_search(v.begin(), v.end(), b); n += all; }
        return n;
    }
    // the sloppy frequency: windows found by always advancing the smallest position
    std::vector<size_t> at(L.size(), 0); int last = INT_MIN; double f = 0;
    for (auto &v : L) last = std::max(last, v[0]);
    for (bool done = false; !done; ) {
        size_t k = 0;
        for (size_t j = 1; j < L.size(); j++) if (std::make_pair(L[j][at[j]], off[j]) < std::make_pair(L[k][at[k]], off[k])) k = j;
        int next = INT_MAX; for (size_t j = 0; j < L.size(); j++) if (j != k) next = std::min(next, L[j][at[j]]);
        int start = L[k][at[k]];
        while (L[k][at[k]] <= next) { start = L[k][at[k]]; if (at[k] + 1 >= L[k].size()) { done = true; break; } at[k]++; }
        if (last - start <= q.slop) f += 1.0 / (last - start + 1);
        last = std::max(last, L[k][at[k]]);
    }
    // independently: is there one occurrence of each with a small enough spread?
    bool ex = false;
    for (auto &v : L) for (int lo : v) { bool all = true; for (auto &w : L) { auto it = std::lower_bound(w.begin(), w.end(), lo); all = all && it != w.end() && *it - lo <= q.slop; } ex = ex || all; }
    if (ex != (f > 0)) { fprintf(stderr, "phrase oracle disagrees with itself\n"); abort(); }
    return f;
}
typedef std::vector<std::pair<int, int>> SpanV;
SpanV spans_of(SX &x, const QN &q, size_t i)
{
    SpanV r;
    switch (q.k) {
        case Q_SPTERM: if (auto p = plist(x, q.field, q.term, i)) for (int a : *p) r.push_back({a, a + 1}); break;
        case Q_SPMULTI: { size_t n = 0; for (auto &t : q.terms) { if (q.max_terms && n++ >= (size_t)q.max_terms) break; if (auto p = plist(x, q.field, t, i)) for (int a : *p) r.push_back({a, a + 1}); } break; }
        case Q_SPPREFIX: for (auto &t : expand(x, q)) if (auto p = plist(x, q.field, t.first, i)) for (int a : *p) r.push_back({a, a + 1}); break;
        case Q_SPFIRST: for (auto &s : spans_of(x, q.sub[0], i)) if (s.second <= q.end) r.push_back(s); break;
        case Q_SPOR: for (auto &q2 : q.sub) { SpanV v = spans_of(x, q2, i); r.insert(r.end(), v.begin(), v.end()); } break;
        case Q_SPNOT: { SpanV e = spans_of(x, q.sub[1], i); for (auto &s : spans_of(x, q.sub[0], i)) { bool hit = false; for (auto &o : e) hit = hit || (o.second > s.first && o.first < s.second); if (!hit) r.push_back(s); } break; }
        case Q_SPNEAR: {
            std::vector<SpanV> L; for (auto &q2 : q.sub) { L.push_back(spans_of(x, q2, i)); if (L.back().empty()) return r; }
            if (L.empty()) return r;
            std::vector<size_t> at(L.size(), 0);
            if (q.in_order) {
                for (; at[0] < L[0].size(); at[0]++) {
                    auto prev = L[0][at[0]]; int sum = prev.second - prev.first; bool ok = true;
                    for (size_t k = 1; k < L.size() && ok; k++) {
                        while (at[k] < L[k].size() && L[k][at[k]] < prev) at[k]++;
                        if (at[k] >= L[k].size()) { ok = false; break; }
                        prev = L[k][at[k]]; sum += prev.second - prev.first;
                    }
                    if (!ok) break;
                    if (prev.second - L[0][at[0]].first - sum <= q.slop) r.push_back({L[0][at[0]].first, prev.second});
                }
            } else {
                for (;;) {
                    int mx = 0, mn = INT_MAX, sum = 0; size_t mk = 0;
                    for (size_t k = 0; k < L.size(); k++) { auto s = L[k][at[k]]; mx = std::max(mx, s.second); if (s.first < mn) { mn = s.first; mk = k; } sum += s.second - s.first; }
                    if (mx - mn - sum <= q.slop) r.push_back({mn, mx});
                    if (++at[mk] >= L[mk].size()) break;
                }
            }
            bool flat = true; for (auto &v : L) for (auto &s : v) flat = flat && s.second == s.first + 1;
            if (flat) {                        // independently, by trying every combination (bounded)
                size_t combos = 1; for (auto &v : L) { combos *= v.size(); if (combos > 4000) break; }
                if (combos <= 4000) {
                    bool any = false; std::vector<size_t> ix(L.size(), 0);
                    for (size_t n = 0; n < combos && !any; n++) {
                        int mx = 0, mn = INT_MAX, p = -1; bool ord = true;
                        for (size_t k = 0; k < L.size(); k++) { int s = L[k][ix[k]].first; mx = std::max(mx, s + 1); mn = std::min(mn, s); ord = ord && s >= p; p = s; }
                        any = (ord || !q.in_order) && mx - mn - (int)L.size() <= q.slop;
                        for (size_t k = 0; k < L.size(); k++) { if (++ix[k] < L[k].size()) break; ix[k] = 0; }
                    }
                    if (any != !r.empty()) { fprintf(stderr, "span oracle disagrees with itself\n"); abort(); }
                }
            }
            break;
        }
        default: break;
    }
    std::sort(r.begin(), r.end());
    if (q.k == Q_SPMULTI || q.k == Q_SPPREFIX) r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
void span_terms(SX &x, const QN &q, std::set<std::string> &s)
{
    switch (q.k) {
        case Q_SPTERM: s.insert(q.term); break;
        case Q_SPMULTI: { size_t n = 0; for (auto &t : q.terms) { if (q.max_terms && n++ >= (size_t)q.max_terms) break; s.insert(t); } break; }
        case Q_SPPREFIX: for (auto &t : expand(x, q)) s.insert(t.first); break;
        case Q_SPNOT: span_terms(x, q.sub[0], s); break;
        default: for (auto &o : q.sub) span_terms(x, o, s);
    }
}

double QW::sumsq() const
{
    if (k == Q_BOOL) { double s = 0; for (size_t i = 0; i < sub.size(); i++) if (occ[i] != 2) s += sub[i].sumsq(); return s * boost * boost; }
    if (k == Q_FILT) return sub[0].sumsq() * boost * boost;
    return (idf * boost) * (idf * boost);
}
void QW::normalize(double f)
{
    if (k == Q_BOOL) { for (size_t i = 0; i < sub.size(); i++) if (occ[i] != 2) sub[i].normalize(f * boost); return; }
    if (k == Q_FILT) { sub[0].normalize(f * boost); return; }
    value = idf * boost * f * idf;
}
QW q_weight_model(SX &x, const QN &q)
{
    QW w; w.k = q.k; w.q = &q; w.boost = q.boost; w.field = q.field;
    auto multi = [&](std::vector<std::pair<std::string, double>> v) { w.k = Q_MULTI; w.terms = v; int d = 0; for (auto &t : v) d += x.df(q.field, t.first); w.idf = x.idf(d); };
    switch (q.k) {
        case Q_TERM: w.terms = {{q.term, 1}}; w.idf = x.idf(x.df(q.field, q.term)); break;
        case Q_WILD: if (q.term.find_first_of("*?") == std::string::npos) { w.k = Q_TERM; w.terms = {{q.term, 1}}; w.idf = x.idf(x.df(q.field, q.term)); } else multi(expand(x, q)); break;
        case Q_FUZZY: if (!frt_fis_get_field(x.ir->fis, sy(q.field))) w.k = Q_BOOL; else if (q.pre_len >= (int)q.term.size()) { w.k = Q_TERM; w.terms = {{q.term, 1}}; w.idf = x.idf(x.df(q.field, q.term)); } else multi(expand(x, q)); break;
        case Q_MULTI: case Q_PREFIX: multi(expand(x, q)); break;
        case Q_PHRASE:
            if (q.pos.size() == 1) { std::vector<std::pair<std::string, double>> v; for (auto &t : q.pos[0]) v.push_back({t, 1}); if (v.size() == 1) { w.k = Q_TERM; w.terms = v; w.idf = x.idf(x.df(q.field, v[0].first)); } else multi(v); break; }
            w.idf = 0; for (auto &p : q.pos) for (auto &t : p) w.idf += x.idf(x.df(q.field, t)); break;
        case Q_BOOL: {
            w.coord_off = q.coord_off; bool any = false;
            for (size_t i = 0; i < q.sub.size(); i++) { w.sub.push_back(q_weight_model(x, q.sub[i])); w.occ.push_back(q.occ[i]); any = any || q.occ[i] != 2; }
            if (!q.sub.empty() && !any) { QW a; a.k = Q_ALL; w.sub.push_back(a); w.occ.push_back(1); }
            break;
        }
        case Q_FILT: w.sub.push_back(q_weight_model(x, q.sub[0])); break;
        case Q_ALL: case Q_CONST: case Q_RANGE: case Q_TRANGE: break;
        default: { std::set<std::string> s; span_terms(x, q, s); w.idf = 0; for (auto &t : s) w.idf += x.idf(x.df(q.field, t)); }
    }
    return w;
}
QW q_weight_top(SX &x, const QN &q) { QW w = q_weight_model(x, q); w.normalize(1.0 / sqrt(w.sumsq())); return w; }
QR q_eval(SX &x, const QW &w, size_t i)
{
    QR no{false, 0};
    switch (w.k) {
        case Q_TERM: case Q_MULTI: {
            double s = 0; bool m = false;
            for (auto &t : w.terms) if (auto p = plist(x, w.field, t.first, i)) { m = true; s += sqrt((double)p->size()) * t.second; }
            return m ? QR{true, s * w.value * x.norm(w.field, i)} : no;
        }
        case Q_ALL: return {true, w.value};
        case Q_RANGE: case Q_TRANGE: {
            auto it = x.m.live[i].d->inv.find(w.field); if (it == x.m.live[i].d->inv.end()) return no;
            for (auto &kv : it->second.postings) if (range_term(*w.q, kv.first)) return {true, w.value};
            return no;
        }
        case Q_CONST: return q_match(x, w.q->sub[0], i) ? QR{true, w.value} : no;
        case Q_FILT: { QR r = q_eval(x, w.sub[0], i); return r.m && q_match(x, w.q->sub[1], i) ? r : no; }
        case Q_PHRASE: { double f = phrase_freq(x, *w.q, i); return f > 0 ? QR{true, sqrt(f) * w.value * x.norm(w.field, i)} : no; }
        case Q_BOOL: {
            int must = 0, hit = 0, tot = 0; double s = 0;
            for (size_t k = 0; k < w.sub.size(); k++) {
                QR r = q_eval(x, w.sub[k], i);
                if (w.occ[k] == 2) { if (r.m) return no; continue; }
                tot++; if (w.occ[k] == 1) { must++; if (!r.m) return no; }
                if (r.m) { hit++; s += r.s; }
            }
            if (!hit) return no;
            return {true, w.coord_off ? s : s * hit / tot};
        }
        default: {
            SpanV v = spans_of(x, *w.q, i); if (v.empty()) return no;
            double f = 0; for (auto &s : v) f += 1.0 / (s.second - s.first + 1);
            return {true, sqrt(f) * w.value * x.norm(w.field, i)};
        }
    }
}
bool q_match(SX &x, const QN &q, size_t i) { QW w = q_weight_model(x, q); return q_eval(x, w, i).m; }

// ---------------------------------------------------------------- generation
static float gen_boost(Ctx &c, const QGen &g) { return g.boosts && c.src.chance(1, 5) ? c.src.pick(std::vector<float>{2.0f, 0.5f, 3.0f, 10.0f}) : 1.0f; }
static std::string gen_field(Ctx &c, const QGen &g, bool text)
{
    uint32_t r = c.src.weighted({12, 4, 2, 2, 1, 1});
    if (r == 1) return "t1"; if (r == 2) return "t2";
    if (r == 3 && !text) return "k";
    if (r == 4 && g.odd_fields) return "zz";
    if (r == 5 && !text) return "s";
    return "t0";
}
static std::string qword(Ctx &c, const QGen &g) { return g.words.empty() || c.src.chance(1, 20) ? c.src.pick(std::vector<std::string>{"a", "b", "zz", "ca", "bbbb"}) : c.src.pick(g.words); }
QN gen_range(Ctx &c, const QGen &g, bool typed)
{
    QN q; q.k = typed ? Q_TRANGE : Q_RANGE; q.boost = gen_boost(c, g);
    bool num = typed ? !c.src.chance(1, 5) : c.src.chance(1, 3);
    q.field = num ? c.src.pick(std::vector<std::string>{"n", "x", "n", "s"}) : c.src.pick(std::vector<std::string>{"t0", "k", "t1", "s", "t2", "n", "zz"});
    auto bound = [&] { return num && !c.src.chance(1, 10) && !g.nums.empty() ? c.src.pick(g.nums) : qword(c, g); };
    q.lo = bound(); q.hi = bound();
    switch (c.src.draw(4)) { case 0: q.has_lo = true; break; case 1: q.has_hi = true; break; default: q.has_lo = q.has_hi = true; }
    if (!q.has_lo) q.lo.clear(); else q.inc_lo = c.src.draw(2);
    if (!q.has_hi) q.hi.clear(); else q.inc_hi = c.src.draw(2);
    if (q.has_lo && q.has_hi) {
        double a, b; bool nn = typed && parse_num(q.lo, a) && parse_num(q.hi, b);
        if (nn ? b < a : q.hi < q.lo) std::swap(q.lo, q.hi);
    }
    return q;
}
QN gen_expanding(Ctx &c, const QGen &g)
{
    QN q; q.field = gen_field(c, g, false); q.boost = gen_boost(c, g);
    std::string w = qword(c, g); if (c.src.chance(1, 40)) w += std::string(200 + c.src.draw(400), 'a');      // longer than any term can be
    switch (c.src.weighted({4, 5, 4, 3})) {
        case 0: q.k = Q_PREFIX; q.term = w.substr(0, 1 + c.src.draw((uint32_t)w.size())); break;
        case 1: {
            q.k = Q_WILD; q.term = w;
            uint32_t n = c.src.geo(4, 70);
            for (uint32_t i = 0; i < n; i++) {
                uint32_t p = c.src.draw((uint32_t)q.term.size() + 1);
                switch (c.src.draw(4)) {
                    case 0: if (p < q.term.size()) { q.term[p] = '?'; break; } /* fall through */
                    case 1: q.term.insert(p, "*"); break;
                    case 2: if (p < q.term.size()) { q.term[p] = '*'; break; } /* fall through */
                    default: q.term.insert(p, "?");
                }
            }
            break;
        }
        case 2:
            q.k = Q_FUZZY; q.term = w; q.min_sim = c.src.pick(std::vector<float>{0.5f, 0.3f, 0.7f, 0.25f, 0.75f, 0.1f, 0.9f, 0.6f});
            q.pre_len = c.src.chance(1, 2) ? (int)c.src.draw((uint32_t)w.size() + 2) : 0;
            if (c.src.chance(1, 2) && q.term.size() > 1) q.term[c.src.draw((uint32_t)q.term.size())] = (char)('a' + c.src.draw(4));
            break;
        default: {
            q.k = Q_MULTI; uint32_t n = c.src.geo(6, 75);
            for (uint32_t i = 0; i < n; i++) { q.terms.push_back(qword(c, g)); q.tb.push_back(c.src.chance(1, 3) ? c.src.pick(std::vector<float>{2.0f, 0.5f, 5.0f}) : 1.0f); }
        }
    }
    if (c.src.chance(1, 6)) q.max_terms = 1 + (int)c.src.draw(4);
    return q;
}
QN gen_phrase(Ctx &c, const QGen &g)
{
    QN q; q.k = Q_PHRASE; q.field = gen_field(c, g, true); q.boost = gen_boost(c, g);
    bool sloppy = c.src.chance(2, 5); std::set<std::string> used;
    uint32_t n = c.src.chance(1, 25) ? 0 : c.src.chance(1, 20) ? 1 : 2 + c.src.geo(3, 40);
    for (uint32_t i = 0; i < n; i++) {
        std::vector<std::string> alt; uint32_t na = c.src.chance(1, 6) ? 2 + c.src.geo(2, 40) : 1;
        for (uint32_t j = 0; j < na; j++) { std::string w = qword(c, g); if (std::find(alt.begin(), alt.end(), w) != alt.end() || (sloppy && used.count(w))) continue; alt.push_back(w); used.insert(w); }
        if (alt.empty()) continue;
        q.pos.push_back(alt); q.inc.push_back(q.pos.size() == 1 ? (c.src.chance(1, 10) ? 2 : 0) : (int)c.src.weighted({0, 14, 2, 1}));
        if (q.pos.size() > 1 && c.src.chance(1, 20)) q.inc.back() = c.src.draw(2) ? 0 : -1 - (int)c.src.draw(2);
    }
    if (sloppy) q.slop = 1 + (int)c.src.geo(8, 60);
    return q;
}
QN gen_span(Ctx &c, const QGen &g, const std::string &field, int depth)
{
    QN q; q.field = field;
    auto leaf = [&] {
        switch (c.src.weighted({8, 2, 2})) {
            case 0: q.k = Q_SPTERM; q.term = qword(c, g); break;
            case 1: { q.k = Q_SPMULTI; std::set<std::string> s; uint32_t n = c.src.geo(4, 75); for (uint32_t i = 0; i < n; i++) s.insert(qword(c, g)); q.terms.assign(s.begin(), s.end()); break; }
            default: { q.k = Q_SPPREFIX; std::string w = qword(c, g); q.term = w.substr(0, 1 + c.src.draw((uint32_t)w.size())); if (c.src.chance(1, 8)) q.max_terms = 1 + (int)c.src.draw(3); }
        }
    };
    auto few = [&](uint32_t n) { if (depth || !c.src.chance(1, 40)) return n; return c.src.draw(3) ? c.src.draw(2) : 40 + c.src.draw(40); };     // now and then none, one, or very many
    if (depth >= 3 || !c.src.chance(depth == 0 ? 9 : 4, 10)) leaf();
    else switch (c.src.weighted({2, 3, 6, 3})) {
        case 0: q.k = Q_SPFIRST; q.sub.push_back(gen_span(c, g, field, depth + 1)); q.end = 1 + (int)c.src.geo(8, 60); break;
        case 1: { q.k = Q_SPOR; uint32_t n = few(1 + c.src.geo(3, 60)); for (uint32_t i = 0; i < n; i++) q.sub.push_back(gen_span(c, g, field, depth + 1)); break; }
        case 2: { q.k = Q_SPNEAR; uint32_t n = few(2 + c.src.geo(2, 35)); q.in_order = c.src.draw(2); q.slop = (int)c.src.geo(6, 60); for (uint32_t i = 0; i < n; i++) q.sub.push_back(gen_span(c, g, field, depth + 1)); break; }
        default: q.k = Q_SPNOT; q.sub.push_back(gen_span(c, g, field, depth + 1)); q.sub.push_back(gen_span(c, g, field, depth + 1)); break;
    }
    if (depth == 0) q.boost = gen_boost(c, g);
    return q;
}
QN gen_query(Ctx &c, const QGen &g, int depth)
{
    QN q;
    uint32_t wb = g.bools && depth < g.max_depth ? (depth ? 4 : 12) : 0;
    switch (c.src.weighted({8, 1, wb, g.expanding ? 5u : 0u, g.phrases ? 4u : 0u, g.spans ? 4u : 0u, g.ranges ? 2u : 0u, g.filters ? 2u : 0u})) {
        case 0: q.k = Q_TERM; q.field = gen_field(c, g, false); q.term = qword(c, g); break;
        case 1: q.k = Q_ALL; break;
        case 2: {
            q.k = Q_BOOL; q.coord_off = c.src.chance(1, 8);
            uint32_t n = c.src.chance(1, 30) ? 0 : 1 + c.src.geo(4, 70);
            for (uint32_t i = 0; i < n; i++) { q.sub.push_back(gen_query(c, g, depth + 1)); q.occ.push_back((int)c.src.weighted({5, 3, 2})); }
            break;
        }
        case 3: q = gen_expanding(c, g); break;
        case 4: q = gen_phrase(c, g); break;
        case 5: q = gen_span(c, g, gen_field(c, g, true)); break;
        case 6: q = gen_range(c, g, c.src.draw(2)); break;
        default: {
            QGen h = g; h.filters = false; h.max_depth = 2;
            auto filt = [&] { return c.src.draw(2) ? gen_range(c, h, c.src.draw(2)) : gen_query(c, h, 1); };
            if (c.src.draw(2)) { q.k = Q_CONST; QN f = filt(); f.boost = 1; q.sub.push_back(f); }
            else { q.k = Q_FILT; q.sub.push_back(gen_query(c, h, 1)); QN f = filt(); f.boost = 1; q.sub.push_back(f); }
        }
    }
    if (q.boost == 1.0f) q.boost = gen_boost(c, g);
    return q;
}

// ---------------------------------------------------------------- searchable histories
void SHist::setup(bool fs, bool std_analyzer)
{
    cfg = gen_cfg(c); cfg.analyzer = std_analyzer ? A_STANDARD : A_WHITESPACE; cfg.c.max_field_length = 10000;
    auto add = [&](const char *n, FrtIndexValue iv, FrtTermVectorValue tv, float b) { MField f; f.name = n; f.store = FRT_STORE_YES; f.index = iv; f.tv = tv; f.boost = b; schema.declared.push_back(f); };
    schema.dstore = FRT_STORE_YES; schema.dindex = FRT_INDEX_YES; schema.dtv = FRT_TERM_VECTOR_NO;
    add("uid", FRT_INDEX_UNTOKENIZED_OMIT_NORMS, FRT_TERM_VECTOR_NO, 1);
    add("t0", FRT_INDEX_YES, FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS, 1);
    add("t1", FRT_INDEX_YES, FRT_TERM_VECTOR_NO, 2.0f);
    add("t2", FRT_INDEX_YES_OMIT_NORMS, FRT_TERM_VECTOR_NO, 1);
    add("k", FRT_INDEX_UNTOKENIZED, FRT_TERM_VECTOR_NO, 1);
    add("n", FRT_INDEX_UNTOKENIZED_OMIT_NORMS, FRT_TERM_VECTOR_NO, 1);
    add("x", FRT_INDEX_UNTOKENIZED_OMIT_NORMS, FRT_TERM_VECTOR_NO, 1);
    add("s", FRT_INDEX_UNTOKENIZED, FRT_TERM_VECTOR_NO, 1);
    g.max_words = 12; g.vocab = 0;
    // a vocabulary for this case
    std::set<std::string> v; uint32_t n = 2 + c.src.geo(30, 92);
    for (uint32_t i = 0; i < n; i++) { std::string w; uint32_t l = 1 + c.src.geo(5, c.src.chance(1, 3) ? 80 : 30); for (uint32_t k = 0; k < l; k++) w += (char)('a' + c.src.draw(3)); v.insert(w); }
    if (c.src.chance(1, 10)) { v.insert(std::string(c.src.pick(std::vector<uint32_t>{25, 60, 254}), 'a')); }
    if (c.src.chance(1, 10)) {                             // long words that differ in a part
        std::string w; uint32_t l = c.src.pick(std::vector<uint32_t>{26, 28, 29, 30, 31, 32, 40, 80, 200}); for (uint32_t k = 0; k < l; k++) w += (char)('a' + k % 3); v.insert(w);
        for (uint32_t i = 1 + c.src.geo(4, 70); i; i--) { std::string x = w; uint32_t n = c.src.draw(l), at = c.src.draw(l - n + 1); if (c.src.draw(3)) for (uint32_t k = 0; k < n; k++) x[at + k] = 'd'; else x.erase(at, n); v.insert(x); }
    }
    qg.words.assign(v.begin(), v.end());
    qg.nums = {"0", "1", "2", "3", "7", "10", "-5", "25", "100"};
    for (uint32_t i = c.src.geo(8, 70); i > 0; i--) qg.nums.push_back(c.src.chance(1, 4) ? c.src.pick(std::vector<std::string>{"3.5", "007", "1e2", "+4", ".5", "-0.25", "12ab", "10", "9", "-", "1e", "+"}) : fmt("%d", (int)c.src.draw(300) - 50));
    init(fs);
}
DocP SHist::sdoc()
{
    Src &s = c.src; DocP d = std::make_shared<MDoc>(); d->uid = g.next_uid++;
    if (s.chance(1, 8)) d->boost = s.pick(std::vector<float>{2.0f, 0.25f, 7.5f});
    auto put = [&](const char *n, std::string v) { for (auto &f : d->fields) if (f.name == n) { f.data.push_back(v); return; } MDocField f; f.name = n; f.data.push_back(v); d->fields.push_back(f); };
    put("uid", fmt("%llu", (unsigned long long)d->uid));
    auto text = [&](uint32_t max) { std::string r; uint32_t n = s.geo(max, 80); for (uint32_t i = 0; i < n; i++) { if (i) r += ' '; r += s.pick(qg.words); } return r; };
    put("t0", text(12)); if (s.chance(1, 10)) put("t0", text(4));
    if (s.chance(1, 30)) { std::string r = "rep"; for (uint32_t i = s.pick(std::vector<uint32_t>{30, 31, 32, 254, 255, 256, 300}); i; i--) r += " rep"; put("t0", r); }   // one word very often
    if (s.chance(1, 2)) put("t1", text(5));
    if (s.chance(1, 3)) put("t2", text(5));
    if (s.chance(1, 2)) put("k", s.chance(1, 20) ? "" : s.pick(qg.words)); if (s.chance(1, 12)) put("k", s.pick(qg.words));
    if (s.chance(2, 3)) put("n", s.pick(qg.nums));
    if (s.chance(1, 3)) put("x", s.pick(qg.nums)); if (s.chance(1, 12)) put("x", s.pick(qg.nums));
    if (s.chance(1, 3)) put("s", s.chance(1, 20) ? "" : s.chance(1, 3) ? s.pick(qg.nums) : s.pick(qg.words));
    for (auto &f : d->fields) if (s.chance(1, 12)) f.boost = s.pick(std::vector<float>{3.0f, 0.5f});
    return d;
}
void SHist::fill(uint32_t steps)
{
    for (uint32_t i = 0; i < steps; i++) switch (c.src.weighted({12, 1, 2, 1, 2, 1, 1})) {
        case 0: { uint32_t n = 1 + c.src.geo(5, 70); for (uint32_t k = 0; k < n; k++) add(sdoc()); break; }
        case 1: bulk(); break;
        case 2: if (m.live.size() > 2) del_term(); break;
        case 3: if (m.live.size() > 2) del_reader(); break;
        case 4: commit(); break;
        case 5: reopen(); break;
        case 6: optimize(); break;
    }
}
FrtIndexReader *SHist::reader()
{
    close_writer();
    FrtIndexReader *ir = frt_ir_open(st.st);
    c.t("open reader: %d docs, max_doc %d, %d segments", ir->num_docs(ir), ir->max_doc(ir), ir->sis ? ir->sis->size : -1);
    c.label(ir->sis && ir->sis->size > 1 ? "index.multi_segment" : "index.single_segment");
    if (c.src.chance(1, 5) && m.live.size() > 2) {
        std::vector<int> map = live_map(ir);
        uint32_t k = 1 + c.src.geo(3, 50);
        for (uint32_t i = 0; i < k && !m.live.empty(); i++) { uint32_t x = c.src.draw((uint32_t)m.live.size()); c.t("delete doc %d (#%llu), uncommitted", map[x], (unsigned long long)m.live[x].d->uid); frt_ir_delete_doc(ir, map[x]); model_delete_at(x); map.erase(map.begin() + x); }
    }
    if (ir->has_deletions(ir)) c.label("index.with_deletions");
    return ir;
}
