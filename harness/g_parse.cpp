// P20, P21: the query language.
#include "sq.hpp"

static FrtSymbol sy(const std::string &s) { return frt_intern(s.c_str()); }
typedef std::vector<std::string> Strs;
struct HitV { int doc; float score; };
static std::vector<HitV> do_search(FrtSearcher *sea, FrtQuery *q, int num)
{
    std::vector<HitV> v; FrtTopDocs *td = sea->search(sea, q, 0, num, nullptr, nullptr, nullptr, false);
    for (int i = 0; i < td->size; i++) v.push_back({td->hits[i]->doc, td->hits[i]->score});
    frt_td_destroy(td); return v;
}
static bool close_to(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || fabs(a - b) <= 2e-4 * std::max(fabs(a), fabs(b)) || (fabs(a) < 1e-30 && fabs(b) < 1e-30); }
static std::string hits_str(const std::vector<HitV> &v) { std::string r; for (size_t i = 0; i < v.size() && i < 20; i++) r += fmt("%s%d(%.5g)", i ? " " : "", v[i].doc, v[i].score); return "[" + r + (v.size() > 20 ? " ..." : "") + "]"; }
static std::string show(FrtQuery *q, const char *f = "t0") { char *s = q->to_s(q, sy(f)); std::string r = s; free(s); return r; }

struct Op {
    SHist h; FrtIndexReader *ir = nullptr; FrtSearcher *sea = nullptr; SX *x = nullptr;
    Op(Ctx &c) : h(c) {}
    void make(uint32_t max_steps) { h.setup(false); h.fill(1 + h.c.src.geo(max_steps, 80)); ir = h.reader(); sea = frt_isea_new(ir); x = new SX(h.c, ir, sea, h.m, h.schema); }
    void finish() { delete x; sea->close(sea); h.finish(); }
};

// ---------------------------------------------------------------- parser options
enum AK { K_WS, K_WSL, K_LET, K_LETL, K_STOP, K_STD, K_MBSTD, K_U8STD, K_LEG, K_MBLEG, K_MBWS, K_MBLET, K_NON, K_N };
static const char *ak_name[] = {"whitespace", "whitespace+lower", "letter", "letter+lower", "letter+lower+stop", "standard", "mb_standard", "utf8_standard", "legacy_standard", "mb_legacy_standard", "mb_whitespace+lower", "mb_letter+lower", "non"};
static const char *stop_words[] = {"b", "ab", "the", nullptr};
static FrtAnalyzer *new_analyzer(AK k)
{
    switch (k) {
        case K_WS: return frt_whitespace_analyzer_new(false);
        case K_WSL: return frt_whitespace_analyzer_new(true);
        case K_LET: return frt_letter_analyzer_new(false);
        case K_LETL: return frt_letter_analyzer_new(true);
        case K_STOP: return frt_analyzer_new(frt_stop_filter_new_with_words(frt_lowercase_filter_new(frt_letter_tokenizer_new()), stop_words), nullptr, nullptr);
        case K_STD: return frt_standard_analyzer_new(true);
        case K_MBSTD: return frt_mb_standard_analyzer_new(true);
        case K_U8STD: return frt_utf8_standard_analyzer_new(true);
        case K_LEG: return frt_legacy_standard_analyzer_new(true);
        case K_MBLEG: return frt_mb_legacy_standard_analyzer_new(true);
        case K_MBWS: return frt_mb_whitespace_analyzer_new(true);
        case K_MBLET: return frt_mb_letter_analyzer_new(true);
        default: return frt_non_analyzer_new();
    }
}
struct PF { std::string name; bool def, tok; AK own; bool has_own; };
struct PO {
    bool or_default = true, wild_lower = true, clean = false, handle = false, any = false, keywords = true, typed = false; int max_clauses = 512;
    AK ak = K_WS; bool per_field = false; std::vector<PF> fields;
    std::string str() const
    {
        std::string r = fmt("%s wild_lower=%d clean=%d handle_errors=%d any_fields=%d keywords=%d typed=%d max_clauses=%d %s; fields", or_default ? "or" : "and", wild_lower, clean, handle, any, keywords, typed, max_clauses, ak_name[ak]);
        for (auto &f : fields) r += " " + f.name + (f.def ? "(default)" : "") + (f.tok ? "" : "(untokenized)") + (f.has_own ? std::string("(") + ak_name[f.own] + ")" : "");
        return r;
    }
    FrtQParser *make() const
    {
        FrtAnalyzer *a = new_analyzer(ak);
        if (per_field) { a = frt_per_field_analyzer_new(a); for (auto &f : fields) if (f.has_own) frt_pfa_add_field(a, sy(f.name), new_analyzer(f.own)); }
        FrtQParser *p = frt_qp_new(a);
        p->or_default = or_default; p->wild_lower = wild_lower; p->clean_str = clean; p->handle_parse_errors = handle; p->allow_any_fields = any; p->use_keywords = keywords; p->use_typed_range_query = typed; p->max_clauses = max_clauses;
        for (auto &f : fields) frt_qp_add_field(p, sy(f.name), f.def, f.tok);
        return p;
    }
    const PF *find(const std::string &n) const { for (auto &f : fields) if (f.name == n) return &f; return nullptr; }
    bool tokenized(const std::string &n) const { auto f = find(n); return f && f->tok; }
    AK kind(const std::string &n) const { auto f = find(n); return per_field && f && f->has_own ? f->own : ak; }
    Strs defs() const { Strs r; for (auto &f : fields) if (f.def) r.push_back(f.name); return r; }
    Strs all() const { Strs r; for (auto &f : fields) r.push_back(f.name); return r; }
};
static PO gen_options(Ctx &c, bool simple)
{
    PO o; Src &s = c.src;
    o.or_default = !s.chance(1, 2); o.wild_lower = !s.chance(1, 3); o.clean = s.chance(1, 3); o.handle = s.chance(1, simple ? 6 : 2); o.any = s.chance(1, 3); o.keywords = !s.chance(1, 4); o.typed = s.chance(1, 3);
    if (s.chance(1, 5)) o.max_clauses = 3 + (int)s.draw(3);
    if (!simple && s.chance(1, 4)) o.max_clauses = 1 + (int)s.draw(3);
    o.ak = (AK)s.draw(simple ? K_STOP + 1 : K_N);
    Strs names{"t0", "t1", "t2", "k", "n", "s"};
    for (auto &n : names) {
        if (n != "t0" && !s.chance(2, 3)) continue;
        PF f{n, false, n[0] == 't' ? !s.chance(1, 12) : s.chance(1, 6), K_WS, false};
        f.def = n == "t0" ? !s.chance(1, 12) : s.chance(1, 4);
        if (s.chance(1, 6)) { f.has_own = true; f.own = (AK)s.draw(simple ? K_STOP + 1 : K_N); o.per_field = true; }
        o.fields.push_back(f);
    }
    size_t nd = o.defs().size();
    if (simple && nd > 3) for (auto &f : o.fields) if (f.def && f.name != "t0" && nd > 3) { f.def = false; nd--; }
    if (simple && o.max_clauses < 8) { o.max_clauses = 8; }
    return o;
}

// ---------------------------------------------------------------- what a word means
struct Tok { std::string t; int inc; };
static std::vector<Tok> tokens(const PO &o, const std::string &field, const std::string &w)
{
    std::vector<Tok> r;
    if (!o.tokenized(field)) { r.push_back({w.substr(0, 254), 1}); return r; }
    AK k = o.kind(field); bool let = k == K_LET || k == K_LETL || k == K_STOP, low = k == K_WSL || k == K_LETL || k == K_STOP; int skip = 0;
    for (size_t i = 0; i < w.size();) {
        auto in = [&](char ch) { return let ? isalpha((unsigned char)ch) != 0 : !isspace((unsigned char)ch); };
        if (!in(w[i])) { i++; continue; }
        std::string t; while (i < w.size() && in(w[i])) { t += low ? (char)tolower(w[i]) : w[i]; i++; }
        bool stop = false; if (k == K_STOP) for (auto p = stop_words; *p; p++) if (t == *p) stop = true;
        if (stop) { skip++; continue; }
        r.push_back({t.substr(0, 254), 1 + skip}); skip = 0;
    }
    return r;
}
static std::string lower(std::string s) { for (auto &ch : s) ch = (char)tolower(ch); return s; }
struct OQ { bool null = true; QN q; OQ() {} OQ(const QN &x) : null(false), q(x) {} };
typedef std::function<OQ(const std::string &)> PerField;
static OQ flds(const Strs &fs, const PerField &f)
{
    if (fs.empty()) return OQ();
    if (fs.size() == 1) return f(fs[0]);
    QN b; b.k = Q_BOOL;
    for (auto &n : fs) { OQ q = f(n); if (!q.null) { b.sub.push_back(q.q); b.occ.push_back(0); } }
    return b.sub.empty() ? OQ() : OQ(b);
}
static OQ term_q(const PO &o, const std::string &field, const std::string &w)
{
    auto t = tokens(o, field, w); if (t.empty()) return OQ();
    QN q; q.field = field;
    if (t.size() == 1) { q.k = Q_TERM; q.term = t[0].t; return q; }
    q.k = Q_PHRASE;
    for (size_t i = 0; i < t.size(); i++) { q.pos.push_back({t[i].t}); q.inc.push_back(i ? t[i].inc : 0); }
    q.slop = (int)t.size() - 1;
    return q;
}
struct PW { Strs alt; int gap; };
static OQ phrase_q(const PO &o, const std::string &field, const std::vector<PW> &ws, int slop)
{
    if (ws.empty()) return OQ();
    QN q; q.field = field;
    if (ws.size() == 1) {
        if (ws[0].alt.size() == 1) return term_q(o, field, ws[0].alt[0]);
        Strs ts; for (auto &w : ws[0].alt) { auto t = tokens(o, field, w); if (!t.empty()) ts.push_back(t[0].t); }
        if (ts.empty()) { q.k = Q_BOOL; return q; }
        if (ts.size() == 1) { q.k = Q_TERM; q.term = ts[0]; return q; }
        q.k = Q_MULTI; q.terms = ts; q.tb.assign(ts.size(), 1.0f); q.max_terms = (int)ts.size(); return q;
    }
    q.k = Q_PHRASE; q.slop = slop; int inc = 0;
    for (auto &w : ws) {
        if (inc) q.slop++;                       // a word that gave no term
        inc += w.gap + 1;
        if (w.alt.size() == 1) { for (auto &t : tokens(o, field, w.alt[0])) { q.pos.push_back({t.t}); q.inc.push_back(inc ? inc : t.inc); inc = 0; } }
        else { bool added = false; for (auto &a : w.alt) { auto t = tokens(o, field, a); if (t.empty()) continue; if (!added) { q.pos.push_back({t[0].t}); q.inc.push_back(inc); inc = 0; added = true; } else q.pos.back().push_back(t[0].t); } }
    }
    return q;
}

// ---------------------------------------------------------------- texts with their meaning
struct TQ { std::string t; OQ q; };
struct PGen {
    Ctx &c; const PO &o; const QGen &g; bool plain = true;        // plain: printing it gives readable text again
    PGen(Ctx &cc, const PO &oo, const QGen &gg) : c(cc), o(oo), g(gg) {}
    std::string word()
    {
        Src &s = c.src; std::string w = s.pick(g.words);
        if (s.chance(1, 8)) w = s.pick(Strs{"a", "b", "c", "ab", "aa"});
        if (s.chance(1, 6)) for (auto &ch : w) if (s.chance(1, 2)) ch = (char)toupper(ch);
        if (s.chance(1, 6)) { w += s.pick(Strs{"-", ".", "::", ":", "&", "+", ",", "@", " ", "*", "?", "(", "|", "\"", "\\", "~", "^", "<", "!", "[", "=", "'"}); if (s.chance(3, 4)) w += s.pick(g.words); plain = false; }
        if (s.chance(1, 12)) { for (uint32_t i = 2 + s.draw(2); i; i--) w += s.pick(Strs{"-", ".", "&", ",", " "}) + s.pick(Strs{"b", "ab", "the", "a", "c", "x", "-", "aa"}); plain = false; }   // three parts or more, some of them stop words
        if (s.chance(1, 25)) { w = s.pick(Strs{"-", "+", "!", "&", "*", "::"}) + w; plain = false; }
        if (!o.keywords && s.chance(1, 12)) { w = s.pick(Strs{"AND", "OR", "NOT", "REQ"}); plain = false; }
        return w;
    }
    // the text of a word; in a cleaned phrase most characters need no escape
    std::string emit(const std::string &w, bool quoted)
    {
        std::string r; bool raw = quoted && o.clean && c.src.chance(1, 2);
        for (size_t i = 0; i < w.size(); i++) {
            char ch = w[i];
            if (ch == ':' && i + 1 < w.size() && w[i + 1] == ':' && (i == 0 || w[i - 1] != ':') && i > 0 && !raw && c.src.draw(2)) { r += "::"; i++; continue; }
            bool must = strchr(" \t()[]{}!\"~^|<>=*?:\\", ch) || (i == 0 && strchr("-+&", ch));
            if (raw) must = strchr(" |<>\"\\", ch);
            if (must || c.src.chance(1, 40)) r += '\\';
            r += ch;
        }
        return r;
    }
    std::string sp() { return c.src.chance(1, 8) ? c.src.pick(Strs{"  ", "\t", " \t "}) : " "; }
    TQ word_q(const Strs &fs) { std::string w = word(); return {emit(w, false), flds(fs, [&](const std::string &f) { return term_q(o, f, w); })}; }
    TQ fuzzy(const Strs &fs)
    {
        std::string w = word(); float sim = 0.5f; std::string t = emit(w, false) + "~"; plain = false;
        if (c.src.chance(2, 3)) { std::string n = c.src.pick(Strs{"0.3", "0.6", "0.75", "0.9", "0.1", ".25"}); sim = strtof(n.c_str(), nullptr); t += (c.src.chance(1, 8) ? " " : "") + n; } else t = "(" + t + ")";
        return {t, flds(fs, [&](const std::string &f) { auto k = tokens(o, f, w); if (k.empty()) return OQ(); QN q; q.k = Q_FUZZY; q.field = f; q.term = k[0].t; q.min_sim = sim; q.max_terms = o.max_clauses; return OQ(q); })};
    }
    TQ wild(const Strs &fs)
    {
        std::string w = c.src.pick(g.words), p; if (c.src.chance(1, 6)) for (auto &ch : w) ch = (char)toupper(ch);
        w = w.substr(0, 12);
        switch (c.src.weighted({4, 6, 1})) {
            case 0: p = w.substr(0, 1 + c.src.draw((uint32_t)w.size())) + "*"; break;
            case 1: p = w; for (uint32_t i = 1 + c.src.geo(3, 40); i; i--) { uint32_t at = c.src.draw((uint32_t)p.size() + 1); if (at < p.size() && c.src.draw(2)) p[at] = c.src.draw(2) ? '?' : '*'; else p.insert(at, c.src.draw(2) ? "?" : "*"); } break;
            default: p = "*";
        }
        if (fs.size() > 1 && p == "*") plain = false;
        return {p, flds(fs, [&](const std::string &f) {
            QN q; q.field = f; std::string t = o.wild_lower && o.tokenized(f) ? lower(p) : p;
            if (t == "*") { q.k = Q_ALL; q.field.clear(); return OQ(q); }
            q.max_terms = o.max_clauses;
            if (t.find_first_of("*?") == t.size() - 1 && t.back() == '*') { q.k = Q_PREFIX; q.term = t.substr(0, t.size() - 1); } else { q.k = Q_WILD; q.term = t; }
            return OQ(q); })};
    }
    TQ range(const Strs &fs)
    {
        QN r = gen_range(c, g, o.typed); r.boost = 1.0f; std::string t; auto e = [&](const std::string &s) { for (auto ch : s) if (strchr("-+", ch)) plain = false; return emit(s, false); };
        if (r.has_lo && r.has_hi) t = (r.inc_lo ? "[" : "{") + e(r.lo) + sp() + e(r.hi) + (r.inc_hi ? "]" : "}");
        else if (r.has_lo) t = c.src.draw(2) ? (r.inc_lo ? ">=" : ">") + e(r.lo) : (r.inc_lo ? "[" : "{") + e(r.lo) + ">";
        else t = c.src.draw(2) ? (r.inc_hi ? "<=" : "<") + e(r.hi) : "<" + e(r.hi) + (r.inc_hi ? "]" : "}");
        return {t, flds(fs, [&](const std::string &f) { QN q = r; q.field = f; return OQ(q); })};
    }
    TQ phrase(const Strs &fs)
    {
        Src &s = c.src; std::vector<PW> ws; std::string t = "\""; int slop = 0, gap = 0; uint32_t n = s.chance(1, 20) ? 0 : 1 + s.geo(3, 65); bool lead = false;
        for (uint32_t i = 0; i < n; i++) {
            if (s.chance(1, 8)) { t += (t.size() > 1 ? " " : "") + std::string("<>"); if (ws.empty() && !lead) lead = true; else gap++; }
            PW w; w.gap = gap; gap = 0; uint32_t na = s.chance(1, 5) ? 2 + s.geo(2, 30) : 1;
            if (t.size() > 1) t += sp();
            for (uint32_t k = 0; k < na; k++) { std::string x = word(); if (o.clean) { std::string y; for (char ch : x) if (ch != '\\') y += ch; x = y; }   /* cleaning drops an escaped backslash in quotes (test_qp_clean_str) */ w.alt.push_back(x); t += (k ? (s.chance(1, 8) ? " | " : "|") : "") + emit(x, true); }
            ws.push_back(w);
        }
        if (n && s.chance(1, 12)) t += " <>";
        t += "\"";
        // without a leading gap the first gap counts from the first word; the first word's own gap never matters
        if (s.chance(1, 3)) { slop = (int)s.draw(4); t += fmt("~%d", slop); }
        return {t, flds(fs, [&](const std::string &f) { return phrase_q(o, f, ws, slop); })};
    }
    TQ fielded(const Strs &, int depth)
    {
        Src &s = c.src; Strs in; std::string t;
        if (s.chance(1, 6)) { t = "*"; in = o.all(); if (in.size() > 2) plain = plain; }
        else for (uint32_t i = 1 + s.geo(2, 30); i; i--) {
            std::string f = s.pick(Strs{"t0", "t1", "k", "t2", "n", "s", "zz", "uid"});
            t += (t.empty() ? "" : (s.chance(1, 10) ? " | " : "|")) + f;
            if ((o.any || o.find(f)) && std::find(in.begin(), in.end(), f) == in.end()) in.push_back(f);
        }
        if (in.size() > (size_t)o.max_clauses) throw CaseDiscard();
        TQ q = unit(in, depth + 1);
        return {t + ":" + (s.chance(1, 12) ? " " : "") + q.t, q.q};
    }
    TQ unit(const Strs &fs, int depth)           // q
    {
        switch (c.src.weighted({10, 2, 3, 3, 4, depth < 3 ? 4u : 0u, depth < 3 ? 5u : 0u})) {
            case 0: return word_q(fs);
            case 1: return fuzzy(fs);
            case 2: return wild(fs);
            case 3: return range(fs);
            case 4: return phrase(fs);
            case 5: return fielded(fs, depth);
            default: {
                if (c.src.chance(1, 25)) { QN q; q.k = Q_BOOL; q.coord_off = true; return {"()", OQ(q)}; }
                TQ b = clauses(fs, depth + 1); return {"(" + b.t + ")", b.q};
            }
        }
    }
    struct Cl { bool null; QN q; int occ; };
    std::pair<std::string, Cl> clause(const Strs &fs, int depth)
    {
        int occ = (int)c.src.weighted({8, 2, 2}); std::string t;
        if (occ == 1) t = o.keywords && c.src.draw(2) ? "REQ " : "+";
        if (occ == 2) t = o.keywords && c.src.draw(2) ? "NOT " : c.src.draw(2) ? "-" : "!";
        TQ u = unit(fs, depth);
        t += u.t;
        if (c.src.chance(1, 6)) { std::string b = c.src.pick(Strs{"2", "0.5", "3.0", "10"}); t += "^" + b; if (!u.q.null) u.q.q.boost = strtof(b.c_str(), nullptr); }
        return {t, Cl{u.q.null, u.q.q, occ}};
    }
    TQ clauses(const Strs &fs, int depth)        // bool_clss, collapsed
    {
        uint32_t n = 1 + c.src.geo(depth ? 2 : 4, 55); std::vector<Cl> v; std::string t;
        for (uint32_t i = 0; i < n; i++) {
            bool and_ = false;
            if (i) {
                switch (c.src.weighted({6, 3, 3})) {
                    case 0: t += sp(); and_ = !o.or_default; break;
                    case 1: t += o.keywords && c.src.draw(2) ? " AND " : " && "; and_ = true; break;   // && sticks to a word
                    default: t += o.keywords && c.src.draw(2) ? " OR " : c.src.draw(2) ? " || " : "|| ";
                }
            }
            auto p = clause(fs, depth); t += p.first;
            if (p.second.null) continue;
            if (and_) { if (v.size() == 1 && v[0].occ != 2) v[0].occ = 1; if (p.second.occ != 2) p.second.occ = 1; }
            v.push_back(p.second);
        }
        if (v.empty()) return {t, OQ()};
        if (v.size() == 1 && v[0].occ != 2) return {t, OQ(v[0].q)};
        QN b; b.k = Q_BOOL; for (auto &x : v) { b.sub.push_back(x.q); b.occ.push_back(x.occ); }
        if (v.size() == 1) { QN a; a.k = Q_ALL; b.sub.push_back(a); b.occ.push_back(1); }
        return {t, OQ(b)};
    }
};

struct Parsed { int rc; FrtQuery *q; std::string err; };
static Parsed parse(FrtQParser *p, const std::string &t)
{
    char *buf = (char *)malloc(t.size() + 1); memcpy(buf, t.c_str(), t.size() + 1);
    Parsed r{0, nullptr, ""};
    r.rc = frt_try([&] { r.q = frt_qp_parse(p, buf); }); if (r.rc) r.err = g_last_error;
    CHECK(memcmp(buf, t.c_str(), t.size() + 1) == 0, "input", "the text %s was changed by parsing it", esc(t).c_str());
    free(buf);
    int l = frt_mutex_trylock(&p->mutex);
    CHECK(l == 0, "lock", "parsing %s left the parser locked", esc(t, 200).c_str());
    frt_mutex_unlock(&p->mutex);
    return r;
}
static void same_hits(const char *what, const std::string &t, const std::string &m, const std::vector<HitV> &a, const std::vector<HitV> &b, bool scores)
{
    std::map<int, float> x, y; for (auto &h : a) x[h.doc] = h.score; for (auto &h : b) y[h.doc] = h.score;
    bool ok = a.size() == b.size() && x.size() == y.size();
    if (ok) for (auto &kv : x) { auto it = y.find(kv.first); if (it == y.end() || (scores && !close_to(kv.second, it->second))) ok = false; }
    CHECK(ok, "meaning", "%s %s gave %s, but %s gives %s", what, esc(t, 300).c_str(), hits_str(a).c_str(), esc(m, 600).c_str(), hits_str(b).c_str());
}
// a sloppy phrase that repeats a term is only compared with the same phrase built directly
static bool sloppy_repeat(const QN &q)
{
    if (q.k == Q_PHRASE && q.slop) { std::set<std::string> u; for (auto &p : q.pos) for (auto &t : p) if (!u.insert(t).second) return true; }
    for (auto &x : q.sub) if (sloppy_repeat(x)) return true;
    return false;
}
static void p21(Ctx &c)
{
    Op op(c); op.make(6);
    PO o = gen_options(c, true); c.t("parser: %s", o.str().c_str());
    FrtQParser *p = o.make();
    PO ro; ro.any = true; ro.or_default = true; ro.wild_lower = false; ro.typed = o.typed; ro.max_clauses = o.max_clauses < 64 ? 64 : o.max_clauses; for (auto n : {"t0", "t1", "t2", "k", "n", "s", "uid", "zz"}) ro.fields.push_back({n, n == std::string("t0"), true, K_WS, false});
    FrtQParser *rp = ro.make();
    int num = op.x->max_doc + 1, found = 0;
    for (uint32_t i = 1 + c.src.geo(8, 85); i; i--) {
        PGen g(c, o, op.h.qg); TQ tq = g.clauses(o.defs(), 0);
        if (tq.q.null && o.handle) g.plain = false, tq.q = flds(o.defs(), [&](const std::string &f) { return term_q(o, f, tq.t); });
        if (tq.q.null) { QN b; b.k = Q_BOOL; tq.q = OQ(b); }
        const QN &q = tq.q.q; c.t("query %s", esc(tq.t, 400).c_str());
        Parsed r = parse(p, tq.t);
        CHECK(r.rc == 0, "error", "%s was refused: %s", esc(tq.t, 300).c_str(), r.err.c_str());
        FrtQuery *w = q_build(q);
        std::vector<HitV> a, b;
        MUST("search", a = do_search(op.sea, r.q, num)); MUST("search", b = do_search(op.sea, w, num));
        same_hits("the query", tq.t, q_str(q), a, b, true);
        found += !a.empty(); if (!a.empty()) c.label("query.with_hits"); c.label(q.k == Q_BOOL ? "query.bool" : "query.simple");
        if (!ambiguous(*op.x, q) && !sloppy_repeat(q)) {
            std::vector<HitV> m; QW wt = q_weight_top(*op.x, q);
            for (size_t d = 0; d < op.x->map.size(); d++) { QR e = q_eval(*op.x, wt, d); if (e.m) m.push_back({op.x->map[d], (float)e.s}); }
            same_hits("the query", tq.t, "the evaluation of " + q_str(q), a, m, false);
        }
        std::string s; if (g.plain && o.max_clauses >= 64) s = show(r.q);
        if (!s.empty() && s.find("\"\"") == std::string::npos) {   // a phrase of stop words only has no text of its own
            c.label("roundtrip");
            Parsed r2 = parse(rp, s);
            CHECK(r2.rc == 0, "roundtrip", "%s prints as %s, which is refused: %s", esc(tq.t, 300).c_str(), esc(s, 300).c_str(), r2.err.c_str());
            std::vector<HitV> d; MUST("search", d = do_search(op.sea, r2.q, num));
            same_hits("the printed query", s, tq.t, d, a, false);
            frt_q_deref(r2.q);
        }
        frt_q_deref(r.q); frt_q_deref(w);
    }
    c.nontrivial = found > 0;
    frt_qp_destroy(p); frt_qp_destroy(rp); op.finish();
}

// ---------------------------------------------------------------- P20
static std::string wild_text(Ctx &c, const PO &o, const QGen &g)
{
    Src &s = c.src; std::string r;
    uint32_t n = 1 + s.geo(30, 85);
    for (uint32_t i = 0; i < n; i++) {
        switch (s.weighted({10, 6, 10, 2, 2, 2, 1, 2, 2, 1, 1})) {
            case 0: r += s.pick(g.words); break;
            case 1: r += ' '; break;
            case 2: r += s.pick(Strs{"\"", "(", ")", "[", "]", "{", "}", "<", ">", "=", ":", "|", "||", "&&", "&", "~", "^", "*", "?", "+", "-", "!", "\\", "::", "<>", "\"\"", "()", "\t", ".", "'", "@"}); break;
            case 3: r += s.pick(Strs{" AND ", " OR ", " NOT ", " REQ ", "AND", "OR", "NOT", "REQ"}); break;
            case 4: r += s.pick(Strs{"t0:", "t1|k:", "*:", "zz:", "t0|zz:", "n:", "t0:t1:", "k|"}); break;
            case 5: r += s.pick(Strs{"~0.5", "~2", "~1", "~1.5", "^2", "~x", "^x", "~-1", "^1e30", "~99999999999", "\"~x", "\"~", "^"}); break;
            case 6: { uint32_t l = s.pick(std::vector<uint32_t>{252, 253, 254, 255, 256, 257, 300, 509, 510, 511, 600, 1200}); std::string w(l, (char)('a' + s.draw(3))); if (s.draw(2)) for (uint32_t k = s.geo(6, 70); k; k--) w[s.chance(1, 2) ? s.draw(l) : 245 + s.draw(12) < l ? 245 + s.draw(std::min(12u, l - 245)) : 0] = s.pick(std::vector<char>{'.', '@', 'A', '*', '?', '-', ':', '\'', '1', '/', '&', '\\', '_'}); if (s.chance(1, 3)) { size_t at = w.size() > 256 ? 250 + s.draw(8) : s.draw((uint32_t)w.size()); w.insert(std::min(at, w.size()), "::"); } r += w; break; }
            case 7: r += s.pick(Strs{"\xc3\xa4", "\xc3\x84", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3", "\xe2\x82", "\xff", "\x80", "\xc0\x80", "\xed\xa0\x80", "\x01", "\n", "\r"}); break;
            case 8: { std::string a = s.pick(g.words), b = s.pick(g.words); r += s.pick(Strs{"[", "{"}) + a + " " + b + s.pick(Strs{"]", "}"}); break; }
            case 9: { uint32_t d = s.chance(1, 10) ? 200 + s.draw(12000) : 1 + s.draw(20); std::string p = s.pick(Strs{"(", "t0:", "t0:(", "-", "+(", "\"", "(a ", "*:"}); for (uint32_t k = 0; k < d; k++) r += p; if (s.draw(2)) { r += "a"; for (uint32_t k = 0; k < d; k++) r += ")"; } break; }
            default: for (uint32_t k = s.geo(10, 80); k; k--) r += (char)(1 + s.draw(255));
        }
        if (r.size() > 60000) break;
    }
    (void)o; return r;
}
static std::string any_text(Ctx &c, const PO &o, const QGen &g)
{
    if (c.src.chance(2, 3)) return wild_text(c, o, g);
    std::string t; { PO so = o; if (so.max_clauses < 8) so.max_clauses = 8; PGen pg(c, so, g); t = pg.clauses(so.defs(), 0).t; }
    for (uint32_t i = c.src.geo(5, 70); i && !t.empty(); i--) {
        uint32_t at = c.src.draw((uint32_t)t.size());
        switch (c.src.draw(5)) {
            case 0: t.erase(at, 1 + c.src.geo(4, 50)); break;
            case 1: t.insert(at, c.src.pick(Strs{"\"", "(", ")", "[", "]", "<", ">", ":", "|", "~", "^", "*", "?", "-", "\\", " ", "&&", "AND "})); break;
            case 2: t += t.substr(at, 1 + c.src.draw(10)); break;
            case 3: t.resize(at); break;
            default: t[at] = (char)(1 + c.src.draw(255));
        }
    }
    return t;
}
static void p20(Ctx &c)
{
    Op op(c); op.make(2);
    PO o = gen_options(c, false); c.t("parser: %s", o.str().c_str());
    FrtQParser *p = o.make(); int num = op.x->max_doc + 1, okc = 0, bad = 0;
    Strs past;
    for (uint32_t i = 1 + c.src.geo(12, 88); i; i--) {
        std::string t = !past.empty() && c.src.chance(1, 10) ? c.src.pick(past) : any_text(c, o, op.h.qg);
        t = std::string(t.c_str()); past.push_back(t);
        c.t("parse %s", esc(t, 700).c_str());
        Parsed r = parse(p, t);
        CHECK(r.rc == 0 || (r.rc == FRT_PARSE_ERROR && !o.handle), "error", "parsing %s raised error %d: %s", esc(t, 300).c_str(), r.rc, r.err.c_str());
        FrtQParser *p2 = o.make(); Parsed f = parse(p2, t);
        CHECK(f.rc == r.rc, "history", "parsing %s gave status %d after other queries, %d on a fresh parser", esc(t, 300).c_str(), r.rc, f.rc);
        if (r.rc) { bad++; c.label("parse.error"); frt_qp_destroy(p2); continue; }
        okc++; c.label("parse.ok");
        CHECK(r.q && f.q, "null", "no query was returned for %s", esc(t, 300).c_str());
        std::string a = show(r.q), b = show(f.q);
        CHECK(a == b, "history", "parsing %s gave %s after other queries, %s on a fresh parser", esc(t, 300).c_str(), esc(a, 300).c_str(), esc(b, 300).c_str());
        CHECK(frt_q_hash(r.q) == frt_q_hash(f.q) && frt_q_eq(r.q, f.q), "history", "the queries parsed from %s by a used and a fresh parser differ", esc(t, 300).c_str());
        std::vector<HitV> v, w; int e1 = frt_try([&] { v = do_search(op.sea, r.q, num); });
        int e2 = frt_try([&] { w = do_search(op.sea, f.q, num); });
        CHECK(e1 == e2, "search", "searching the two parses of %s gave errors %d and %d", esc(t, 300).c_str(), e1, e2);
        if (e1) c.label("search.refused"); else { same_hits("the used parser's query", t, "the fresh parser's", v, w, true); if (!v.empty()) c.label("search.hits"); }
        frt_qp_destroy(p2);
        show(r.q, "zz"); frt_q_deref(r.q); frt_q_deref(f.q);
    }
    c.nontrivial = okc > 0 && (bad > 0 || past.size() > 2);
    frt_qp_destroy(p); op.finish();
}

#define IDX "a random collection is indexed (as for P11); "
const Prop the_props[] = {
    {"P20", p20, 24000, 300000, IDX "a parser with random options and analyzers parses a series of random texts (fragments of the query language, broken nesting, over-long words, random bytes, mutated well-formed queries), each compared with a fresh parser and searched; non-trivial: a text was parsed into a query and the parser was used more than once", "exploration", true, 60},
    {"P21", p21, 24000, 200000, IDX "random well-formed query texts generated together with their meaning; hits and scores of the parsed query compared with the query built directly and with brute force, printed queries parsed again; non-trivial: some query has hits", "exploration", true, 60},
    {nullptr, nullptr, 0, 0, nullptr, nullptr, false, 0}};
