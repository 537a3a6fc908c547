// Queries as data: building the real query, and a brute-force account of what it matches and how it scores.
#pragma once
#include "hist.hpp"

enum QK { Q_TERM, Q_ALL, Q_BOOL, Q_MULTI, Q_PREFIX, Q_WILD, Q_FUZZY, Q_RANGE, Q_TRANGE, Q_PHRASE,
          Q_SPTERM, Q_SPMULTI, Q_SPPREFIX, Q_SPFIRST, Q_SPOR, Q_SPNEAR, Q_SPNOT, Q_CONST, Q_FILT };
inline bool is_span(QK k) { return k >= Q_SPTERM && k <= Q_SPNOT; }
struct QN {
    QK k = Q_TERM; std::string field, term; float boost = 1.0f;
    std::vector<QN> sub; std::vector<int> occ;              // boolean clauses (occ: 0 should, 1 must, 2 must not)
    bool coord_off = false;
    std::vector<std::string> terms; std::vector<float> tb;  // multi terms with their boosts
    int max_terms = 0;                                      // 0: default
    float min_sim = 0.5f; int pre_len = 0;
    bool has_lo = false, has_hi = false, inc_lo = false, inc_hi = false; std::string lo, hi;
    std::vector<std::vector<std::string>> pos; std::vector<int> inc; int slop = 0;    // phrase
    int end = 0; bool in_order = false;                     // spans
    bool operator==(const QN &o) const;
};
std::string q_str(const QN &q);
FrtQuery *q_build(const QN &q);
extern bool g_bad_clauses;                      // while building spans, also try to add clauses that do not belong there
FrtFilter *f_build(const QN &q);               // range and typed range: the filters; anything else: a query filter

// The index as a searcher sees it.
struct SX {
    Ctx &c; FrtIndexReader *ir; FrtSearcher *sea; const Model &m; const Schema &schema;
    std::vector<int> map; int max_doc; FrtSimilarity *sim;
    std::map<std::string, std::vector<std::string>> terms_cache;
    SX(Ctx &cc, FrtIndexReader *r, FrtSearcher *s, const Model &mm, const Schema &sc);
    const std::vector<std::string> &terms(const std::string &field);      // every term in the dictionary, in order
    int df(const std::string &f, const std::string &t) { return sea->doc_freq(sea, frt_intern(f.c_str()), t.c_str()); }
    float idf(int d) const { return (float)(log((float)max_doc / (float)(d + 1)) + 1.0); }
    double norm(const std::string &f, size_t i) const;
};
struct QW {                                    // weight tree
    QK k; const QN *q = nullptr; double idf = 1, value = 0, boost = 1;
    std::vector<std::pair<std::string, double>> terms;      // multi
    std::vector<QW> sub; std::vector<int> occ; bool coord_off = false;
    std::string field;
    QN own;                                    // a derived query (span prefix expanded)
    double sumsq() const; void normalize(double f);
};
struct QR { bool m; double s; };
QW q_weight_model(SX &x, const QN &q);         // rewritten, not normalised
QW q_weight_top(SX &x, const QN &q);           // rewritten and normalised
QR q_eval(SX &x, const QW &w, size_t i);
bool q_match(SX &x, const QN &q, size_t i);
std::vector<std::pair<std::string, double>> expand(SX &x, const QN &q);   // terms of an expanding query
bool ambiguous(SX &x, const QN &q);            // decided by floating-point rounding
std::vector<std::pair<int, int>> spans_of(SX &x, const QN &q, size_t i);
bool range_term(const QN &q, const std::string &t);
const std::vector<int> *plist(SX &x, const std::string &f, const std::string &t, size_t i);      // positions, or null
std::vector<std::vector<int>> phrase_lists(SX &x, const QN &q, size_t i, std::vector<int> &off);
void span_terms(SX &x, const QN &q, std::set<std::string> &s);
bool wc_ref(const char *p, const char *t);

// Generation
struct QGen {
    bool bools = true, expanding = true, phrases = true, spans = true, ranges = true, filters = false, boosts = true, odd_fields = true;
    int max_depth = 3;
    std::vector<std::string> words;            // words occurring in the documents, mostly
    std::vector<std::string> nums;
};
QN gen_query(Ctx &c, const QGen &g, int depth = 0);
QN gen_span(Ctx &c, const QGen &g, const std::string &field, int depth = 0);
QN gen_phrase(Ctx &c, const QGen &g);
QN gen_expanding(Ctx &c, const QGen &g);
QN gen_range(Ctx &c, const QGen &g, bool typed);

// A searchable history: schema with known fields and documents over a small vocabulary.
struct SHist : Hist {
    QGen qg;
    SHist(Ctx &cc) : Hist(cc) {}
    void setup(bool fs, bool std_analyzer = false);
    DocP sdoc();
    void fill(uint32_t steps);
    FrtIndexReader *reader();                  // committed state, perhaps with uncommitted deletions of its own
};
