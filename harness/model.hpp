// Documents, fields, configurations, and the model of an index's logical contents.
#pragma once
#include "engine.hpp"

struct MField {                    // a declared (or defaulted) field
    std::string name;
    FrtStoreValue store; FrtIndexValue index; FrtTermVectorValue tv;
    float boost;
    bool stored() const { return store != FRT_STORE_NO; }
    bool indexed() const { return index != FRT_INDEX_NO; }
    bool tokenized() const { return index == FRT_INDEX_YES || index == FRT_INDEX_YES_OMIT_NORMS; }
    bool has_norms() const { return index == FRT_INDEX_YES || index == FRT_INDEX_UNTOKENIZED; }
    bool tv_any() const { return indexed() && tv != FRT_TERM_VECTOR_NO; }
    bool tv_pos() const { return tv_any() && (tv & 2); }
    bool tv_off() const { return tv_any() && (tv & 4); }
};
struct Schema {
    FrtStoreValue dstore; FrtIndexValue dindex; FrtTermVectorValue dtv;   // for undeclared fields
    std::vector<MField> declared;
    MField get(const std::string &name) const;
    FrtFieldInfos *make() const;
};
struct MDocField { std::string name; std::vector<std::string> data; float boost = 1.0f; };
struct MInv {                      // the inverted view of one field of one document
    std::map<std::string, std::vector<int>> postings;      // term -> positions in order
    std::vector<std::pair<long, long>> offsets;            // by position
    int length = 0;
    uint8_t norm = 0;
    bool has_norm = false;
};
struct MDoc {
    uint64_t uid = 0;
    std::vector<MDocField> fields;
    float boost = 1.0f;
    std::map<std::string, MInv> inv;   // per indexed field present in the document
    const MDocField *get(const std::string &n) const { for (auto &f : fields) if (f.name == n) return &f; return nullptr; }
    bool has_term(const std::string &f, const std::string &t) const { auto i = inv.find(f); return i != inv.end() && i->second.postings.count(t); }
};
typedef std::shared_ptr<MDoc> DocP;
struct LiveDoc { DocP d; std::map<std::string, uint8_t> norm_over; };
struct Model {                     // logical contents: live documents in order
    std::vector<LiveDoc> live;
    std::vector<DocP> dead;        // deleted at some time since the index was created (may be physically present)
};

enum AKind { A_WHITESPACE, A_WS_LOWER, A_LETTER, A_STANDARD, A_UTF8_STANDARD, A_PERFIELD, A_NKINDS };
FrtAnalyzer *make_analyzer(AKind k);

struct Cfg {
    FrtConfig c;
    AKind analyzer = A_WHITESPACE;
    std::string str() const;
};
Cfg gen_cfg(Ctx &c);
Schema gen_schema(Ctx &c, uint32_t zip = 1);    // zip: weight of compressed fields (of 28 + zip)
std::string schema_str(const Schema &s);

struct DocGen {                    // how documents are generated
    Schema schema;
    AKind analyzer = A_WHITESPACE;
    int vocab = 0;                 // 0: tiny vocabulary, 1: many terms, 2: odd terms
    bool big_data = false;         // binary and long stored values
    bool boosts = true;
    int max_words = 8;
    int multi_pct = 15;
    uint64_t next_uid = 1;
};
std::string gen_word(Ctx &c, const DocGen &g);
std::string gen_text(Ctx &c, const DocGen &g);
DocP gen_doc(Ctx &c, DocGen &g);
DocP bulk_doc(DocGen &g, uint32_t pattern, uint32_t i);      // deterministic documents for bulk additions
void invert(DocP d, const Schema &s, FrtAnalyzer *a, int max_field_length);
std::string doc_str(const MDoc &d);

FrtDocument *to_frt(const MDoc &d);                          // borrowed data: d must outlive it
void add_doc(FrtIndexWriter *iw, const MDoc &d);

enum { V_STORED = 1, V_POSTINGS = 2, V_TV = 4, V_NORMS = 8, V_LAZY = 16, V_SEEK = 32, V_FIS = 64, V_ALL = 127 };
// Compares a reader with the model; throws CaseFail on a difference.  opt: what to verify.
void verify_reader(Ctx &c, FrtIndexReader *ir, const Model &m, const Schema &s, int opt, const char *where);
std::set<std::string> field_names(const Model &m);
std::vector<int> live_map(FrtIndexReader *ir);               // live index -> doc number

// A complete textual digest of what a reader shows (used for snapshot comparisons)
struct DumpOpt { bool doc_numbers = true; bool doc_freq = true; };
std::string dump_reader(FrtIndexReader *ir, const DumpOpt &o);

struct StoreH {                    // an owned store
    FrtStore *st = nullptr; std::string path;
    void open_ram() { st = frt_open_ram_store(); }
    void open_fs(const std::string &p) { path = p; mkdir(p.c_str(), 0755); st = frt_open_fs_store(p.c_str()); }
    void close() { if (st) { frt_store_deref(st); st = nullptr; } }
};
FrtIndexWriter *open_writer(FrtStore *st, const Cfg &cfg);   // may raise
