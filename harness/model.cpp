#include "model.hpp"

MField Schema::get(const std::string &name) const
{
    for (auto &f : declared) if (f.name == name) return f;
    MField f; f.name = name; f.store = dstore; f.index = dindex; f.tv = dtv; f.boost = 1.0f;
    return f;
}
FrtFieldInfos *Schema::make() const
{
    FrtFieldInfos *fis = frt_fis_new(dstore, dindex, dtv);
    for (auto &f : declared) {
        FrtFieldInfo *fi = frt_fi_new(frt_intern(f.name.c_str()), f.store, f.index, f.tv);
        fi->boost = f.boost;
        frt_fis_add_field(fis, fi);
    }
    return fis;
}

static const char *STOPS[] = { "the", "of", "and", nullptr };
FrtAnalyzer *make_analyzer(AKind k)
{
    switch (k) {
        case A_WS_LOWER: return frt_whitespace_analyzer_new(1);
        case A_LETTER: return frt_letter_analyzer_new(1);
        case A_STANDARD: return frt_standard_analyzer_new_with_words(STOPS, 1);
        case A_UTF8_STANDARD: return frt_utf8_standard_analyzer_new_with_words(STOPS, 1);
        case A_PERFIELD: {
            FrtAnalyzer *a = frt_per_field_analyzer_new(frt_whitespace_analyzer_new(0));
            frt_pfa_add_field(a, frt_intern("f0"), frt_standard_analyzer_new_with_words(STOPS, 1));
            frt_pfa_add_field(a, frt_intern("f1"), frt_letter_analyzer_new(1));
            return a;
        }
        default: return frt_whitespace_analyzer_new(0);
    }
}
std::string Cfg::str() const
{
    return fmt("chunk=%d mem=%d index_int=%d skip_int=%d merge=%d buf=%d maxmerge=%d maxfl=%d cfs=%u analyzer=%d", c.chunk_size, c.max_buffer_memory,
               c.index_interval, c.skip_interval, c.merge_factor, c.max_buffered_docs, c.max_merge_docs, c.max_field_length, c.use_compound_file, analyzer);
}
Cfg gen_cfg(Ctx &c)
{
    Cfg r; r.c = frt_default_config; Src &s = c.src;
    r.c.chunk_size = std::vector<int>{0x8000, 0x10000, 0x100000}[s.weighted({12, 4, 1})];
    r.c.max_buffer_memory = r.c.chunk_size * s.pick(std::vector<int>{16, 4, 2, 1});
    r.c.index_interval = s.pick(std::vector<int>{128, 1, 2, 3, 8, 16});
    r.c.skip_interval = s.pick(std::vector<int>{16, 2, 3, 4, 8, 64, 1});
    r.c.merge_factor = s.pick(std::vector<int>{10, 2, 3, 4, 5});
    r.c.max_buffered_docs = s.pick(std::vector<int>{10000, 2, 3, 5, 10, 30, 1, 70000});
    r.c.max_merge_docs = s.pick(std::vector<int>{INT_MAX, 5, 20, 100});
    r.c.max_field_length = s.chance(1, 8) ? s.pick(std::vector<int>{1, 2, 3, 10}) : 10000;
    r.c.use_compound_file = s.draw(2) ? 1 : 0;
    r.analyzer = (AKind)s.draw(A_NKINDS);
    return r;
}
Schema gen_schema(Ctx &c, uint32_t zip)
{
    Src &s = c.src; Schema r;
    static const std::vector<FrtStoreValue> SV = {FRT_STORE_YES, FRT_STORE_NO, FRT_STORE_COMPRESS};
    static const std::vector<FrtIndexValue> IV = {FRT_INDEX_YES, FRT_INDEX_UNTOKENIZED, FRT_INDEX_YES_OMIT_NORMS, FRT_INDEX_UNTOKENIZED_OMIT_NORMS, FRT_INDEX_NO};
    static const std::vector<FrtTermVectorValue> TV = {FRT_TERM_VECTOR_NO, FRT_TERM_VECTOR_WITH_POSITIONS_OFFSETS, FRT_TERM_VECTOR_YES, FRT_TERM_VECTOR_WITH_POSITIONS, FRT_TERM_VECTOR_WITH_OFFSETS};
    auto one = [&](MField &f) {
        f.store = SV[s.weighted({20, 8, zip})]; f.index = IV[s.weighted({5, 2, 1, 1, 1})];
        f.tv = f.index == FRT_INDEX_NO ? FRT_TERM_VECTOR_NO : s.pick(TV);
        f.boost = s.chance(1, 4) ? s.pick(std::vector<float>{2.0f, 0.5f, 10.0f, 3.3f}) : 1.0f;
    };
    MField u; u.name = "uid"; u.store = FRT_STORE_YES; u.index = FRT_INDEX_UNTOKENIZED_OMIT_NORMS; u.tv = FRT_TERM_VECTOR_NO; u.boost = 1.0f;
    r.declared.push_back(u);
    uint32_t n = 1 + s.geo(4, 70);
    for (uint32_t i = 0; i < n; i++) { MField f; f.name = fmt("f%u", i); one(f); r.declared.push_back(f); }
    MField d; one(d); r.dstore = d.store; r.dindex = d.index; r.dtv = d.tv;
    return r;
}
std::string schema_str(const Schema &s)
{
    std::string r;
    for (auto &f : s.declared) r += fmt("%s{store=%d,index=%d,tv=%d,boost=%g} ", f.name.c_str(), f.store, f.index, f.tv, f.boost);
    return r + fmt("default{store=%d,index=%d,tv=%d}", s.dstore, s.dindex, s.dtv);
}

std::string gen_word(Ctx &c, const DocGen &g)
{
    Src &s = c.src;
    static const std::vector<std::string> tiny = {"a", "b", "c", "ab", "abc", "d", "the", "bc", "aa", "of"};
    if (g.vocab == 0) return s.pick(tiny);
    if (g.vocab == 1) return fmt("w%u", s.draw(150));
    switch (s.weighted({6, 3, 2, 1, 1, 1, 1})) {
        case 0: return s.pick(tiny);
        case 1: return fmt("w%u", s.draw(40));
        case 2: { static const std::vector<std::string> odd = {"caf\xc3\xa9", "na\xc3\xafve", "x-ray", "e-mail", "o'neil's", "Q&A", "U.S.A.", "foo@bar.com", "3.14", "-7", "AbC", "\xe6\x97\xa5\xe6\x9c\xac", "a_b", "10,000", "http://x.org/y"}; return s.pick(odd); }
        case 3: { uint32_t n = s.pick(std::vector<uint32_t>{10, 64, 128, 200, 253, 254, 255, 256, 300}); return std::string(n, (char)('a' + s.draw(3))); }
        case 4: return fmt("%u", s.draw(1000));
        case 5: { std::string p(s.geo(30, 90), 'p'); return p + fmt("%u", s.draw(5)); }
        default: { std::string w; uint32_t n = 1 + s.geo(5, 70); for (uint32_t i = 0; i < n; i++) w += (char)('a' + s.draw(3)); return w; }
    }
}
std::string gen_text(Ctx &c, const DocGen &g)
{
    Src &s = c.src; std::string r;
    uint32_t n = s.chance(1, 12) ? 0 : 1 + s.geo((uint32_t)g.max_words, 75);
    for (uint32_t i = 0; i < n; i++) {
        if (i) r += s.chance(1, 10) ? s.pick(std::vector<std::string>{"  ", "\t", "\n", ", ", " - "}) : std::string(" ");
        r += gen_word(c, g);
    }
    return r;
}
static std::string gen_blob(Ctx &c)
{
    Src &s = c.src;
    static const std::vector<uint32_t> L = {0, 1, 2, 7, 127, 128, 255, 256, 1000, 1023, 1024, 1025, 2048, 4095, 4097, 16347, 16348, 16349, 16383, 16384, 16385, 40000, 70000};
    uint32_t n = s.pick(L), kind = s.draw(3); std::string r(n, 'x');
    uint64_t x = s.draw(1000) + 1;
    for (uint32_t i = 0; i < n; i++) {
        if (kind == 0) r[i] = (char)('a' + i % 23);
        else { x = x * 6364136223846793005ull + 1442695040888963407ull; r[i] = kind == 1 ? (char)(x >> 56) : (char)("abc \0\xff\n"[(x >> 40) % 7]); }
    }
    return r;
}
DocP gen_doc(Ctx &c, DocGen &g)
{
    Src &s = c.src; DocP d = std::make_shared<MDoc>();
    d->uid = g.next_uid++;
    if (g.boosts && s.chance(1, 6)) d->boost = s.pick(std::vector<float>{2.0f, 0.25f, 7.5f});
    MDocField u; u.name = "uid"; u.data.push_back(fmt("%llu", (unsigned long long)d->uid)); d->fields.push_back(u);
    auto fill = [&](const std::string &name) {
        MField mf = g.schema.get(name);
        MDocField f; f.name = name;
        uint32_t n = s.chance((uint32_t)g.multi_pct, 100) ? s.pick(std::vector<uint32_t>{2, 3, 5, 9}) : 1;
        for (uint32_t i = 0; i < n; i++) {
            if (!mf.indexed() && g.big_data && s.chance(1, 2)) f.data.push_back(gen_blob(c));
            else if (mf.indexed() && !mf.tokenized()) f.data.push_back(s.chance(3, 4) ? gen_word(c, g) : gen_text(c, g));
            else if (mf.indexed() && g.big_data && s.chance(1, 10)) { std::string t = gen_text(c, g); uint32_t k = s.pick(std::vector<uint32_t>{200, 1000, 5000}); std::string r; while (r.size() < k) { r += t; r += " z"; } f.data.push_back(r); }
            else f.data.push_back(gen_text(c, g));
        }
        if (g.boosts && s.chance(1, 6)) f.boost = s.pick(std::vector<float>{3.0f, 0.5f, 1.7f});
        d->fields.push_back(f);
    };
    for (auto &mf : g.schema.declared) if (mf.name != "uid" && s.chance(3, 4)) fill(mf.name);
    if (s.chance(1, 8)) fill("u0");
    if (s.chance(1, 16)) fill("u1");
    return d;
}
DocP bulk_doc(DocGen &g, uint32_t pattern, uint32_t i)
{
    DocP d = std::make_shared<MDoc>(); d->uid = g.next_uid++;
    MDocField u; u.name = "uid"; u.data.push_back(fmt("%llu", (unsigned long long)d->uid)); d->fields.push_back(u);
    uint32_t mod = 2 + pattern % 7;
    for (size_t k = 1; k < g.schema.declared.size() && k <= 3; k++) {
        const MField &mf = g.schema.declared[k];
        MDocField f; f.name = mf.name; std::string t;
        if (mf.tokenized() || !mf.indexed()) {
            t = "a";
            if (i % mod == 0) t += " b";
            if (i % 3 == pattern % 3) t += " c b";
            if (i % 17 == 0) t += " ab ab";
            t += fmt(" w%u", (i * 7 + pattern) % 150);
            if (pattern & 8) t += fmt(" x%u y%u", i, i % 40);
        } else t = i % mod == 0 ? "b" : fmt("w%u", (i + pattern) % 90);
        f.data.push_back(t); d->fields.push_back(f);
    }
    return d;
}
std::string doc_str(const MDoc &d)
{
    std::string r = fmt("#%llu{", (unsigned long long)d.uid);
    if (d.boost != 1.0f) r += fmt("boost=%g ", d.boost);
    for (auto &f : d.fields) {
        if (f.name == "uid") continue;
        r += f.name; if (f.boost != 1.0f) r += fmt("^%g", f.boost);
        r += ":["; for (size_t i = 0; i < f.data.size(); i++) r += (i ? "," : "") + esc(f.data[i], 40); r += "] ";
    }
    return r + "}";
}

void invert(DocP d, const Schema &s, FrtAnalyzer *a, int max_field_length)
{
    FrtSimilarity *sim = frt_sim_create_default();
    d->inv.clear();
    for (auto &f : d->fields) {
        MField mf = s.get(f.name);
        if (!mf.indexed()) continue;
        MInv iv; long start = 0; int pos = -1, n = 0;
        auto off = [&](int p, long st, long en) { if ((int)iv.offsets.size() <= p) iv.offsets.resize(p + 1, {0, 0}); iv.offsets[p] = {st, en}; };
        for (size_t i = 0; i < f.data.size(); i++) {
            if (mf.tokenized()) {
                FrtTokenStream *ts = frt_a_get_ts(a, frt_intern(f.name.c_str()), (char *)f.data[i].c_str());
                FrtToken *tk;
                while (n < max_field_length && (tk = ts->next(ts))) {
                    pos += tk->pos_inc; if (pos < 0) pos = 0;
                    iv.postings[std::string(tk->text)].push_back(pos);
                    off(pos, start + (long)tk->start, start + (long)tk->end);
                    n++;
                }
                frt_ts_deref(ts);
            } else {
                std::string t = f.data[i];
                if (t.size() >= FRT_MAX_WORD_SIZE) t.resize(FRT_MAX_WORD_SIZE - 1);
                iv.postings[t].push_back((int)i);
                off((int)i, start, start + (long)f.data[i].size());
                n++;
            }
            start += (long)f.data[i].size() + 1;
        }
        iv.length = n; iv.has_norm = mf.has_norms();
        if (iv.has_norm) {
            float b = mf.boost * d->boost * f.boost * frt_sim_length_norm(sim, frt_intern(f.name.c_str()), n);
            iv.norm = (uint8_t)frt_sim_encode_norm(sim, b);
        }
        d->inv[f.name] = iv;
    }
    frt_sim_destroy(sim);
}

FrtDocument *to_frt(const MDoc &d)
{
    FrtDocument *doc = frt_doc_new(); doc->boost = d.boost;
    for (auto &f : d.fields) {
        FrtDocField *df = frt_df_new(frt_intern(f.name.c_str())); df->boost = f.boost;
        for (auto &s : f.data) frt_df_add_data_len(df, (char *)s.data(), (int)s.size());
        frt_doc_add_field(doc, df);
    }
    return doc;
}
void add_doc(FrtIndexWriter *iw, const MDoc &d)
{
    FrtDocument *doc = to_frt(d);
    frt_iw_add_doc(iw, doc);
    frt_doc_destroy(doc);
}
FrtIndexWriter *open_writer(FrtStore *st, const Cfg &cfg)
{
    FrtAnalyzer *a = make_analyzer(cfg.analyzer);
    return frt_iw_open(st, a, &cfg.c);
}

std::set<std::string> field_names(const Model &m)
{
    std::set<std::string> r;
    for (auto &l : m.live) for (auto &f : l.d->fields) r.insert(f.name);
    return r;
}
std::vector<int> live_map(FrtIndexReader *ir)
{
    std::vector<int> r; int md = ir->max_doc(ir);
    for (int i = 0; i < md; i++) if (!ir->is_deleted(ir, i)) r.push_back(i);
    return r;
}

static void check_doc(Ctx &c, FrtIndexReader *ir, int dn, const MDoc &d, const Schema &s, int opt, const char *where)
{
    FrtDocument *doc = ir->get_doc(ir, dn);
    int expect = 0;
    for (auto &f : d.fields) {
        MField mf = s.get(f.name);
        FrtDocField *df = frt_doc_get_field(doc, frt_intern(f.name.c_str()));
        if (!mf.stored()) { CHECK(!df, "stored", "%s: doc %d (#%llu): unstored field %s is returned", where, dn, (unsigned long long)d.uid, f.name.c_str()); continue; }
        expect++;
        CHECK(df, "stored", "%s: doc %d (#%llu): stored field %s missing", where, dn, (unsigned long long)d.uid, f.name.c_str());
        CHECK(df->size == (int)f.data.size(), "stored", "%s: doc %d field %s has %d values, expected %zu", where, dn, f.name.c_str(), df->size, f.data.size());
        for (int i = 0; i < df->size; i++) {
            CHECK(df->lengths[i] == (int)f.data[i].size() && !memcmp(df->data[i], f.data[i].data(), f.data[i].size()), "stored",
                  "%s: doc %d (#%llu) field %s[%d]: got %s expected %s", where, dn, (unsigned long long)d.uid, f.name.c_str(), i,
                  esc(std::string(df->data[i], df->lengths[i] > 0 ? df->lengths[i] : 0)).c_str(), esc(f.data[i]).c_str());
        }
    }
    CHECK(doc->size == expect, "stored", "%s: doc %d has %d stored fields, expected %d", where, dn, doc->size, expect);
    frt_doc_destroy(doc);
    if (!(opt & V_LAZY)) return;
    FrtLazyDoc *ld = ir->get_lazy_doc(ir, dn);
    CHECK(ld->size == expect, "lazy", "%s: lazy doc %d has %d fields, expected %d", where, dn, ld->size, expect);
    for (auto &f : d.fields) {
        MField mf = s.get(f.name);
        FrtLazyDocField *lf = frt_lazy_doc_get(ld, frt_intern(f.name.c_str()));
        if (!mf.stored()) { CHECK(!lf, "lazy", "%s: unstored lazy field %s", where, f.name.c_str()); continue; }
        CHECK(lf && lf->size == (int)f.data.size(), "lazy", "%s: lazy field %s of doc %d missing or wrong size", where, f.name.c_str(), dn);
        bool bytes_first = c.src.draw(2);
        std::string joined; for (size_t i = 0; i < f.data.size(); i++) { if (i) joined += ' '; joined += f.data[i]; }
        auto bytes = [&] {
            uint32_t L = (uint32_t)joined.size();
            if (!L) return;
            uint32_t st = c.src.draw(3) ? c.src.draw(L) : 0, len = c.src.draw(3) ? 1 + c.src.draw(L - st) : L - st;
            std::string buf(len, '?');
            frt_lazy_df_get_bytes(lf, &buf[0], (int)st, (int)len);
            CHECK(buf == joined.substr(st, len), "lazy", "%s: doc %d field %s bytes [%u,+%u): got %s expected %s", where, dn, f.name.c_str(), st, len, esc(buf).c_str(), esc(joined.substr(st, len)).c_str());
            char one; int rc = frt_try([&] { frt_lazy_df_get_bytes(lf, &one, (int)L, 1); });
            CHECK(rc, "lazy", "%s: reading past the end of lazy field %s succeeded", where, f.name.c_str());
        };
        if (bytes_first) bytes();
        for (size_t k = 0; k < f.data.size(); k++) {
            size_t i = bytes_first ? f.data.size() - 1 - k : k;
            char *p = frt_lazy_df_get_data(lf, (int)i);
            CHECK(p && lf->data[i].length == (int)f.data[i].size() && !memcmp(p, f.data[i].data(), f.data[i].size()), "lazy",
                  "%s: lazy doc %d field %s[%zu]: got %s expected %s", where, dn, f.name.c_str(), i, p ? esc(std::string(p, std::max(0, lf->data[i].length))).c_str() : "NULL", esc(f.data[i]).c_str());
        }
        CHECK(!frt_lazy_df_get_data(lf, (int)f.data.size()), "lazy", "%s: lazy data past the last value", where);
        if (!bytes_first) bytes();
    }
    frt_lazy_doc_close(ld);
}

typedef std::vector<std::pair<int, std::vector<int>>> PostV;    // doc number, positions
static void check_tv(const std::string &where, const MDoc &d, const MField &mf, const MInv &iv, FrtTermVector *tv)
{
    CHECK(tv, "tv", "%s: no term vector", where.c_str());
    CHECK(tv->term_cnt == (int)iv.postings.size(), "tv", "%s: %d terms, expected %zu", where.c_str(), tv->term_cnt, iv.postings.size());
    int i = 0;
    for (auto &kv : iv.postings) {
        FrtTVTerm *t = &tv->terms[i++];
        CHECK(kv.first == t->text, "tv", "%s: term %d is %s, expected %s", where.c_str(), i - 1, esc(t->text).c_str(), esc(kv.first).c_str());
        CHECK(t->freq == (int)kv.second.size(), "tv", "%s: term %s freq %d, expected %zu", where.c_str(), esc(t->text).c_str(), t->freq, kv.second.size());
        if (mf.tv_pos()) {
            CHECK(t->positions, "tv", "%s: no positions", where.c_str());
            for (int j = 0; j < t->freq; j++)
                CHECK(t->positions[j] == kv.second[j], "tv", "%s: term %s position[%d]=%d, expected %d", where.c_str(), esc(t->text).c_str(), j, t->positions[j], kv.second[j]);
        } else CHECK(!t->positions, "tv", "%s: unexpected positions", where.c_str());
        CHECK(frt_tv_get_term_index(tv, kv.first.c_str()) == i - 1, "tv", "%s: term index of %s", where.c_str(), esc(kv.first).c_str());
    }
    CHECK(frt_tv_get_term_index(tv, "no-such-term\x7f") == -1, "tv", "%s: absent term has an index", where.c_str());
    if (mf.tv_off()) {
        CHECK(tv->offset_cnt == (int)iv.offsets.size(), "tv", "%s: %d offsets, expected %zu", where.c_str(), tv->offset_cnt, iv.offsets.size());
        for (int j = 0; j < tv->offset_cnt; j++)
            CHECK(tv->offsets[j].start == iv.offsets[j].first && tv->offsets[j].end == iv.offsets[j].second, "tv", "%s: offset[%d]=(%ld,%ld), expected (%ld,%ld)",
                  where.c_str(), j, (long)tv->offsets[j].start, (long)tv->offsets[j].end, iv.offsets[j].first, iv.offsets[j].second);
    } else CHECK(tv->offset_cnt == 0, "tv", "%s: unexpected offsets", where.c_str());
}

void verify_reader(Ctx &c, FrtIndexReader *ir, const Model &m, const Schema &s, int opt, const char *where)
{
    int nd = ir->num_docs(ir), md = ir->max_doc(ir);
    CHECK(nd == (int)m.live.size(), "count", "%s: num_docs is %d, expected %zu", where, nd, m.live.size());
    CHECK(md >= nd && md <= (int)(m.live.size() + m.dead.size()), "count", "%s: max_doc is %d with %zu live and %zu deleted documents", where, md, m.live.size(), m.dead.size());
    CHECK((ir->has_deletions(ir) != 0) == (md != nd), "count", "%s: has_deletions is %u but max_doc=%d num_docs=%d", where, ir->has_deletions(ir), md, nd);
    std::vector<int> map = live_map(ir);
    CHECK((int)map.size() == nd, "count", "%s: %zu documents are not deleted but num_docs is %d", where, map.size(), nd);
    for (int i = 0; i < md; i++) if (ir->is_deleted(ir, i)) {
        int rc = frt_try([&] { FrtDocument *x = ir->get_doc(ir, i); (void)x; });
        CHECK(rc == FRT_STATE_ERROR, "deleted-doc", "%s: reading deleted document %d gave %d", where, i, rc);
        break;
    }
    if (opt & (V_STORED | V_LAZY)) {
        size_t n = m.live.size();
        for (size_t i = 0; i < n; i++) {
            bool sample = n <= 60 || i < 10 || i + 10 > n || (i % 7) == 0;
            if (sample) check_doc(c, ir, map[i], *m.live[i].d, s, opt, where);
        }
        // random access after sequential access
        for (int k = 0; k < 3 && n; k++) { uint32_t i = c.src.draw((uint32_t)n); check_doc(c, ir, map[i], *m.live[i].d, s, opt & ~V_LAZY, where); }
    }
    std::set<std::string> fields = field_names(m);
    if (opt & V_FIS) {
        for (auto &mf : s.declared) {
            FrtFieldInfo *fi = frt_fis_get_field(ir->fis, frt_intern(mf.name.c_str()));
            CHECK(fi, "fis", "%s: declared field %s is unknown", where, mf.name.c_str());
        }
        for (auto &fn : fields) {
            MField mf = s.get(fn);
            FrtFieldInfo *fi = frt_fis_get_field(ir->fis, frt_intern(fn.c_str()));
            CHECK(fi, "fis", "%s: field %s is unknown", where, fn.c_str());
            CHECK((fi_is_stored(fi) != 0) == mf.stored() && (fi_is_compressed(fi) != 0) == (mf.store == FRT_STORE_COMPRESS) && (fi_is_indexed(fi) != 0) == mf.indexed()
                  && (fi_is_tokenized(fi) != 0) == mf.tokenized() && (fi_store_term_vector(fi) != 0) == (mf.tv != 0) && fi->boost == mf.boost, "fis",
                  "%s: field %s declared %d/%d/%d^%g has bits %x boost %g", where, fn.c_str(), mf.store, mf.index, mf.tv, mf.boost, fi->bits, fi->boost);
        }
    }
    if (opt & V_POSTINGS) {
        std::set<std::string> all_fields = fields;
        for (auto &d : m.dead) for (auto &f : d->fields) all_fields.insert(f.name);
        for (auto &fn : all_fields) {
            MField mf = s.get(fn);
            if (!mf.indexed()) continue;
            FrtSymbol fs = frt_intern(fn.c_str());
            std::map<std::string, PostV> exp;
            for (size_t i = 0; i < m.live.size(); i++) {
                auto it = m.live[i].d->inv.find(fn);
                if (it == m.live[i].d->inv.end()) continue;
                for (auto &kv : it->second.postings) exp[kv.first].push_back({map[i], kv.second});
            }
            std::map<std::string, int> dead_df;
            for (auto &d : m.dead) { auto it = d->inv.find(fn); if (it != d->inv.end()) for (auto &kv : it->second.postings) dead_df[kv.first]++; }
            // 1. term enumeration in order; every live term is there, every other term belongs to a deleted document
            FrtTermEnum *te = nullptr;
            te = frt_ir_terms(ir, fs);
            std::vector<std::string> terms; std::vector<int> dfs;
            if (te) {
                char *t;
                while ((t = te->next(te))) { terms.push_back(t); dfs.push_back(te->curr_ti.doc_freq); }
                te->close(te);
            }
            std::set<std::string> seen;
            for (size_t i = 0; i < terms.size(); i++) {
                CHECK(i == 0 || terms[i - 1] < terms[i], "terms", "%s: field %s: term %s follows %s", where, fn.c_str(), esc(terms[i]).c_str(), esc(terms[i - 1]).c_str());
                seen.insert(terms[i]);
                bool live = exp.count(terms[i]), dead = dead_df.count(terms[i]) && md > nd;
                CHECK(live || dead, "terms", "%s: field %s: unexpected term %s", where, fn.c_str(), esc(terms[i]).c_str());
                int ldf = live ? (int)exp[terms[i]].size() : 0, hi = ldf + std::min(md - nd, dead_df.count(terms[i]) ? dead_df[terms[i]] : 0);
                CHECK(dfs[i] >= ldf && dfs[i] <= hi, "docfreq", "%s: field %s: enumerated doc_freq of %s is %d, expected %d..%d", where, fn.c_str(), esc(terms[i]).c_str(), dfs[i], ldf, hi);
            }
            for (auto &kv : exp) CHECK(seen.count(kv.first), "terms", "%s: field %s: term %s is missing from the enumeration (%zu terms)", where, fn.c_str(), esc(kv.first).c_str(), terms.size());
            // 2. postings of every term
            size_t k = 0;
            FrtTermDocEnum *shared = c.src.draw(2) ? ir->term_positions(ir) : nullptr;
            FrtTermDocEnum *shared_td = c.src.draw(2) ? ir->term_docs(ir) : nullptr;
            int fnum = frt_fis_get_field_num(ir->fis, fs);
            for (auto &t : terms) {
                const PostV &pv = exp[t];
                k++;
                bool deep = terms.size() <= 60 || k % 5 == 0 || pv.size() > 3;
                int df = frt_ir_doc_freq(ir, fs, t.c_str());
                int hi = (int)pv.size() + std::min(md - nd, dead_df.count(t) ? dead_df[t] : 0);
                CHECK(df >= (int)pv.size() && df <= hi, "docfreq", "%s: field %s: doc_freq(%s)=%d, expected %zu..%d", where, fn.c_str(), esc(t).c_str(), df, pv.size(), hi);
                CHECK(df == dfs[k - 1], "docfreq", "%s: field %s: doc_freq(%s)=%d but the enumeration says %d", where, fn.c_str(), esc(t).c_str(), df, dfs[k - 1]);
                if (!deep) continue;
                auto expect_at = [&](FrtTermDocEnum *td, size_t i, bool pos, const char *how) {
                    CHECK(td->doc_num(td) == pv[i].first, "postings", "%s: %s:%s %s: doc %d, expected %d", where, fn.c_str(), esc(t).c_str(), how, td->doc_num(td), pv[i].first);
                    CHECK(td->freq(td) == (int)pv[i].second.size(), "postings", "%s: %s:%s %s: doc %d freq %d, expected %zu", where, fn.c_str(), esc(t).c_str(), how, pv[i].first, td->freq(td), pv[i].second.size());
                    if (!pos) return;
                    size_t cnt = c.src.draw(4) == 3 ? c.src.draw((uint32_t)pv[i].second.size() + 1) : pv[i].second.size();  // sometimes leave positions unread
                    for (size_t j = 0; j < cnt; j++) {
                        int p = td->next_position(td);
                        CHECK(p == pv[i].second[j], "positions", "%s: %s:%s %s: doc %d position[%zu]=%d, expected %d", where, fn.c_str(), esc(t).c_str(), how, pv[i].first, j, p, pv[i].second[j]);
                    }
                    if (cnt == pv[i].second.size() && c.src.chance(1, 8)) CHECK(td->next_position(td) == -1, "positions", "%s: %s:%s %s: doc %d has a position past its frequency", where, fn.c_str(), esc(t).c_str(), how, pv[i].first);
                };
                // plain iteration with positions
                FrtTermDocEnum *tp = shared;
                if (shared && c.src.chance(1, 6)) {    // a partial walk over another term, then perhaps an absent term
                    const std::string &o = c.src.pick(terms);
                    shared->seek(shared, fnum, o.c_str());
                    const PostV &ov = exp[o]; size_t lim = c.src.draw((uint32_t)ov.size() + 1);
                    for (size_t q = 0; q < lim; q++) { CHECK(shared->next(shared) && shared->doc_num(shared) == ov[q].first, "postings", "%s: %s:%s partial walk differs at %zu", where, fn.c_str(), esc(o).c_str(), q); if (c.src.draw(2)) shared->next_position(shared); }
                    if (c.src.draw(2)) { shared->seek(shared, fnum, "zzz-absent"); CHECK(!shared->next(shared), "postings", "%s: %s: absent term after %s has documents", where, fn.c_str(), esc(o).c_str()); }
                }
                if (shared && c.src.chance(1, 4) && !t.empty()) {
                    FrtTermEnum *te2 = frt_ir_terms_from(ir, fs, t.c_str());
                    CHECK(te2 && t == te2->curr_term, "seek", "%s: %s: terms_from(%s) is at %s", where, fn.c_str(), esc(t).c_str(), te2 ? esc(te2->curr_term).c_str() : "nothing");
                    shared->seek_te(shared, te2); te2->close(te2);
                }
                else if (shared) shared->seek(shared, fnum, t.c_str()); else tp = frt_ir_term_positions_for(ir, fs, t.c_str());
                CHECK(tp, "postings", "%s: no positions enumerator for %s", where, esc(t).c_str());
                size_t i = 0;
                while (tp->next(tp)) {
                    CHECK(i < pv.size(), "postings", "%s: %s:%s: too many documents (%d)", where, fn.c_str(), esc(t).c_str(), tp->doc_num(tp));
                    expect_at(tp, i, true, "next"); i++;
                }
                CHECK(i == pv.size(), "postings", "%s: %s:%s: %zu documents, expected %zu", where, fn.c_str(), esc(t).c_str(), i, pv.size());
                if (!shared) tp->close(tp);
                // block reads
                FrtTermDocEnum *td = shared_td;
                if (shared_td && c.src.chance(1, 6)) {
                    shared_td->seek(shared_td, fnum, c.src.pick(terms).c_str());
                    if (c.src.draw(2)) shared_td->next(shared_td);
                    if (c.src.draw(2)) { shared_td->seek(shared_td, fnum, "zzz-absent"); CHECK(!shared_td->next(shared_td), "postings", "%s: %s: absent term has documents", where, fn.c_str()); }
                }
                if (shared_td) shared_td->seek(shared_td, fnum, t.c_str()); else td = frt_ir_term_docs_for(ir, fs, t.c_str());
                uint32_t blk = c.src.pick(std::vector<uint32_t>{32, 1, 3, 7});
                std::vector<int> ds(blk), fs2(blk); i = 0; int got;
                while ((got = td->read(td, ds.data(), fs2.data(), (int)blk)) > 0) {
                    for (int j = 0; j < got; j++, i++) {
                        CHECK(i < pv.size() && ds[j] == pv[i].first && fs2[j] == (int)pv[i].second.size(), "postings", "%s: %s:%s: block read gave doc %d freq %d at %zu", where, fn.c_str(), esc(t).c_str(), ds[j], fs2[j], i);
                    }
                }
                CHECK(i == pv.size(), "postings", "%s: %s:%s: block read gave %zu documents, expected %zu", where, fn.c_str(), esc(t).c_str(), i, pv.size());
                if (!shared_td) td->close(td);
                // skipping
                if ((opt & V_SEEK) && pv.size() > 1) {
                    bool pos = c.src.draw(2);
                    FrtTermDocEnum *sk = pos ? frt_ir_term_positions_for(ir, fs, t.c_str()) : frt_ir_term_docs_for(ir, fs, t.c_str());
                    int cur = -1; size_t at = 0; bool ended = false;     // at: index of the next posting not yet passed
                    uint32_t steps = 1 + c.src.geo(12, 80);
                    for (uint32_t st = 0; st < steps && !ended; st++) {
                        bool ok; size_t want;
                        if (c.src.draw(3) == 0) { ok = sk->next(sk); want = at; }
                        else {
                            int lo = cur + 1;
                            if (lo >= md) break;
                            uint32_t span = (uint32_t)(md - lo);
                            int target = lo + (int)(c.src.draw(2) ? c.src.draw(std::min<uint32_t>(span, 20)) : c.src.draw(span));
                            ok = sk->skip_to(sk, target);
                            want = at; while (want < pv.size() && pv[want].first < target) want++;
                        }
                        if (want >= pv.size()) { CHECK(!ok, "skip", "%s: %s:%s: skipping past the end returned doc %d", where, fn.c_str(), esc(t).c_str(), sk->doc_num(sk)); ended = true; }
                        else { CHECK(ok, "skip", "%s: %s:%s: skip/next found nothing, expected doc %d", where, fn.c_str(), esc(t).c_str(), pv[want].first);
                               expect_at(sk, want, pos, "skip"); cur = pv[want].first; at = want + 1; }
                    }
                    sk->close(sk);
                }
            }
            // absent term
            { FrtTermDocEnum *td = shared_td ? shared_td : ir->term_docs(ir); td->seek(td, fnum, "zzz-absent"); CHECK(!td->next(td), "postings", "%s: absent term has documents", where); if (!shared_td) td->close(td);
              CHECK(frt_ir_doc_freq(ir, fs, "zzz-absent") == 0, "docfreq", "%s: absent term has doc_freq", where); }
            if (shared) shared->close(shared);
            if (shared_td) shared_td->close(shared_td);
            // 3. seeking in the term dictionary
            if ((opt & V_SEEK) && !terms.empty()) {
                for (int rep = 0; rep < 4; rep++) {
                    std::string target = c.src.pick(terms);
                    switch (c.src.draw(5)) { case 1: target += "a"; break; case 2: if (!target.empty()) target.pop_back(); break; case 3: if (!target.empty()) target[target.size() - 1]++; break; case 4: if (!target.empty()) target[0]--; break; }
                    if (target.find('\0') != std::string::npos || target.empty()) continue;
                    auto want = std::lower_bound(terms.begin(), terms.end(), target);
                    bool from = c.src.draw(2);
                    FrtTermEnum *t2 = from ? frt_ir_terms_from(ir, fs, target.c_str()) : frt_ir_terms(ir, fs);
                    char *r = from ? t2->curr_term : t2->skip_to(t2, target.c_str());
                    if (from && want == terms.end()) { /* the current term of an exhausted enumerator is unspecified */
                        CHECK(!t2->next(t2), "seek", "%s: %s: terms_from(%s) past the last term goes on", where, fn.c_str(), esc(target).c_str());
                    } else {
                        CHECK((r != nullptr) == (want != terms.end()), "seek", "%s: %s: seek(%s) gave %s, expected %s", where, fn.c_str(), esc(target).c_str(), r ? esc(r).c_str() : "end", want == terms.end() ? "end" : esc(*want).c_str());
                        for (int j = 0; j < 4 && want != terms.end(); j++) {
                            CHECK(r && *want == r, "seek", "%s: %s: seek(%s)+%d gave %s, expected %s", where, fn.c_str(), esc(target).c_str(), j, r ? esc(r).c_str() : "end", esc(*want).c_str());
                            CHECK(t2->curr_ti.doc_freq == dfs[want - terms.begin()], "seek", "%s: %s: doc_freq after seek to %s", where, fn.c_str(), esc(target).c_str());
                            ++want; r = t2->next(t2);
                        }
                    }
                    t2->close(t2);
                }
            }
        }
    }
    if (opt & V_NORMS) {
        for (auto &fn : fields) {
            MField mf = s.get(fn);
            if (!mf.has_norms()) continue;
            FrtSymbol fs = frt_intern(fn.c_str());
            frt_uchar *n = frt_ir_get_norms(ir, fs);
            CHECK(n, "norms", "%s: no norms for field %s", where, fn.c_str());
            std::vector<frt_uchar> buf(md + 8, 0xEE);
            frt_ir_get_norms_into(ir, fs, buf.data());
            for (size_t i = 0; i < m.live.size(); i++) {
                const LiveDoc &l = m.live[i];
                auto ov = l.norm_over.find(fn); auto iv = l.d->inv.find(fn);
                int e = ov != l.norm_over.end() ? ov->second : iv != l.d->inv.end() ? iv->second.norm : -1;
                if (e < 0) continue;
                CHECK(n[map[i]] == e, "norms", "%s: norm of field %s doc %d is %d, expected %d", where, fn.c_str(), map[i], n[map[i]], e);
                CHECK(buf[map[i]] == e, "norms", "%s: copied norm of field %s doc %d is %d, expected %d", where, fn.c_str(), map[i], buf[map[i]], e);
            }
        }
    }
    if (opt & V_TV) {
        for (size_t i = 0; i < m.live.size(); i++) {
            if (m.live.size() > 60 && i >= 10 && i + 10 < m.live.size() && i % 7) continue;
            const MDoc &d = *m.live[i].d; int want = 0;
            FrtHash *all = ir->term_vectors(ir, map[i]);
            for (auto &f : d.fields) {
                MField mf = s.get(f.name);
                FrtSymbol fs = frt_intern(f.name.c_str());
                std::string w = fmt("%s: term vector of doc %d (#%llu) field %s", where, map[i], (unsigned long long)d.uid, f.name.c_str());
                FrtTermVector *tv = ir->term_vector(ir, map[i], fs);
                FrtTermVector *tv2 = all ? (FrtTermVector *)frt_h_get(all, fs) : nullptr;
                const MInv *iv = d.inv.count(f.name) ? &d.inv.at(f.name) : nullptr;
                if (!mf.tv_any() || !iv || iv->postings.empty()) {
                    CHECK(!tv || tv->term_cnt == 0, "tv", "%s: unexpected term vector with %d terms", w.c_str(), tv->term_cnt);
                    CHECK(!tv2 || tv2->term_cnt == 0, "tv", "%s: unexpected term vector in all-fields view", w.c_str());
                    if (tv2) want++;
                } else {
                    want++;
                    check_tv(w, d, mf, *iv, tv);
                    check_tv(w + " (all-fields view)", d, mf, *iv, tv2);
                }
                if (tv) frt_tv_destroy(tv);
            }
            CHECK((all ? (int)all->size : 0) == want, "tv", "%s: doc %d has %d term vectors, expected %d", where, map[i], all ? (int)all->size : 0, want);
            if (all) frt_h_destroy(all);
        }
    }
}

std::string dump_reader(FrtIndexReader *ir, const DumpOpt &o)
{
    std::string r; int md = ir->max_doc(ir);
    std::vector<int> map = live_map(ir); std::vector<int> inv(md, -1);
    for (size_t i = 0; i < map.size(); i++) inv[map[i]] = o.doc_numbers ? map[i] : (int)i;
    r += fmt("docs %d", ir->num_docs(ir)); if (o.doc_numbers) r += fmt("/%d", md); r += "\n";
    std::set<std::string> fields;
    for (int i = 0; i < ir->fis->size; i++) fields.insert((const char *)ir->fis->fields[i]->name);
    for (int dn : map) {
        FrtDocument *d = ir->get_doc(ir, dn); std::map<std::string, std::string> fs;
        for (int i = 0; i < d->size; i++) { std::string v; for (int j = 0; j < d->fields[i]->size; j++) { v += fmt("<%d>", d->fields[i]->lengths[j]); v.append(d->fields[i]->data[j], d->fields[i]->lengths[j]); } fs[(const char *)d->fields[i]->name] = v; }
        r += fmt("doc %d:", inv[dn]); for (auto &kv : fs) r += " " + kv.first + "=" + kv.second; r += "\n";
        frt_doc_destroy(d);
        FrtHash *tvs = ir->term_vectors(ir, dn);
        for (auto &fn : fields) {
            FrtTermVector *tv = tvs ? (FrtTermVector *)frt_h_get(tvs, frt_intern(fn.c_str())) : nullptr;
            if (!tv || !tv->term_cnt) continue;
            r += " tv " + fn + ":";
            for (int i = 0; i < tv->term_cnt; i++) { r += fmt(" %s/%d", tv->terms[i].text, tv->terms[i].freq); if (tv->terms[i].positions) for (int j = 0; j < tv->terms[i].freq; j++) r += fmt(",%d", tv->terms[i].positions[j]); }
            for (int i = 0; i < tv->offset_cnt; i++) r += fmt(" [%ld,%ld]", (long)tv->offsets[i].start, (long)tv->offsets[i].end);
            r += "\n";
        }
        if (tvs) frt_h_destroy(tvs);
    }
    for (auto &fn : fields) {
        FrtSymbol fs = frt_intern(fn.c_str());
        FrtFieldInfo *fi = frt_fis_get_field(ir->fis, fs);
        if (!fi_is_indexed(fi)) continue;
        FrtTermEnum *te = frt_ir_terms(ir, fs);
        if (te) {
            char *t; std::vector<std::string> terms; std::vector<int> dfs;
            while ((t = te->next(te))) { terms.push_back(t); dfs.push_back(te->curr_ti.doc_freq); }
            te->close(te);
            for (size_t k = 0; k < terms.size(); k++) {
                FrtTermDocEnum *tp = frt_ir_term_positions_for(ir, fs, terms[k].c_str());
                std::string line;
                while (tp && tp->next(tp)) { line += fmt(" %d(", inv[tp->doc_num(tp)]); int f = tp->freq(tp); for (int j = 0; j < f; j++) line += fmt("%d ", tp->next_position(tp)); line += ")"; }
                if (tp) tp->close(tp);
                if (line.empty() && !o.doc_freq) continue;
                r += fn + ":" + terms[k]; if (o.doc_freq) r += fmt(" df=%d", dfs[k]); r += line + "\n";
            }
        }
        if (fi_has_norms(fi)) {
            frt_uchar *n = frt_ir_get_norms(ir, fs);
            r += "norms " + fn + ":"; for (int dn : map) r += fmt(" %d", n ? n[dn] : -1); r += "\n";
        }
    }
    return r;
}
