#include "hist.hpp"

void Hist::init(bool fs)
{
    if (fs) st.open_fs(c.scratch + "/" + dirname); else st.open_ram();
    g.schema = schema; g.analyzer = cfg.analyzer;
    c.t("%s store, config: %s", fs ? "fs" : "ram", cfg.str().c_str());
    c.t("fields: %s", schema_str(schema).c_str());
    FrtFieldInfos *fis = schema.make();
    frt_index_create(st.st, fis);
    frt_fis_deref(fis);
    man = make_analyzer(cfg.analyzer);
}
void Hist::add(DocP d)
{
    need_writer();
    invert(d, schema, man, cfg.c.max_field_length);
    LiveDoc l; l.d = d; m.live.push_back(l); n_adds++;       // the model first: it is the intended state should the call fail
    add_doc(iw, *d);
    if (c.tracing && n_adds < 60) c.t("add %s", doc_str(*d).c_str());
}
void Hist::bulk()
{
    uint32_t n = c.src.pick(std::vector<uint32_t>{5, 12, 20, 40, 70, 150}), pat = c.src.draw(16);
    c.t("bulk add %u documents, pattern %u", n, pat);
    bool tr = c.tracing; c.tracing = false;
    for (uint32_t i = 0; i < n; i++) add(bulk_doc(g, pat, i));
    c.tracing = tr;
}
std::string Hist::rand_term(std::string &field)
{
    if (!m.live.empty() && !c.src.chance(1, 10)) {
        const MDoc &d = *m.live[c.src.draw((uint32_t)m.live.size())].d;
        std::vector<std::pair<std::string, std::string>> ts;
        for (auto &kv : d.inv) for (auto &p : kv.second.postings) { ts.push_back({kv.first, p.first}); if (ts.size() > 40) break; }
        if (!ts.empty()) {
            // prefer the unique uid most of the time so that histories keep documents
            if (c.src.draw(3)) { field = "uid"; return fmt("%llu", (unsigned long long)d.uid); }
            auto &x = ts[c.src.draw((uint32_t)ts.size())]; field = x.first; return x.second;
        }
    }
    field = "f0"; return gen_word(c, g);
}
void Hist::model_delete(const std::string &f, const std::string &t)
{
    for (size_t i = 0; i < m.live.size(); )
        if (m.live[i].d->has_term(f, t)) { model_delete_at(i); n_del++; } else i++;
}
void Hist::del_term()
{
    need_writer();
    std::string f, t = rand_term(f);
    if (c.src.chance(1, 4)) {
        std::vector<std::string> ts{t};
        uint32_t n = c.src.geo(4, 60); std::string f2;
        for (uint32_t i = 0; i < n; i++) { std::string x = rand_term(f2); if (f2 == f) ts.push_back(x); }
        std::vector<char *> p; for (auto &x : ts) p.push_back((char *)x.c_str());
        c.t("writer delete_terms %s:%s.. (%zu terms)", f.c_str(), esc(t).c_str(), ts.size());
        for (auto &x : ts) model_delete(f, x);
        frt_iw_delete_terms(iw, frt_intern(f.c_str()), p.data(), (int)p.size());
        return;
    }
    c.t("writer delete_term %s:%s", f.c_str(), esc(t).c_str());
    model_delete(f, t);
    frt_iw_delete_term(iw, frt_intern(f.c_str()), t.c_str());
}
void Hist::del_reader()
{
    close_writer();
    FrtIndexReader *ir = frt_ir_open(st.st);
    std::vector<int> map = live_map(ir);
    CHECK(map.size() == m.live.size(), "count", "reader for deletion shows %zu documents, expected %zu", map.size(), m.live.size());
    uint32_t k = 1 + c.src.geo(5, 50);
    for (uint32_t i = 0; i < k && !m.live.empty(); i++) {
        uint32_t x = c.src.draw((uint32_t)m.live.size());
        c.t("reader delete doc %d (#%llu)", map[x], (unsigned long long)m.live[x].d->uid);
        frt_ir_delete_doc(ir, map[x]);
        CHECK(ir->is_deleted(ir, map[x]), "deleted", "document %d is not deleted after deleting it", map[x]);
        model_delete_at(x); map.erase(map.begin() + x); n_del++;
    }
    if (c.src.draw(2)) frt_ir_commit(ir);
    frt_ir_close(ir);
}
void Hist::step()
{
    switch (c.src.weighted({10, 2, 3, 2, 2, 1, 1})) {
        case 0: { uint32_t n = 1 + c.src.geo(4, 50); for (uint32_t i = 0; i < n; i++) add_gen(); break; }
        case 1: bulk(); break;
        case 2: del_term(); break;
        case 3: del_reader(); break;
        case 4: commit(); break;
        case 5: reopen(); break;
        case 6: optimize(); break;
    }
}
void Hist::verify(int opt, const char *where)
{
    if (iw) { if (c.src.draw(2)) close_writer(); else { frt_iw_commit(iw); c.t("commit"); } }
    FrtIndexReader *ir = frt_ir_open(st.st);
    c.t("open reader: %d docs, max_doc %d, %d segments [%s]", ir->num_docs(ir), ir->max_doc(ir), ir->sis ? ir->sis->size : -1, where);
    if (ir->sis && ir->sis->size > 1) c.label("verify.multi_segment"); else c.label("verify.single_segment");
    if (ir->has_deletions(ir)) c.label("verify.with_deletions");
    verify_reader(c, ir, m, schema, opt, where);
    frt_ir_close(ir);
}
