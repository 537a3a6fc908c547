// P04 configuration independence, P05 snapshots, P08 locking, P09 deletions and norms, P10 merging indexes.
#include "hist.hpp"

extern "C" void __wrap_frt_micro_sleep(const int) {}      // lock and retry waits: nothing runs concurrently here

static std::string dump_store(FrtStore *st, DumpOpt o = DumpOpt())
{
    FrtIndexReader *ir = frt_ir_open(st); std::string s = dump_reader(ir, o); frt_ir_close(ir); return s;
}
static std::string first_diff(const std::string &a, const std::string &b)
{
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t s = i; while (s > 0 && a[s - 1] != '\n') s--;
    return "first: ..." + esc(a.substr(s, 160), 160) + " | second: ..." + esc(b.substr(s, 160), 160);
}
#define SAME(a, b, tag, ...) do { if ((a) != (b)) { std::string w_ = fmt(__VA_ARGS__); fail(tag, "%s; %s", w_.c_str(), first_diff(a, b).c_str()); } } while (0)

// ------------------------------------------------------------------ P04
struct Op { int kind; std::vector<DocP> docs; std::string f; std::vector<std::string> ts; std::vector<uint32_t> idx; };
static void apply(Hist &h, const Op &o)
{
    switch (o.kind) {
        case 0: for (auto &d : o.docs) { h.need_writer(); add_doc(h.iw, *d); } break;
        case 1: {
            h.need_writer();
            if (o.ts.size() == 1) frt_iw_delete_term(h.iw, frt_intern(o.f.c_str()), o.ts[0].c_str());
            else { std::vector<char *> p; for (auto &x : o.ts) p.push_back((char *)x.c_str()); frt_iw_delete_terms(h.iw, frt_intern(o.f.c_str()), p.data(), (int)p.size()); }
            break; }
        case 2: {
            h.close_writer(); FrtIndexReader *ir = frt_ir_open(h.st.st); std::vector<int> map = live_map(ir);
            for (auto i : o.idx) if (i < map.size()) { frt_ir_delete_doc(ir, map[i]); map.erase(map.begin() + i); }
            frt_ir_close(ir); break; }
        case 3: h.need_writer(); frt_iw_commit(h.iw); break;
        case 4: h.close_writer(); h.need_writer(); break;
        case 5: h.need_writer(); frt_iw_optimize(h.iw); break;
    }
}
static void check_leftovers(Ctx &c, Hist &h, const char *which)
{
    h.close_writer();
    FrtIndexWriter *iw = open_writer(h.st.st, h.cfg); frt_iw_close(iw);
    std::string ref = dump_store(h.st.st);
    std::vector<std::string> names;
    auto cb = [](const char *fn, void *a) { ((std::vector<std::string> *)a)->push_back(fn); };
    h.st.st->each(h.st.st, cb, &names);
    auto rdall = [&](const std::string &n) { std::string b; FrtInStream *is = h.st.st->open_input(h.st.st, n.c_str()); b.resize((size_t)is->m->length_i(is)); frt_is_read_bytes(is, (frt_uchar *)&b[0], (int)b.size()); frt_is_close(is); return b; };
    FrtStore *cp = frt_open_ram_store();
    auto put = [&](const std::string &n) { std::string b = rdall(n); FrtOutStream *os = cp->new_output(cp, n.c_str()); frt_os_write_bytes(os, (frt_uchar *)b.data(), (int)b.size()); frt_os_close(os); };
    std::vector<std::string> cands;
    for (auto &n : names) if (n.find(".lck") == std::string::npos) { put(n); if (n != "segments") cands.push_back(n); }
    std::sort(cands.begin(), cands.end());
    for (int k = 0; k < 14 && !cands.empty(); k++) {
        uint32_t x = c.src.draw((uint32_t)cands.size()); std::string n = cands[x]; cands.erase(cands.begin() + x);
        cp->remove(cp, n.c_str());
        std::string d; int rc = frt_try([&] { d = dump_store(cp); });
        CHECK(rc || d != ref, "leftover", "%s: file %s is not needed by the index after closing and reopening for writing", which, n.c_str());
        put(n);
    }
    frt_store_deref(cp);
    c.label("leftover.files", names.size());
}
static void p04(Ctx &c)
{
    Hist a(c), b(c);
    a.cfg = gen_cfg(c); b.cfg = gen_cfg(c);
    b.cfg.analyzer = a.cfg.analyzer; b.cfg.c.max_field_length = a.cfg.c.max_field_length;
    a.schema = b.schema = gen_schema(c);
    a.g.vocab = (int)c.src.draw(3); a.g.big_data = c.src.chance(1, 8);
    a.init(c.src.chance(1, 4)); 
    if (c.src.chance(1, 4)) { b.st.open_fs(c.scratch + "/idx2"); } else b.st.open_ram();
    { FrtFieldInfos *fis = b.schema.make(); frt_index_create(b.st.st, fis); frt_fis_deref(fis); }
    c.t("second config: %s", b.cfg.str().c_str());
    Model &m = a.m;                       // only to choose operations
    uint32_t steps = 1 + c.src.geo(16, 90);
    int ndel = 0, nadd = 0;
    DumpOpt loose; loose.doc_numbers = false; loose.doc_freq = false;
    for (uint32_t s = 0; s < steps; s++) {
        Op o; o.kind = (int)c.src.weighted({10, 3, 2, 2, 1, 1});
        if (o.kind == 0) {
            uint32_t n = c.src.chance(1, 5) ? c.src.pick(std::vector<uint32_t>{5, 12, 20, 40, 90}) : 1 + c.src.geo(4, 50); bool bulk = n > 4; uint32_t pat = bulk ? c.src.draw(16) : 0;
            for (uint32_t i = 0; i < n; i++) { DocP d = bulk ? bulk_doc(a.g, pat, i) : gen_doc(c, a.g); invert(d, a.schema, a.man, a.cfg.c.max_field_length); o.docs.push_back(d); LiveDoc l; l.d = d; m.live.push_back(l); if (!bulk) c.t("add %s", doc_str(*d).c_str()); nadd++; }
            if (bulk) c.t("bulk add %u pattern %u", n, pat);
        } else if (o.kind == 1) {
            o.ts.push_back(a.rand_term(o.f));
            if (c.src.chance(1, 4)) { std::string f2; for (uint32_t i = c.src.geo(3, 60); i; i--) { std::string x = a.rand_term(f2); if (f2 == o.f) o.ts.push_back(x); } }
            c.t("delete %s:%s (%zu terms)", o.f.c_str(), esc(o.ts[0]).c_str(), o.ts.size());
            for (auto &t : o.ts) a.model_delete(o.f, t); ndel++;
        } else if (o.kind == 2) {
            for (uint32_t i = 1 + c.src.geo(4, 50); i && !m.live.empty(); i--) { uint32_t x = c.src.draw((uint32_t)m.live.size()); o.idx.push_back(x); c.t("reader delete #%llu", (unsigned long long)m.live[x].d->uid); a.model_delete_at(x); ndel++; }
        } else c.t("%s", o.kind == 3 ? "commit" : o.kind == 4 ? "reopen" : "optimize");
        apply(a, o); apply(b, o);
        if (c.src.chance(1, 10)) {
            frt_try([] {}); if (a.iw) frt_iw_commit(a.iw); if (b.iw) frt_iw_commit(b.iw);
            SAME(dump_store(a.st.st, loose), dump_store(b.st.st, loose), "differ", "contents differ between the configurations after step %u", s);
        }
    }
    a.close_writer(); b.close_writer();
    std::string la = dump_store(a.st.st, loose), lb = dump_store(b.st.st, loose);
    SAME(la, lb, "differ", "contents differ between the configurations at the end");
    if (c.src.chance(1, 3)) check_leftovers(c, c.src.draw(2) ? a : b, "before optimizing");
    for (Hist *h : {&a, &b}) {
        h->need_writer(); frt_iw_optimize(h->iw); if (c.src.draw(2)) frt_iw_optimize(h->iw); h->close_writer();
        FrtIndexReader *ir = frt_ir_open(h->st.st);
        int nseg = ir->sis ? ir->sis->size : 1;
        CHECK(nseg <= 1, "segments", "%d segments after optimizing", nseg);
        CHECK(!ir->has_deletions(ir) && ir->max_doc(ir) == ir->num_docs(ir), "deletions", "deletions left after optimizing: %d of %d", ir->num_docs(ir), ir->max_doc(ir));
        CHECK(ir->num_docs(ir) == (int)m.live.size(), "count", "%d documents after optimizing, expected %zu", ir->num_docs(ir), m.live.size());
        frt_ir_close(ir);
        SAME(la, dump_store(h->st.st, loose), "optimize", "optimizing changed the contents");
    }
    SAME(dump_store(a.st.st), dump_store(b.st.st), "differ", "optimized indexes differ");
    if (c.src.chance(1, 4)) check_leftovers(c, c.src.draw(2) ? a : b, "after optimizing");
    b.close_writer(); b.st.close(); a.finish();
    c.nontrivial = nadd >= 3 && ndel >= 1;
}

// ------------------------------------------------------------------ P05
static std::string searches(FrtIndexReader *ir, const std::vector<std::pair<std::string, std::string>> &terms)
{
    std::string r; FrtSearcher *sea = frt_isea_new(ir); FRT_REF(ir);
    auto one = [&](FrtQuery *q) { FrtTopDocs *td = frt_searcher_search(sea, q, 0, 1000, NULL, NULL, NULL); r += fmt("hits %d:", td->total_hits); for (int i = 0; i < td->size; i++) r += fmt(" %d/%a", td->hits[i]->doc, td->hits[i]->score); r += "\n"; frt_td_destroy(td); frt_q_deref(q); };
    if (ir->max_doc(ir) > 0) { one(frt_maq_new()); for (auto &t : terms) one(frt_tq_new(frt_intern(t.first.c_str()), t.second.c_str())); }
    frt_searcher_close(sea);
    return r;
}
struct Snap {
    FrtIndexReader *ir; std::string dump, hits; size_t ver;      // ver: index of the newest commit it may show
    std::vector<std::pair<std::string, std::string>> terms;
    FrtTermDocEnum *td = nullptr; std::vector<std::string> td_rest;
    std::vector<uint64_t> docs; bool latest_known = true;
};
static std::vector<uint64_t> uids_of(FrtIndexReader *ir)
{
    std::vector<uint64_t> r;
    for (int d : live_map(ir)) { FrtDocument *doc = ir->get_doc(ir, d); FrtDocField *f = frt_doc_get_field(doc, frt_intern("uid")); r.push_back(f && f->size ? strtoull(std::string(f->data[0], f->lengths[0]).c_str(), 0, 10) : 0); frt_doc_destroy(doc); }
    return r;
}
static std::vector<uint64_t> uids_of(const Model &m) { std::vector<uint64_t> r; for (auto &l : m.live) r.push_back(l.d->uid); return r; }
static std::string uids_str(const std::vector<uint64_t> &v) { std::string s; for (auto x : v) { s += fmt("%llu ", (unsigned long long)x); if (s.size() > 200) { s += "..."; break; } } return s; }

static void p05(Ctx &c)
{
    Hist h(c);
    h.cfg = gen_cfg(c); h.schema = gen_schema(c);
    bool exact = c.src.draw(2);           // no automatic flushes: nothing uncommitted is visible
    if (exact) { h.cfg.c.max_buffered_docs = 100000; h.cfg.c.chunk_size = 0x8000; h.cfg.c.max_buffer_memory = 0x4000000; }
    h.g.vocab = (int)c.src.draw(3); h.init(c.src.chance(1, 3));
    std::vector<Snap> pool;
    // states since the last commit the history is sure of, oldest first; any of them may be the visible one
    std::vector<std::vector<uint64_t>> cand{uids_of(h.m)};
    uint64_t maybe_changes = 0, sure_changes = 0;      // operations that may have / have certainly changed the commit
    struct Stamp { uint64_t maybe, sure; }; std::vector<Stamp> stamps;
    auto sure = [&](bool changed) { cand.assign(1, uids_of(h.m)); if (changed) { sure_changes++; maybe_changes++; } };
    auto open_snap = [&] {
        if (pool.size() >= 5) return;
        Snap s; s.ir = frt_ir_open(h.st.st);
        std::vector<uint64_t> v = uids_of(s.ir);
        size_t k = cand.size(); while (k > 0 && cand[k - 1] != v) k--;
        CHECK(k > 0, "visible", "a new reader shows documents [%s], but the last commit has [%s] and the pending state is [%s]", uids_str(v).c_str(), uids_str(cand[0]).c_str(), uids_str(cand.back()).c_str());
        cand.erase(cand.begin(), cand.begin() + (k - 1));      // commits never go back
        CHECK(frt_ir_is_latest(s.ir), "latest", "a newly opened reader is not the latest");
        for (int i = 0; i < 3; i++) { std::string f, t = h.rand_term(f); s.terms.push_back({f, t}); }
        s.docs = v;
        bool lazy = c.src.chance(1, 3);    // sometimes nothing is read before the index changes: then the model is the reference
        s.dump = lazy ? "" : dump_reader(s.ir, DumpOpt()); s.hits = lazy ? "" : searches(s.ir, s.terms);
        if (!s.terms.empty() && c.src.draw(2)) {
            FrtSymbol f = frt_intern(s.terms[0].first.c_str());
            FrtTermDocEnum *ref = frt_ir_term_positions_for(s.ir, f, s.terms[0].second.c_str()), *td = frt_ir_term_positions_for(s.ir, f, s.terms[0].second.c_str());
            auto cur = [](FrtTermDocEnum *x) { std::string r = fmt("%d:", x->doc_num(x)); for (int i = 0; i < x->freq(x); i++) r += fmt("%d ", x->next_position(x)); return r; };
            std::vector<std::string> all; if (frt_fis_get_field(s.ir->fis, f)) while (ref->next(ref)) all.push_back(cur(ref));
            ref->close(ref);
            size_t skip = all.empty() ? 0 : c.src.draw((uint32_t)all.size());
            for (size_t i = 0; i < skip; i++) td->next(td);
            if (!all.empty()) { s.td = td; s.td_rest.assign(all.begin() + skip, all.end()); } else td->close(td);
        }
        c.t("open reader %zu: %zu documents%s", pool.size(), v.size(), s.td ? ", an enumerator half way" : "");
        pool.push_back(s); stamps.push_back({maybe_changes, sure_changes});
    };
    auto check_snap = [&](size_t i, const char *when) {
        Snap &s = pool[i];
        if (s.td && c.src.draw(2)) {
            for (auto &e : s.td_rest) { CHECK(s.td->next(s.td), "snapshot", "%s: an open enumerator of reader %zu ended early", when, i); std::string r = fmt("%d:", s.td->doc_num(s.td)); for (int k = 0; k < s.td->freq(s.td); k++) r += fmt("%d ", s.td->next_position(s.td)); CHECK(r == e, "snapshot", "%s: an open enumerator of reader %zu gives %s instead of %s", when, i, r.c_str(), e.c_str()); }
            CHECK(!s.td->next(s.td), "snapshot", "%s: an open enumerator of reader %zu goes on", when, i);
            s.td->close(s.td); s.td = nullptr; c.label("snapshot.enum");
        }
        CHECK(uids_of(s.ir) == s.docs, "snapshot", "%s: reader %zu shows documents [%s] instead of [%s]", when, i, uids_str(uids_of(s.ir)).c_str(), uids_str(s.docs).c_str());
        std::string d = dump_reader(s.ir, DumpOpt()), hs = searches(s.ir, s.terms);
        if (s.dump.empty()) { s.dump = d; s.hits = hs; } 
        SAME(s.dump, d, "snapshot", "%s: what reader %zu shows has changed", when, i);
        SAME(s.hits, hs, "snapshot", "%s: search results of reader %zu have changed", when, i);
        bool latest = frt_ir_is_latest(s.ir);
        if (stamps[i].sure != sure_changes) CHECK(!latest, "latest", "%s: reader %zu claims to be the latest after a commit", when, i);
        if (stamps[i].maybe == maybe_changes) CHECK(latest, "latest", "%s: reader %zu claims not to be the latest although nothing was committed", when, i);
        c.label("snapshot.check");
    };
    auto close_snap = [&](size_t i) { if (pool[i].td) pool[i].td->close(pool[i].td); frt_ir_close(pool[i].ir); pool.erase(pool.begin() + i); stamps.erase(stamps.begin() + i); };
    uint32_t steps = 3 + c.src.geo(24, 92); int pending = 0;      // pending: documents added and not certainly committed
    for (uint32_t st = 0; st < steps; st++) {
        switch (c.src.weighted({8, 2, 3, 3, 2, 2, 5, 5, 2, 1})) {
            case 0: case 1: {
                uint32_t n = c.src.chance(1, 6) ? 20 : 1 + c.src.geo(3, 50);
                for (uint32_t i = 0; i < n; i++) { h.add(n >= 20 ? bulk_doc(h.g, st, i) : gen_doc(c, h.g)); pending++; cand.push_back(uids_of(h.m)); if (!exact) maybe_changes++; }
                if (exact) {}
                break; }
            case 2: { size_t before = h.m.live.size(); h.del_term(); bool ch = (exact && pending > 0) || h.m.live.size() != before; pending = 0; sure(ch); if (!ch) maybe_changes++; break; }
            case 3: h.commit(); if (exact) sure(pending > 0); else { sure(false); maybe_changes++; } pending = 0; break;
            case 4: { bool ch = exact && pending > 0; bool w = h.iw; h.close_writer(); if (w) { if (exact) { sure(ch); maybe_changes++; /* closing may merge */ } else { sure(false); maybe_changes++; } } pending = 0; break; }
            case 5: h.optimize(); sure(false); maybe_changes++; pending = 0; break;
            case 6: open_snap(); break;
            case 7: if (!pool.empty()) check_snap(c.src.draw((uint32_t)pool.size()), "later"); break;
            case 8: if (!pool.empty()) { uint32_t i = c.src.draw((uint32_t)pool.size()); c.t("close reader %u", i); close_snap(i); } break;
            case 9: {    // deletions through a reader of its own
                h.close_writer(); pending = 0; size_t before = h.m.live.size(); cand.assign(1, uids_of(h.m)); h.del_reader(); bool ch = h.m.live.size() != before; sure(ch); maybe_changes++; break; }
        }
        if (exact && h.iw && pending) { // nothing uncommitted is visible
            if (c.src.chance(1, 5)) { FrtIndexReader *ir = frt_ir_open(h.st.st); std::vector<uint64_t> v = uids_of(ir); frt_ir_close(ir); CHECK(v == cand[0], "visible", "uncommitted changes are visible: [%s] instead of [%s]", uids_str(v).c_str(), uids_str(cand[0]).c_str()); }
        }
    }
    for (size_t i = 0; i < pool.size(); i++) check_snap(i, "at the end");
    h.close_writer(); maybe_changes++;
    for (size_t i = 0; i < pool.size(); i++) check_snap(i, "after closing the writer");
    { FrtIndexReader *ir = frt_ir_open(h.st.st); std::vector<uint64_t> v = uids_of(ir); frt_ir_close(ir); CHECK(v == uids_of(h.m), "visible", "after closing the writer a new reader shows [%s] instead of [%s]", uids_str(v).c_str(), uids_str(uids_of(h.m)).c_str()); }
    c.nontrivial = c.labels["snapshot.check"] > 0 && sure_changes + h.n_opt > 0;
    while (!pool.empty()) close_snap(0);
    h.finish();
}

// ------------------------------------------------------------------ P08
static void p08(Ctx &c)
{
    Hist h(c);
    h.cfg = gen_cfg(c); h.schema = gen_schema(c);
    h.g.max_words = 3;
    bool fs = c.src.draw(2);
    h.init(fs);
    StoreH st2; FrtStore *second = h.st.st;               // another handle on the same directory, as another process would have
    if (fs && c.src.draw(2)) { st2.path = c.scratch + "/idx/../idx"; st2.st = frt_open_fs_store(st2.path.c_str()); second = st2.st; }
    for (uint32_t i = 2 + c.src.draw(12); i; i--) { h.add_gen(); if (c.src.chance(1, 3)) h.commit(); }
    h.close_writer();
    struct R { FrtIndexReader *ir; bool holds = false, stale_seen = false; uint64_t ver; std::string base; std::set<int> dels; bool dirty = false; };
    std::vector<R> rs; FrtIndexWriter *w = nullptr; uint64_t version = 0; int holder = -1;   // -1 none, -2 the writer, i reader i
    uint64_t w_pending = 0; int fails = 0, succ = 0;
    auto disk = [&] { return dump_store(c.src.draw(2) ? h.st.st : second); };
    std::string disk_now = disk();
    auto locked_probe = [&](const char *when) {
        bool l = frt_index_is_locked(h.st.st);
        CHECK(l == (holder != -1), "lock", "%s: index_is_locked says %d, but %s", when, (int)l, holder == -1 ? "nobody holds the lock" : holder == -2 ? "a writer is open" : "a reader has uncommitted changes");
        l = frt_index_is_locked(h.st.st);
        CHECK(l == (holder != -1), "lock", "%s: asking twice whether the index is locked gives %d", when, (int)l);
    };
    auto open_r = [&] { if (rs.size() >= 4) return; R r; r.ir = frt_ir_open(c.src.draw(2) ? h.st.st : second); r.ver = version; r.base = dump_reader(r.ir, DumpOpt()); rs.push_back(r); c.t("open reader %zu", rs.size() - 1); };
    open_r();
    uint32_t steps = 4 + c.src.geo(30, 93);
    for (uint32_t s = 0; s < steps; s++) {
        uint32_t k = c.src.weighted({3, 3, 8, 3, 3, 3, 2, 2});
        FrtStore *st = c.src.draw(2) ? h.st.st : second;
        if (k == 0) open_r();
        else if (k == 1) {                                 // open (another) writer
            FrtIndexWriter *nw = nullptr; Cfg cfg = h.cfg; cfg.c.max_buffered_docs = 1000; cfg.c.chunk_size = 0x8000; cfg.c.max_buffer_memory = 0x1000000;
            int rc = frt_try([&] { nw = open_writer(st, cfg); });
            c.t("open writer -> %d", rc);
            if (holder == -1) { CHECK(rc == 0, "lock", "opening a writer failed (%d: %s) although nobody holds the lock", rc, g_last_error.c_str()); w = nw; holder = -2; succ++; }
            else { CHECK(rc != 0, "lock", "a second writer was opened while %s", holder == -2 ? "a writer is open" : "a reader has uncommitted changes"); CHECK(rc == FRT_LOCK_ERROR, "lock", "opening a writer on a locked index raised error %d (%s), not a lock error", rc, g_last_error.c_str()); fails++; }
        } else if (k == 2) {                               // modify through a reader
            if (rs.empty()) { open_r(); if (rs.empty()) continue; }
            uint32_t i = c.src.draw((uint32_t)rs.size()); R &r = rs[i]; int md = r.ir->max_doc(r.ir); uint32_t what = c.src.weighted({5, 1, 2}); int dn = md ? (int)c.src.draw(md) : 0;
            if (!md) continue;
            std::string before = dump_reader(r.ir, DumpOpt());
            FrtSymbol fsym = r.ir->fis->size ? r.ir->fis->fields[c.src.draw(r.ir->fis->size)]->name : frt_intern("f0");
            int rc = frt_try([&] { if (what == 0) frt_ir_delete_doc(r.ir, dn); else if (what == 1) frt_ir_undelete_all(r.ir); else frt_ir_set_norm(r.ir, dn, fsym, (frt_uchar)(1 + c.src.draw(200))); });
            c.t("reader %u: %s %d -> %d", i, what == 0 ? "delete" : what == 1 ? "undelete" : "set_norm", dn, rc);
            bool stale = r.ver != version, other = holder != -1 && holder != (int)i;
            if (stale || other) {
                CHECK(rc != 0, "lock", "reader %u could modify the index although %s", i, stale ? "it is out of date" : "another one holds the lock");
                CHECK((stale && rc == FRT_STATE_ERROR) || (other && rc == FRT_LOCK_ERROR), "lock", "reader %u: unexpected error %d (%s)", i, rc, g_last_error.c_str());
                SAME(before, dump_reader(r.ir, DumpOpt()), "lock", "reader %u: a refused modification changed what the reader shows", i);
                SAME(disk_now, disk(), "lock", "reader %u: a refused modification changed the index", i);
                fails++;
            } else { CHECK(rc == 0, "lock", "reader %u could not modify the index: %d %s", i, rc, g_last_error.c_str()); holder = (int)i; r.holds = true; succ++; }
        } else if (k == 3) {                               // commit a reader
            if (rs.empty()) continue; uint32_t i = c.src.draw((uint32_t)rs.size()); R &r = rs[i];
            MUST("lock", frt_ir_commit(r.ir));
            c.t("commit reader %u", i);
            if (r.holds) { r.holds = false; holder = -1; version++; r.ver = version; disk_now = disk(); SAME(disk_now, dump_reader(r.ir, DumpOpt()), "lock", "the committed index differs from what the committing reader shows"); }
        } else if (k == 4) {                               // close a reader
            if (rs.empty()) continue; uint32_t i = c.src.draw((uint32_t)rs.size()); R &r = rs[i]; std::string now = dump_reader(r.ir, DumpOpt());
            MUST("lock", frt_ir_close(r.ir)); c.t("close reader %u", i);
            bool held = r.holds; rs.erase(rs.begin() + i);
            if (held) { holder = -1; version++; disk_now = disk(); SAME(disk_now, now, "lock", "the index differs from what the closed reader showed"); }
            else if (holder > (int)i) holder--;
        } else if (k == 5) {                               // use or close the writer
            if (!w) continue;
            uint32_t what = c.src.draw(3);
            if (what == 0) { DocP d = gen_doc(c, h.g); MUST("lock", add_doc(w, *d)); w_pending++; c.t("writer: add"); }
            else if (what == 1) { MUST("lock", frt_iw_commit(w)); if (w_pending) { version++; w_pending = 0; } disk_now = disk(); c.t("writer: commit"); }
            else { bool ch = w_pending; MUST("lock", frt_iw_close(w)); w = nullptr; holder = -1; if (ch) version++; w_pending = 0; c.t("writer: close"); std::string n = disk(); if (!ch) SAME(disk_now, n, "lock", "closing an unused writer changed the index"); disk_now = n; }
        } else if (k == 6) locked_probe("probe");
        SAME(disk_now, disk(), "lock", "the index changed without a commit (step %u, operation %u)", s, k);
        if (c.src.chance(1, 4)) locked_probe("after a step");
    }
    // release everything, then the index must be usable
    if (w) MUST("lock", frt_iw_close(w));
    for (auto &r : rs) MUST("lock", frt_ir_close(r.ir));
    holder = -1;
    locked_probe("at the end");
    FrtIndexWriter *nw = nullptr; int rc = frt_try([&] { nw = open_writer(second, h.cfg); });
    CHECK(rc == 0, "lock", "no writer can be opened at the end: %d %s", rc, g_last_error.c_str());
    frt_iw_close(nw);
    h.finish(); if (st2.st) frt_store_deref(st2.st);
    c.nontrivial = fails >= 1 && succ >= 1;
    c.label("refused", fails); c.label("granted", succ);
}

// ------------------------------------------------------------------ P09
static void p10_run(Ctx &c, bool writes);
static void p09(Ctx &c)
{
    if (c.src.chance(1, 6)) { p10_run(c, true); return; }  // the same through a reader over several indexes
    Hist h(c);
    h.cfg = gen_cfg(c); h.schema = gen_schema(c); h.g.vocab = (int)c.src.draw(3);
    bool nomerge = c.src.draw(2); if (nomerge) h.cfg.c.merge_factor = 10000;
    h.init(c.src.chance(1, 4));
    // every document ever added, in order, with its state
    struct D { DocP d; std::map<std::string, uint8_t> norms; bool alive; };
    std::vector<D> all; int mods = 0, undel = 0, bydel = 0;
    std::map<uint64_t, size_t> at;                         // uid -> index in all
    bool optimized_since = false;
    auto sync_model = [&] { h.m.live.clear(); h.m.dead.clear(); for (auto &d : all) if (d.alive) { LiveDoc l; l.d = d.d; l.norm_over = d.norms; h.m.live.push_back(l); } else h.m.dead.push_back(d.d); };
    auto verify = [&](FrtIndexReader *ir, const char *w) { sync_model(); verify_reader(c, ir, h.m, h.schema, V_STORED | V_POSTINGS | V_NORMS | (c.src.draw(3) ? 0 : V_TV), w);
        FrtSearcher *s = frt_isea_new(ir); FRT_REF(ir);
        if (ir->max_doc(ir) > 0) { FrtQuery *q = frt_maq_new(); FrtTopDocs *td = frt_searcher_search(s, q, 0, 100000, NULL, NULL, NULL); CHECK(td->total_hits == (int)h.m.live.size(), "search", "%s: a match-all search finds %d of %zu documents", w, td->total_hits, h.m.live.size()); frt_td_destroy(td); frt_q_deref(q); }
        frt_searcher_close(s); };
    auto kill = [&](const std::string &f, const std::string &t) { for (auto &d : all) if (d.alive && d.d->has_term(f, t)) { d.alive = false; bydel++; } };
    uint32_t rounds = 1 + c.src.geo(7, 85); uint32_t physical_base = 0; (void)physical_base;
    std::vector<bool> merged;                              // nomerge: documents certainly merged away
    for (uint32_t r = 0; r < rounds; r++) {
        // writer phase
        uint32_t n = c.src.geo(6, 80);
        for (uint32_t i = 0; i < n; i++) {
            uint32_t k = c.src.weighted({12, 2, 2, 1, 2});
            if (k == 0) { h.add_gen(); at[h.m.live.back().d->uid] = all.size(); all.push_back({h.m.live.back().d, {}, true}); merged.push_back(false); }
            else if (k == 1) { sync_model(); h.need_writer(); std::string f, t = h.rand_term(f); mods++;
                std::vector<std::string> ts{t}; if (c.src.draw(3) == 0) { std::string f2; for (uint32_t q = 1 + c.src.geo(3, 60); q; q--) { std::string x = h.rand_term(f2); if (f2 == f) ts.push_back(x); } }
                c.t("writer delete %s:%s (%zu terms)", f.c_str(), esc(t).c_str(), ts.size());
                if (ts.size() == 1) frt_iw_delete_term(h.iw, frt_intern(f.c_str()), t.c_str());
                else { std::vector<char *> p; for (auto &x : ts) p.push_back((char *)x.c_str()); frt_iw_delete_terms(h.iw, frt_intern(f.c_str()), p.data(), (int)p.size()); }
                for (auto &x : ts) kill(f, x); }
            else if (k == 2) h.commit();
            else if (k == 3) { h.optimize(); for (size_t j = 0; j < all.size(); j++) if (!all[j].alive) merged[j] = true; }
            else { uint32_t cnt = c.src.pick(std::vector<uint32_t>{5, 12, 40}), pat = c.src.draw(16); c.t("bulk %u pattern %u", cnt, pat); bool tr = c.tracing; c.tracing = false; for (uint32_t j = 0; j < cnt; j++) { h.add(bulk_doc(h.g, pat, j)); at[h.m.live.back().d->uid] = all.size(); all.push_back({h.m.live.back().d, {}, true}); merged.push_back(false); } c.tracing = tr; }
        }
        h.close_writer();
        // reader phase
        FrtIndexReader *ir = frt_ir_open(h.st.st);
        sync_model();
        std::vector<int> map = live_map(ir);
        CHECK(map.size() == h.m.live.size(), "count", "round %u: %zu live documents, expected %zu", r, map.size(), h.m.live.size());
        c.t("reader: %d/%d documents", ir->num_docs(ir), ir->max_doc(ir));
        bool changed = false;
        for (uint32_t i = c.src.geo(6, 75); i; i--) {
            int md = ir->max_doc(ir); if (!md) break;
            std::vector<size_t> live; for (size_t j = 0; j < all.size(); j++) if (all[j].alive) live.push_back(j);
            map = live_map(ir);
            CHECK(map.size() == live.size(), "count", "%zu live documents, expected %zu", map.size(), live.size());
            uint32_t k = c.src.weighted({6, 4, 1, 1, 1});
            if (k == 0 && !live.empty()) {
                uint32_t x = c.src.draw((uint32_t)live.size()); int before = ir->num_docs(ir);
                frt_ir_delete_doc(ir, map[x]); all[live[x]].alive = false; changed = true; c.t("delete %d (#%llu)", map[x], (unsigned long long)all[live[x]].d->uid);
                if (c.src.chance(1, 4)) frt_ir_delete_doc(ir, map[x]);            // deleting twice
                CHECK(ir->is_deleted(ir, map[x]) && ir->num_docs(ir) == before - 1 && ir->has_deletions(ir), "delete", "deleting document %d: deleted %d, count %d -> %d", map[x], (int)ir->is_deleted(ir, map[x]), before, ir->num_docs(ir)); mods++;
            } else if (k == 1 && !live.empty()) {
                uint32_t x = c.src.draw((uint32_t)live.size()); auto &d = all[live[x]];
                std::vector<std::string> fsn; for (auto &kv : d.d->inv) if (kv.second.has_norm) fsn.push_back(kv.first);
                if (fsn.empty()) continue;
                const std::string &f = c.src.pick(fsn); uint8_t v = (uint8_t)c.src.draw(256);
                if (c.src.draw(2)) frt_ir_get_norms(ir, frt_intern(f.c_str()));   // fills the caches
                frt_ir_set_norm(ir, map[x], frt_intern(f.c_str()), v); d.norms[f] = v; changed = true; mods++; c.t("set_norm %d %s=%d", map[x], f.c_str(), v);
            } else if (k == 2) {
                frt_ir_undelete_all(ir); changed = true; undel++; mods++;
                c.t("undelete all");
                CHECK(ir->num_docs(ir) == ir->max_doc(ir) && !ir->has_deletions(ir), "undelete", "undelete_all leaves %d of %d documents", ir->num_docs(ir), ir->max_doc(ir));
                std::vector<uint64_t> u = uids_of(ir); std::set<uint64_t> us(u.begin(), u.end());
                CHECK(us.size() == u.size(), "undelete", "undelete_all shows a document twice");
                for (size_t j = 0; j < all.size(); j++) {
                    bool in = us.count(all[j].d->uid);
                    CHECK(in || !all[j].alive, "undelete", "document #%llu lost by undelete_all", (unsigned long long)all[j].d->uid);
                    if (nomerge && !merged[j]) CHECK(in, "undelete", "document #%llu was deleted and never merged away, but undelete_all does not restore it", (unsigned long long)all[j].d->uid);
                    CHECK(!in || !merged[j], "undelete", "document #%llu returned although it was optimized away", (unsigned long long)all[j].d->uid);
                    all[j].alive = in;
                }
            } else if (k == 3) { frt_ir_commit(ir); changed = false; c.t("commit reader"); FrtIndexReader *r2 = frt_ir_open(h.st.st); verify(r2, "another reader after commit"); frt_ir_close(r2); }
            else if (k == 4) { int dn = (c.src.draw(2) ? md : -1) + (int)c.src.draw(1); frt_ir_delete_doc(ir, dn); c.t("delete out of range %d", dn); }
            if (c.src.chance(1, 3)) verify(ir, "the modifying reader");
        }
        if (changed && c.src.draw(3) == 0) { // uncommitted changes are invisible elsewhere: only counts are compared with the modified view
            FrtIndexReader *r2 = frt_ir_open(h.st.st); std::vector<uint64_t> v2 = uids_of(r2); frt_ir_close(r2); (void)v2; }
        verify(ir, "before closing");
        if (c.src.draw(2)) frt_ir_commit(ir);
        frt_ir_close(ir);
        FrtIndexReader *r2 = frt_ir_open(h.st.st); verify(r2, "after closing"); frt_ir_close(r2);
    }
    if (c.src.draw(2)) { h.optimize(); h.close_writer(); FrtIndexReader *r2 = frt_ir_open(h.st.st); verify(r2, "optimized"); frt_ir_close(r2); }
    h.finish();
    c.nontrivial = mods >= 2 && all.size() >= 3;
    c.label("mods", mods); c.label("undelete_all", undel); if (nomerge) c.label("no_merges");
}

// ------------------------------------------------------------------ P10
static void p10_run(Ctx &c, bool writes)
{
    // one table of field declarations; every index declares a random subset in a random order
    Schema uni = gen_schema(c);
    uint32_t ns = 1 + c.src.draw(4);
    AKind an = (AKind)c.src.draw(A_NKINDS); uint64_t uid = 1;
    std::vector<std::unique_ptr<Hist>> hs; std::vector<FrtIndexReader *> rds; std::vector<std::string> before; std::vector<Model> models;
    DumpOpt loose; loose.doc_numbers = false;
    Cfg base = gen_cfg(c); 
    bool dirty = false; int total = 0, deld = 0;
    for (uint32_t i = 0; i < ns + 1; i++) {               // the last one is the target
        auto h = std::make_unique<Hist>(c);
        h->cfg = gen_cfg(c); h->cfg.analyzer = an; h->cfg.c.max_field_length = base.c.max_field_length;
        h->schema = uni;
        // order and subset of declarations: "uid" is always declared; undeclared ones are only used by other indexes
        std::vector<MField> dec; for (auto &f : uni.declared) if (f.name == "uid" || !c.src.chance(1, 3)) dec.push_back(f);
        Schema ord = uni; ord.declared = dec;
        for (size_t k = dec.size(); k > 1; k--) std::swap(dec[k - 1], dec[c.src.draw((uint32_t)k)]);
        h->schema.declared = dec;
        h->g.next_uid = uid; h->g.vocab = (int)c.src.draw(3);
        if (i < ns || true) {
            StoreH &s = h->st; if (c.src.chance(1, 4)) s.open_fs(c.scratch + fmt("/i%u", i)); else s.open_ram();
            c.t("index %u: %s; fields %s", i, h->cfg.str().c_str(), schema_str(h->schema).c_str());
            h->g.schema = ord; h->g.analyzer = an;
            FrtFieldInfos *fis = h->schema.make(); frt_index_create(s.st, fis); frt_fis_deref(fis); h->man = make_analyzer(an);
        }
        uint32_t n = c.src.geo(8, 80);
        for (uint32_t k = 0; k < n; k++) switch (c.src.weighted({10, 1, 3, 2, 2, 1})) {
            case 0: {   // a document restricted to declared fields, so that declarations never clash
                DocP d = gen_doc(c, h->g); std::vector<MDocField> keep; for (auto &f : d->fields) { bool ok = false; for (auto &x : dec) ok |= x.name == f.name; if (ok) keep.push_back(f); } d->fields = keep; h->add(d); break; }
            case 1: { uint32_t cnt = c.src.pick(std::vector<uint32_t>{5, 20, 40}), pat = c.src.draw(16); c.t("bulk %u/%u", cnt, pat); bool tr = c.tracing; c.tracing = false; for (uint32_t j = 0; j < cnt; j++) { DocP d = bulk_doc(h->g, pat, j); std::vector<MDocField> keep; for (auto &f : d->fields) { bool ok = false; for (auto &x : dec) ok |= x.name == f.name; if (ok) keep.push_back(f); } d->fields = keep; h->add(d); } c.tracing = tr; break; }
            case 2: h->del_term(); break;
            case 3: h->del_reader(); break;
            case 4: h->commit(); break;
            case 5: h->optimize(); break;
        }
        uid = h->g.next_uid + 1000;
        h->close_writer();
        deld += h->n_del; total += (int)h->m.live.size();
        hs.push_back(std::move(h));
    }
    auto set_norms = [&](Hist &h, FrtIndexReader *ir) {    // a few norm changes and deletions left uncommitted in the source reader
        std::vector<int> map = live_map(ir);
        for (uint32_t k = c.src.geo(3, 60); k && !h.m.live.empty(); k--) {
            uint32_t x = c.src.draw((uint32_t)h.m.live.size()); auto &l = h.m.live[x];
            if (c.src.draw(2)) { c.t("source: delete %d", map[x]); frt_ir_delete_doc(ir, map[x]); h.model_delete_at(x); map.erase(map.begin() + x); deld++; }
            else for (auto &kv : l.d->inv) if (kv.second.has_norm) { uint8_t v = (uint8_t)c.src.draw(256); c.t("source: set_norm %d %s=%d", map[x], kv.first.c_str(), v); frt_ir_set_norm(ir, map[x], frt_intern(kv.first.c_str()), v); l.norm_over[kv.first] = v; break; }
            dirty = true;
        }
    };
    for (uint32_t i = 0; i < ns; i++) { FrtIndexReader *ir = frt_ir_open(hs[i]->st.st); if (c.src.chance(1, 3)) { set_norms(*hs[i], ir); if (c.src.draw(2)) frt_ir_commit(ir); } rds.push_back(ir); before.push_back(dump_reader(ir, DumpOpt())); }
    Hist &t = *hs[ns];
    bool multi = writes || c.src.chance(2, 5);
    Schema uniq = uni;
    if (multi) {                                           // a multi-reader over the sources
        Model all; for (uint32_t i = 0; i < ns; i++) { for (auto &l : hs[i]->m.live) all.live.push_back(l); for (auto &d : hs[i]->m.dead) all.dead.push_back(d); }
        std::vector<FrtIndexReader *> copy = rds; FrtIndexReader **arr = FRT_ALLOC_N(FrtIndexReader *, ns); for (uint32_t i = 0; i < ns; i++) arr[i] = rds[i];
        int sum_max = 0; for (auto r : rds) sum_max += r->max_doc(r);
        FrtIndexReader *mr = frt_mr_open(arr, (int)ns);
        CHECK(mr->max_doc(mr) == sum_max, "multi", "max_doc of the multi-reader is %d, expected %d", mr->max_doc(mr), sum_max);
        verify_reader(c, mr, all, uniq, V_STORED | V_POSTINGS | V_NORMS | V_TV | V_SEEK | V_LAZY, "multi-reader");
        std::set<std::string> names = field_names(all);
        int off = 0;
        for (uint32_t i = 0; i < ns; i++) for (int d = 0; d < rds[i]->max_doc(rds[i]); d++, off++) CHECK(mr->is_deleted(mr, off) == rds[i]->is_deleted(rds[i], d), "multi", "deletion flag of document %d differs in the multi-reader", off);
        for (auto &l : all.live) { for (auto &kv : l.d->inv) { int k = 0; for (auto &p : kv.second.postings) { int sum = 0; FrtSymbol f = frt_intern(kv.first.c_str()); for (auto r : rds) sum += frt_ir_doc_freq(r, f, p.first.c_str()); int df = frt_ir_doc_freq(mr, f, p.first.c_str()); CHECK(df == sum, "multi", "doc_freq of %s:%s is %d in the multi-reader, the sum is %d", kv.first.c_str(), esc(p.first).c_str(), df, sum); if (++k > 3) break; } } }
        for (uint32_t i = 0; i < ns; i++) SAME(before[i], dump_reader(rds[i], DumpOpt()), "source", "using the multi-reader changed source %u", i);
        c.label("multi_reader");
        if (writes) {                                      // modifications through the multi-reader
            std::vector<int> start(1, 0); for (uint32_t i = 0; i < ns; i++) start.push_back(start.back() + rds[i]->max_doc(rds[i]));
            std::vector<bool> mine(ns, false), stale(ns, false); int mods = 0; bool norms = dirty, mine_mr = false;   // changes made to a source directly are committed with the reader's next own change
            for (uint32_t i = 0; i < ns; i++) if (rds[i]->has_changes) mine[i] = true;
            auto concat = [&] { Model m; for (uint32_t i = 0; i < ns; i++) { for (auto &l : hs[i]->m.live) m.live.push_back(l); for (auto &d : hs[i]->m.dead) m.dead.push_back(d); } return m; };
            for (uint32_t n = 1 + c.src.geo(8, 80); n; n--) {
                std::vector<int> map = live_map(mr); Model m = concat();
                CHECK(map.size() == m.live.size(), "multi", "the multi-reader has %zu documents, expected %zu", map.size(), m.live.size());
                uint32_t k = c.src.weighted({6, 5, 1, 1, 1});
                if ((k == 0 || k == 1) && !map.empty()) {
                    uint32_t x = c.src.draw((uint32_t)map.size()), i = 0, y = x; while (y >= hs[i]->m.live.size()) y -= (uint32_t)hs[i++]->m.live.size();
                    std::string f; uint8_t v = 0;
                    if (k == 1) { std::vector<std::string> fsn; for (auto &kv : hs[i]->m.live[y].d->inv) if (kv.second.has_norm) fsn.push_back(kv.first); if (fsn.empty()) continue; f = c.src.pick(fsn); v = (uint8_t)c.src.draw(256); if (c.src.draw(2)) frt_ir_get_norms(mr, frt_intern(f.c_str())); }
                    int before = mr->num_docs(mr);
                    int rc = frt_try([&] { if (k == 0) frt_ir_delete_doc(mr, map[x]); else frt_ir_set_norm(mr, map[x], frt_intern(f.c_str()), v); });
                    c.t("multi-reader: %s %d of index %u -> %d", k == 0 ? "delete" : ("set_norm " + f).c_str(), map[x], i, rc);
                    if (stale[i]) { CHECK(rc == FRT_STATE_ERROR, "stale", "a modification of a changed index through the multi-reader gave %d", rc); CHECK(mr->num_docs(mr) == before, "stale", "a refused deletion changed the count"); continue; }
                    CHECK(rc == 0, "multi", "a modification through the multi-reader failed: %d %s", rc, g_last_error.c_str());
                    if (k == 0) { hs[i]->model_delete_at(y); CHECK(mr->is_deleted(mr, map[x]) && mr->num_docs(mr) == before - 1 && mr->has_deletions(mr), "multi", "deleting document %d through the multi-reader: count %d -> %d", map[x], before, mr->num_docs(mr)); }
                    else { hs[i]->m.live[y].norm_over[f] = v; norms = true; }
                    mine[i] = mine_mr = true; mods++;
                    CHECK(frt_index_is_locked(hs[i]->st.st), "lock", "index %u is being modified through a multi-reader, but is not locked", i);
                } else if (k == 2) {
                    if (norms || std::count(stale.begin(), stale.end(), true)) continue;
                    frt_ir_undelete_all(mr); c.t("multi-reader: undelete all");
                    CHECK(mr->num_docs(mr) == mr->max_doc(mr) && !mr->has_deletions(mr), "multi", "undelete_all leaves %d of %d documents", mr->num_docs(mr), mr->max_doc(mr));
                    for (uint32_t i = 0; i < ns; i++) {
                        std::map<uint64_t, DocP> by; Model &hm = hs[i]->m; for (auto &l : hm.live) by[l.d->uid] = l.d; for (auto &d : hm.dead) by[d->uid] = d;
                        std::vector<uint64_t> u = uids_of(rds[i]); size_t nl = 0; std::set<uint64_t> us(u.begin(), u.end()); for (auto &l : hm.live) nl += us.count(l.d->uid);
                        CHECK(nl == hm.live.size(), "multi", "undelete_all lost a document of index %u", i);
                        hm.live.clear(); hm.dead.clear(); for (auto x : u) { CHECK(by.count(x), "multi", "undelete_all shows an unknown document #%llu", (unsigned long long)x); LiveDoc l; l.d = by[x]; hm.live.push_back(l); } for (auto &kv : by) if (!us.count(kv.first)) hm.dead.push_back(kv.second);
                        mine[i] = true; CHECK(frt_index_is_locked(hs[i]->st.st), "lock", "index %u is being modified through a multi-reader, but is not locked", i);
                    }
                    mods++; mine_mr = true;
                } else if (k == 3) { frt_ir_commit(mr); c.t("multi-reader: commit"); if (!mine_mr) continue; mine_mr = false; for (uint32_t i = 0; i < ns; i++) { mine[i] = false; CHECK(!frt_index_is_locked(hs[i]->st.st), "lock", "index %u is still locked after the commit", i); } }
                else if (k == 4) { uint32_t i = c.src.draw(ns); if (mine[i] || stale[i]) continue; c.t("another writer changes index %u", i); FrtIndexWriter *w = open_writer(hs[i]->st.st, hs[i]->cfg); DocP d = gen_doc(c, hs[i]->g); d->fields.resize(std::min<size_t>(d->fields.size(), 1)); add_doc(w, *d); frt_iw_close(w); stale[i] = true; }
                if (c.src.chance(1, 3)) verify_reader(c, mr, concat(), uniq, V_STORED | V_POSTINGS | V_NORMS, "modified multi-reader");
            }
            verify_reader(c, mr, concat(), uniq, V_STORED | V_POSTINGS | V_NORMS, "multi-reader before closing");
            MUST("multi", frt_ir_close(mr));
            for (uint32_t i = 0; i < ns; i++) { CHECK(!frt_index_is_locked(hs[i]->st.st), "lock", "index %u is still locked after closing the multi-reader", i); if (stale[i]) continue; FrtIndexReader *r = frt_ir_open(hs[i]->st.st); verify_reader(c, r, hs[i]->m, uniq, V_STORED | V_POSTINGS | V_NORMS, "index modified through a multi-reader"); frt_ir_close(r); }
            for (auto &h : hs) h->finish();
            c.nontrivial = mods >= 2 && total >= 3; c.label("multi_writes", mods);
            return;
        }
        frt_ir_close(mr);
    } else {
        std::vector<std::string> disk_before;
        for (uint32_t i = 0; i < ns; i++) disk_before.push_back(dump_store(hs[i]->st.st));
        std::vector<FrtIndexReader *> arr = rds;
        bool two = ns >= 2 && c.src.draw(3) == 0;
        t.need_writer();
        if (c.src.draw(2)) { DocP d = gen_doc(c, t.g); std::vector<MDocField> keep; for (auto &f : d->fields) { bool ok = false; for (auto &x : t.schema.declared) ok |= x.name == f.name; if (ok) keep.push_back(f); } d->fields = keep; t.add(d); }     // still buffered
        c.t("add %u readers", ns);
        if (two) { frt_iw_add_readers(t.iw, arr.data(), 1); frt_iw_add_readers(t.iw, arr.data() + 1, (int)ns - 1); }
        else frt_iw_add_readers(t.iw, arr.data(), (int)ns);
        Model all = t.m; for (uint32_t i = 0; i < ns; i++) for (auto &l : hs[i]->m.live) all.live.push_back(l);
        all.dead.clear();
        for (uint32_t i = 0; i < ns; i++) SAME(before[i], dump_reader(rds[i], DumpOpt()), "source", "adding the indexes changed source reader %u", i);
        for (uint32_t i = 0; i < ns; i++) SAME(disk_before[i], dump_store(hs[i]->st.st), "source", "adding the indexes changed source index %u", i);
        auto check = [&](const char *w) { FrtIndexReader *ir = frt_ir_open(t.st.st); std::vector<uint64_t> u = uids_of(ir), e = uids_of(all); CHECK(u == e, "merged", "%s: documents [%s], expected [%s]", w, uids_str(u).c_str(), uids_str(e).c_str()); verify_reader(c, ir, all, uniq, V_STORED | V_POSTINGS | V_NORMS | V_TV | V_SEEK, w); frt_ir_close(ir); };
        t.close_writer(); check("merged index");
        if (c.src.draw(2)) { // life goes on in the merged index
            std::swap(t.m, all); all = t.m; DocP d = gen_doc(c, t.g); d->fields.resize(std::min<size_t>(d->fields.size(), 1)); t.add(d); all.live.push_back(t.m.live.back()); t.commit(); t.close_writer(); check("merged index after another addition");
            t.optimize(); t.close_writer(); check("merged index optimized");
        }
        for (auto r : rds) frt_ir_close(r);
        c.label("add_readers");
    }
    for (auto &h : hs) h->finish();
    c.nontrivial = total >= 3 && ns >= 1;
    if (deld) c.label("with_deletions"); if (dirty) c.label("uncommitted_source");
}
static void p10(Ctx &c) { p10_run(c, false); }

#define H "random histories over a random schema, configuration, analyzer and store kind; "
const Prop the_props[] = {
    {"P04", p04, 5000, 120000, H "the same operations are applied to two indexes with different configurations and their complete contents compared, before and after optimizing; every file left after reopening must be needed; non-trivial: at least 3 documents and one deletion", "exploration", true, 60},
    {"P05", p05, 12000, 120000, H "up to five open readers are re-read completely after later commits, merges, optimizations and deletions; visible states are compared with the committed ones; non-trivial: a snapshot re-read after a change", "exploration", true, 60},
    {"P08", p08, 6000, 120000, "random interleavings of opening writers, modifying, committing and closing readers and asking for the lock over two handles of one directory, compared with a lock model; non-trivial: at least one refused and one granted modification", "exploration", true, 60},
    {"P09", p09, 3500, 120000, H "deletions, undeletions and norm changes through readers (also over several indexes) and writers compared with a document model in the modifying and in fresh readers; non-trivial: at least 2 modifications and 3 documents", "exploration", true, 60},
    {"P10", p10, 12000, 120000, H "1 to 4 source indexes with different field sets and orders are merged with add_readers or read through a multi-reader and compared with the concatenated model; non-trivial: at least 3 documents", "exploration", true, 60},
    {0}
};
