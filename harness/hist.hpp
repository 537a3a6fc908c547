// A history of index operations on one directory, with the model of what it must contain.
#pragma once
#include "model.hpp"

struct Hist {
    Ctx &c; StoreH st; Cfg cfg; DocGen g; Schema schema; Model m;
    FrtIndexWriter *iw = nullptr; FrtAnalyzer *man = nullptr;
    std::string dirname = "idx";
    int n_del = 0, n_opt = 0, n_commit = 0, n_reopen = 0, n_adds = 0;
    Hist(Ctx &cc) : c(cc) {}
    void init(bool fs);                         // creates the index
    void need_writer() { if (!iw) { iw = open_writer(st.st, cfg); c.t("open writer"); } }
    void close_writer() { if (iw) { frt_iw_close(iw); iw = nullptr; c.t("close writer"); } }
    void add(DocP d);
    void add_gen() { add(gen_doc(c, g)); }
    void bulk();
    void del_term();                            // through the writer
    void del_reader();                          // by number, through a reader
    void commit() { need_writer(); frt_iw_commit(iw); n_commit++; c.t("commit"); }
    void optimize() { need_writer(); frt_iw_optimize(iw); n_opt++; c.t("optimize"); }
    void reopen() { close_writer(); n_reopen++; if (c.src.chance(1, 3)) { AKind a = cfg.analyzer; cfg = gen_cfg(c); cfg.analyzer = a; c.t("config: %s", cfg.str().c_str()); } need_writer(); }
    void model_delete(const std::string &f, const std::string &t);
    void model_delete_at(size_t i) { m.dead.push_back(m.live[i].d); m.live.erase(m.live.begin() + i); }
    void step();                                // one random operation
    void verify(int opt, const char *where);
    void finish() { close_writer(); st.close(); if (man) { frt_a_deref(man); man = nullptr; } }
    std::string rand_term(std::string &field);  // a term, usually of a live document
};
