// P01 stored documents, P02 inverted index, P03 term vectors: model-based histories.
#include "hist.hpp"

static void run_hist(Ctx &c, int opt, bool big, int vocab)
{
    Hist h(c);
    h.cfg = gen_cfg(c); h.schema = gen_schema(c, big ? 5 : 1);
    h.g.big_data = big; h.g.vocab = vocab;
    bool fs = c.src.chance(1, 4);
    h.init(fs);
    uint32_t steps = 1 + c.src.geo(14, 88);
    for (uint32_t i = 0; i < steps; i++) {
        h.step();
        if (c.src.chance(1, 6)) h.verify(opt, "mid");
    }
    h.verify(opt, "end");
    if (c.src.chance(1, 3)) { h.optimize(); h.verify(opt, "optimized"); }
    h.finish();
    c.nontrivial = h.n_adds >= 3 && (h.n_del || h.n_opt || h.n_reopen || h.n_commit);
    c.label("ops.add", h.n_adds); c.label("ops.deleted_docs", h.n_del); c.label("ops.optimize", h.n_opt);
}
static void p01(Ctx &c) { run_hist(c, V_STORED | V_LAZY | V_FIS, true, 2); }
static void p02(Ctx &c) { run_hist(c, V_POSTINGS | V_SEEK, c.src.chance(1, 8), (int)c.src.draw(3)); }
static void p03(Ctx &c) { run_hist(c, V_TV, c.src.chance(1, 8), (int)c.src.draw(3)); }

#define RULE "random histories (add, bulk add, delete by term, delete by number, commit, reopen with another configuration, optimize) over a random schema, configuration, analyzer and store kind, compared with a document model after commits; non-trivial: at least 3 documents added and at least one deletion, optimize, reopen or commit"
const Prop the_props[] = {
    {"P01", p01, 16000, 200000, RULE, "exploration", true, 60},
    {"P02", p02, 8000, 200000, RULE, "exploration", true, 60},
    {"P03", p03, 16000, 200000, RULE, "exploration", true, 60},
    {0}
};
