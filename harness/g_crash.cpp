// P06 crash points and P07 I/O errors: the file-system calls the library makes on the index
// directory are intercepted at link time; the directory is photographed before (and in the middle
// of) them, or one of them fails.
#include "hist.hpp"
#include <fcntl.h>
#include <dirent.h>

typedef std::map<std::string, std::shared_ptr<std::string>> Files;
struct Image { Files files; std::string what; };
struct Rnd { uint64_t s = 1; uint32_t operator()(uint32_t n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return n ? (uint32_t)((s >> 11) % n) : 0; } };

struct Io {
    std::string dir;                         // the watched directory; empty: pass everything through
    int mode = 0;                            // 1: photograph, 2: inject one fault
    std::map<int, std::string> fds;          // descriptors open for writing in it
    std::set<int> all_fds;                   // every descriptor opened in scratch (closed at the end)
    std::string scratch;
    Rnd r; uint32_t stride = 1; int cap = 0;
    std::vector<Image> images;
    uint64_t calls = 0;
    // fault
    int f_kind = 0; uint32_t f_skip = 0, f_var = 0; bool f_armed = false, f_fired = false, f_seg = false; std::string f_what;
} io;

static std::string slurp_file(const std::string &p)
{
    std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r;
    char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f); return r;
}
static Files photograph(const std::string &dir)
{
    Files r; DIR *d = opendir(dir.c_str()); if (!d) return r;
    struct dirent *e;
    while ((e = readdir(d))) if (e->d_name[0] != '.') r[e->d_name] = std::make_shared<std::string>(slurp_file(dir + "/" + e->d_name));
    closedir(d); return r;
}
static const char *in_dir(const char *path)
{
    if (io.dir.empty() || strncmp(path, io.dir.c_str(), io.dir.size()) || path[io.dir.size()] != '/') return nullptr;
    return path + io.dir.size() + 1;
}
static bool want_snap(const std::string &name)
{
    if (io.mode != 1 || io.cap <= 0) return false;
    bool seg = name.compare(0, 8, "segments") == 0;
    return seg || io.r(io.stride) == 0;
}
static void snap(const std::string &what) { Image im; im.files = photograph(io.dir); im.what = what; io.images.push_back(im); io.cap--; }
enum { K_OPEN = 1, K_WRITE = 2, K_CLOSE = 4, K_RENAME = 8, K_REMOVE = 16 };
static bool fault(int kind, const std::string &name)
{
    if (io.mode != 2 || !io.f_armed || io.f_fired || !(io.f_kind & kind)) return false;
    if (io.f_seg && name.compare(0, 8, "segments") != 0) return false;
    if (io.f_skip) { io.f_skip--; return false; }
    io.f_fired = true; io.f_what = fmt("%s %s", kind == K_OPEN ? "creating" : kind == K_WRITE ? "writing" : kind == K_CLOSE ? "closing" : kind == K_RENAME ? "renaming" : "removing", name.c_str());
    return true;
}
extern "C" {
void __wrap_frt_micro_sleep(const int) {}
int __real_close(int); ssize_t __real_write(int, const void *, size_t); int __real_rename(const char *, const char *);
int __real_remove(const char *); int __real_unlink(const char *); int __real_ftruncate64(int, off64_t); ssize_t __real_pwrite64(int, const void *, size_t, off64_t);
int __real_open64(const char *, int, ...);
static int do_open(const char *path, int flags, mode_t m)
{
    const char *n = in_dir(path);
    bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (n && wr) {
        io.calls++;
        if (want_snap(n)) snap(fmt("before creating %s", n));
        if (fault(K_OPEN, n)) { errno = io.f_var & 1 ? ENOSPC : EMFILE; return -1; }
    }
    int fd = __real_open64(path, flags, m);
    if (fd >= 0 && n && wr) io.fds[fd] = n;
    if (fd >= 0 && !io.scratch.empty() && !strncmp(path, io.scratch.c_str(), io.scratch.size())) io.all_fds.insert(fd);
    return fd;
}
int __wrap_open64(const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(path, flags, m); }
int __wrap_open(const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(path, flags, m); }
int __wrap_creat64(const char *path, mode_t m) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_creat(const char *path, mode_t m) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
static ssize_t pre_write(int fd, const void *b, size_t n, off_t at)       // < -1: do the real write; otherwise bytes to write, then report that many (or an error)
{
    auto i = io.fds.find(fd);
    if (i == io.fds.end()) return -2;
    const std::string &name = i->second; io.calls++;
    if (want_snap(name)) {
        snap(fmt("before writing %zu bytes of %s", n, name.c_str()));
        if (n && io.cap > 0) {                 // a part of the write has reached the disk
            Image im = io.images.back(); size_t k = io.r(3) == 0 ? n - 1 : io.r((uint32_t)n);
            std::string body = im.files[name] ? *im.files[name] : ""; if (body.size() < (size_t)at + k) body.resize((size_t)at + k);
            body.replace((size_t)at, k, (const char *)b, k); im.files[name] = std::make_shared<std::string>(body);
            im.what = fmt("after %zu of %zu bytes of a write to %s", k, n, name.c_str());
            io.images.push_back(im); io.cap--;
        }
    }
    if (fault(K_WRITE, name)) return io.f_var % 3 == 0 ? (ssize_t)(n / 2) : -1;
    return -2;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (io.fds.empty()) return __real_write(fd, b, n);
    ssize_t k = pre_write(fd, b, n, io.fds.count(fd) ? lseek(fd, 0, SEEK_CUR) : 0);
    if (k == -2) return __real_write(fd, b, n);
    if (k < 0) { errno = ENOSPC; return -1; }
    if (k == (ssize_t)n) { errno = ENOSPC; return -1; }
    return k > 0 ? __real_write(fd, b, (size_t)k) : (errno = ENOSPC, (ssize_t)-1);
}
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off64_t at)
{
    ssize_t k = pre_write(fd, b, n, at);
    if (k == -2) return __real_pwrite64(fd, b, n, at);
    errno = ENOSPC; return -1;
}
int __wrap_ftruncate64(int fd, off64_t n)
{
    auto i = io.fds.find(fd);
    if (i != io.fds.end()) { io.calls++; if (want_snap(i->second)) snap("before truncating " + i->second); if (fault(K_WRITE, i->second)) { errno = EIO; return -1; } }
    return __real_ftruncate64(fd, n);
}
int __wrap_close(int fd)
{
    auto i = io.fds.find(fd); bool bad = false;
    if (i != io.fds.end()) {
        io.calls++;
        if (want_snap(i->second)) snap("before closing " + i->second);
        bad = fault(K_CLOSE, i->second);
        io.fds.erase(i);
    }
    io.all_fds.erase(fd);
    int r = __real_close(fd);
    if (bad) { errno = EIO; return -1; }
    return r;
}
int __wrap_rename(const char *a, const char *b)
{
    const char *n = in_dir(a);
    if (n) { io.calls++; if (want_snap("segments")) snap(fmt("before renaming %s", n)); if (fault(K_RENAME, n)) { errno = EIO; return -1; } }
    return __real_rename(a, b);
}
static bool pre_remove(const char *p)
{
    const char *n = in_dir(p);
    if (!n) return false;
    io.calls++;
    if (want_snap(n)) snap(fmt("before removing %s", n));
    if (fault(K_REMOVE, n)) { errno = EACCES; return true; }
    return false;
}
int __wrap_remove(const char *p) { return pre_remove(p) ? -1 : __real_remove(p); }
int __wrap_unlink(const char *p) { return pre_remove(p) ? -1 : __real_unlink(p); }
}
static void io_reset(Ctx &c) { io = Io(); io.scratch = c.scratch; }
static void io_end() { for (int fd : std::set<int>(io.all_fds)) __real_close(fd); io = Io(); }

// ------------------------------------------------------------------ checking a directory image
struct World { Ctx &c; Hist &h; std::vector<DocP> extra; int seq = 0; uint64_t checked = 0, recovered = 0, nested = 0; };

static std::vector<uint64_t> uids_of(const Model &m) { std::vector<uint64_t> r; for (auto &l : m.live) r.push_back(l.d->uid); return r; }
static std::string uid_list(const std::vector<uint64_t> &v) { std::string r = "["; for (size_t i = 0; i < v.size() && i < 40; i++) r += fmt("%s%llu", i ? " " : "", (unsigned long long)v[i]); return r + fmt("] (%zu)", v.size()); }
static std::string listing(const Files &f) { std::string r; for (auto &kv : f) r += fmt("%s(%zu) ", kv.first.c_str(), kv.second->size()); return r; }

// Opens the directory for reading and finds which of the acceptable states it shows.
static const Model *match_state(World &w, FrtStore *st, const std::vector<const Model *> &acc, int opt, const std::string &where, const Files *files)
{
    FrtIndexReader *ir = nullptr;
    int rc = frt_try([&] { ir = frt_ir_open(st); });
    CHECK(!rc, "open", "%s: opening a reader failed: %s; files: %s", where.c_str(), g_last_error.substr(0, 200).c_str(), files ? listing(*files).c_str() : "");
    std::vector<uint64_t> got;
    rc = frt_try([&] {
        for (int i = 0, n = ir->max_doc(ir); i < n; i++) if (!ir->is_deleted(ir, i)) {
            FrtDocument *d = ir->get_doc(ir, i); FrtDocField *df = frt_doc_get_field(d, frt_intern("uid")); got.push_back(df && df->size ? strtoull(df->data[0], nullptr, 10) : 0); frt_doc_destroy(d); } });
    CHECK(!rc, "read", "%s: reading the documents failed: %s", where.c_str(), g_last_error.substr(0, 200).c_str());
    const Model *found = nullptr; bool any = false; CaseFail last;
    for (auto *m : acc) if (!found && uids_of(*m) == got) {
        any = true;
        try { verify_reader(w.c, ir, *m, w.h.schema, opt, where.c_str()); found = m; } catch (CaseFail &f) { last = f; }
    }
    if (!any) {
        std::string e; for (auto *m : acc) e += uid_list(uids_of(*m)) + " ";
        fail("state", "%s: the index shows documents %s, acceptable: %s; files: %s", where.c_str(), uid_list(got).c_str(), e.c_str(), files ? listing(*files).c_str() : "");
    }
    if (!found) throw last;
    frt_ir_close(ir);
    return found;
}
// States may differ only in which deleted documents are still physically present: allow those of any of them.
static std::vector<const Model *> with_dead(std::vector<Model> &ms)
{
    std::map<uint64_t, DocP> dead; for (auto &m : ms) for (auto &d : m.dead) dead[d->uid] = d;
    std::vector<const Model *> r;
    for (auto &m : ms) {
        std::set<uint64_t> have; for (auto &l : m.live) have.insert(l.d->uid); for (auto &d : m.dead) have.insert(d->uid);
        for (auto &kv : dead) if (!have.count(kv.first)) m.dead.push_back(kv.second);
        r.push_back(&m);
    }
    return r;
}
static void check_image(World &w, const Image &im, const std::vector<const Model *> &acc, int depth, Rnd &r, const std::string &ctx)
{
    Ctx &c = w.c; w.checked++; if (depth) w.nested++;
    std::string dir = c.scratch + fmt("/i%d_%d", depth, w.seq++);
    mkdir(dir.c_str(), 0755);
    for (auto &kv : im.files) if (kv.first.find(".lck") == std::string::npos) {        // the dead process's lock is cleared
        FILE *f = fopen((dir + "/" + kv.first).c_str(), "wb"); fwrite(kv.second->data(), 1, kv.second->size(), f); fclose(f);
    }
    FrtStore *st = frt_open_fs_store(dir.c_str());
    int opt = r(4) == 0 ? V_ALL & ~(V_LAZY | V_SEEK) : r(2) ? V_STORED | V_POSTINGS | V_NORMS : V_STORED | V_NORMS;
    std::string where = ctx + (depth ? ", then crash " : "crash ") + im.what;
    const Model *S = match_state(w, st, acc, opt, where, &im.files);
    int mode = depth >= 2 ? (int)r(2) : (int)r(7);
    if (mode) {
        w.recovered++;
        Model T = *S; std::vector<Image> imgs; FrtIndexWriter *iw = nullptr; FrtIndexReader *ir = nullptr;
        static const char *names[] = {"", "reopened writer and closed it", "added documents", "optimized", "deleted through a reader", "deleted a term", "added and committed twice"};
        std::string rec = where + "; recovery: " + names[mode];
        if (depth < 1 && r(3) == 0) { io.dir = dir; io.mode = 1; io.stride = 3; io.cap = 8; io.images.clear(); }
        int rc = frt_try([&] {
            if (mode == 4) {
                ir = frt_ir_open(st); std::vector<int> map = live_map(ir);
                if (!map.empty()) { uint32_t x = r((uint32_t)map.size()); frt_ir_delete_doc(ir, map[x]); T.dead.push_back(T.live[x].d); T.live.erase(T.live.begin() + x); }
                if (r(2)) frt_ir_commit(ir);
                frt_ir_close(ir);
            } else {
                iw = open_writer(st, w.h.cfg);
                if (mode == 2 || mode == 6) {
                    size_t n = mode == 6 ? w.extra.size() : 1 + r(2);
                    for (size_t i = 0; i < n && i < w.extra.size(); i++) { add_doc(iw, *w.extra[i]); LiveDoc l; l.d = w.extra[i]; T.live.push_back(l); if (mode == 6) frt_iw_commit(iw); }
                    if (r(2)) frt_iw_commit(iw);
                } else if (mode == 3) frt_iw_optimize(iw);
                else if (mode == 5 && !T.live.empty()) {
                    size_t x = r((uint32_t)T.live.size()); std::string u = fmt("%llu", (unsigned long long)T.live[x].d->uid);
                    frt_iw_delete_term(iw, frt_intern("uid"), u.c_str()); T.dead.push_back(T.live[x].d); T.live.erase(T.live.begin() + x);
                }
                frt_iw_close(iw);
            }
        });
        imgs.swap(io.images); io.dir.clear(); io.mode = 0;
        CHECK(!rc, "recover", "%s: %s; files: %s", rec.c_str(), g_last_error.substr(0, 300).c_str(), listing(im.files).c_str());
        match_state(w, st, {&T}, opt, rec, nullptr);
        // crashes during the recovery
        std::vector<Model> mids; mids.push_back(*S);
        if (mode == 6) { Model x = *S; for (auto &d : w.extra) { LiveDoc l; l.d = d; x.live.push_back(l); mids.push_back(x); } }
        else if (mode == 2) { Model x = *S; for (auto &d : w.extra) { if (x.live.size() >= T.live.size()) break; LiveDoc l; l.d = d; x.live.push_back(l); mids.push_back(x); } }
        mids.push_back(T);
        std::vector<const Model *> a2 = with_dead(mids);
        frt_store_deref(st); rm_rf(dir);
        for (auto &i2 : imgs) check_image(w, i2, a2, depth + 1, r, rec);
        return;
    }
    frt_store_deref(st); rm_rf(dir);
}

// ------------------------------------------------------------------ histories as single operations
struct Driver {
    World &w; Model V;                        // V: the last completed commit
    std::function<void(const char *, std::function<void()>)> run;
    Driver(World &ww) : w(ww) {}
    bool pending() { Hist &h = w.h; return h.iw && h.iw->dw && h.iw->dw->doc_num > 0; }
    void need_writer() { if (!w.h.iw) run("open writer", [&] { w.h.need_writer(); }); }
    void close_writer() { if (w.h.iw) run("close writer", [&] { w.h.close_writer(); }); }
    void add(DocP d) { need_writer(); run("add", [&] { w.h.add(d); }); }
    void reader_op()
    {
        close_writer();
        Hist &h = w.h; Ctx &c = w.c;
        if (h.m.live.empty()) return;
        bool norms = c.src.chance(1, 3); uint32_t k = 1 + c.src.geo(4, 50); std::vector<uint32_t> xs, vs;
        for (uint32_t i = 0; i < k; i++) { xs.push_back(c.src.draw(1000)); vs.push_back(1 + c.src.draw(250)); }
        bool com = c.src.draw(2);
        run("reader modification", [&] {
            FrtIndexReader *ir = frt_ir_open(h.st.st); std::vector<int> map = live_map(ir);
            CHECK(map.size() == h.m.live.size(), "count", "reader shows %zu documents, expected %zu", map.size(), h.m.live.size());
            for (uint32_t i = 0; i < k && !h.m.live.empty(); i++) {
                uint32_t x = xs[i] % h.m.live.size();
                if (norms && (i & 1) == 0) {
                    LiveDoc &l = h.m.live[x];
                    for (auto &kv : l.d->inv) if (kv.second.has_norm) { c.t("reader set_norm doc %d %s=%u", map[x], kv.first.c_str(), vs[i]); frt_ir_set_norm(ir, map[x], frt_intern(kv.first.c_str()), (frt_uchar)vs[i]); l.norm_over[kv.first] = (uint8_t)vs[i]; break; }
                } else {
                    c.t("reader delete doc %d (#%llu)", map[x], (unsigned long long)h.m.live[x].d->uid);
                    frt_ir_delete_doc(ir, map[x]); h.model_delete_at(x); map.erase(map.begin() + x); h.n_del++;
                }
            }
            if (com) frt_ir_commit(ir);
            frt_ir_close(ir);
        });
    }
    void add_index()
    {
        Hist &h = w.h; Ctx &c = w.c;
        need_writer();
        Hist s(c); s.cfg = h.cfg; s.schema = h.schema; s.g = h.g; s.init(false); s.g.next_uid = h.g.next_uid;
        for (uint32_t i = 0, n = 1 + c.src.geo(6, 70); i < n; i++) { s.add_gen(); if (c.src.chance(1, 4)) s.commit(); }
        if (c.src.draw(2)) s.del_term();
        s.close_writer(); h.g.next_uid = s.g.next_uid;
        FrtIndexReader *ir = frt_ir_open(s.st.st);
        run("add index", [&] { for (auto &l : s.m.live) h.m.live.push_back(l); for (auto &d : s.m.dead) h.m.dead.push_back(d); c.t("add_readers"); frt_iw_add_readers(h.iw, &ir, 1); });
        frt_ir_close(ir); s.finish();
    }
    void step()
    {
        Hist &h = w.h; Ctx &c = w.c;
        switch (c.src.weighted({10, 2, 4, 4, 3, 1, 2, 1})) {
            case 0: for (uint32_t i = 0, n = 1 + c.src.geo(4, 50); i < n; i++) add(gen_doc(c, h.g)); break;
            case 1: { uint32_t n = c.src.pick(std::vector<uint32_t>{5, 12, 20, 40}), pat = c.src.draw(16); c.t("bulk add %u pattern %u", n, pat); for (uint32_t i = 0; i < n; i++) add(bulk_doc(h.g, pat, i)); break; }
            case 2: need_writer(); run("delete term", [&] { h.del_term(); }); break;
            case 3: reader_op(); break;
            case 4: need_writer(); run("commit", [&] { h.commit(); }); break;
            case 5: close_writer(); if (c.src.draw(2)) { AKind a = h.cfg.analyzer; int mf = h.cfg.c.max_field_length; h.cfg = gen_cfg(c); h.cfg.analyzer = a; h.cfg.c.max_field_length = mf; c.t("config: %s", h.cfg.str().c_str()); } need_writer(); break;
            case 6: need_writer(); run("optimize", [&] { h.optimize(); }); break;
            case 7: add_index(); break;
        }
    }
};
static void begin(Ctx &c, Hist &h, World &w)
{
    static uint64_t uniq = 0;
    io_reset(c);
    h.cfg = gen_cfg(c); h.schema = gen_schema(c); h.g.vocab = (int)c.src.draw(3); h.g.big_data = c.src.chance(1, 12);
    h.dirname = fmt("x%llu_%d", (unsigned long long)uniq++, (int)getpid());
    h.init(true);
    DocGen eg = h.g; eg.next_uid = 900000; eg.max_words = 3;
    for (int i = 0; i < 3; i++) { DocP d = gen_doc(c, eg); invert(d, h.schema, h.man, h.cfg.c.max_field_length); w.extra.push_back(d); }
}
static void p06(Ctx &c)
{
    Hist h(c); World w{c, h};
    begin(c, h, w);
    Driver dr(w); dr.V = h.m;
    uint32_t stride = 1 + c.src.draw(12); Rnd r; r.s = 1 + c.src.draw(1u << 20);
    int budget = c.thorough ? 400 : 60; uint64_t ops = 0, kinds = 0;
    dr.run = [&](const char *name, std::function<void()> f) {
        Model P = h.m;
        io.dir = h.st.path; io.mode = 1; io.stride = stride; io.r.s = r.s * 77 + 5 + ops; io.cap = std::min(budget, c.thorough ? 60 : 20); io.images.clear();
        int rc = frt_try(f);
        std::vector<Image> imgs; imgs.swap(io.images); io.dir.clear(); io.mode = 0; ops++;
        if (rc) fail("error", "%s raised %d: %s", name, rc, g_last_error.c_str());
        budget -= (int)imgs.size();
        std::vector<Model> ms{dr.V, P, h.m}; std::vector<const Model *> acc = with_dead(ms);
        for (auto &im : imgs) check_image(w, im, acc, 0, r, fmt("during %s: ", name));
        if (!imgs.empty()) kinds++;
        if (!dr.pending()) dr.V = h.m;
    };
    uint32_t steps = 2 + c.src.geo(12, 85);
    for (uint32_t i = 0; i < steps && budget > 0; i++) dr.step();
    dr.close_writer();
    FrtIndexReader *ir = frt_ir_open(h.st.st); verify_reader(c, ir, h.m, h.schema, V_STORED | V_POSTINGS | V_NORMS, "end"); frt_ir_close(ir);
    h.finish(); io_end();
    c.label("crash.images", w.checked); c.label("crash.recoveries", w.recovered); c.label("crash.nested_images", w.nested);
    c.nontrivial = w.checked >= 5 && w.recovered >= 1;
}
static void p07(Ctx &c)
{
    Hist h(c); World w{c, h};
    begin(c, h, w);
    Driver dr(w); dr.V = h.m;
    Rnd r; r.s = 1 + c.src.draw(1u << 20);
    uint32_t target = c.src.draw(30);
    static const int kinds[] = {K_WRITE, K_OPEN, K_CLOSE, K_OPEN | K_WRITE | K_CLOSE | K_RENAME, K_REMOVE};
    io.f_kind = kinds[c.src.weighted({4, 3, 3, 4, 1})]; io.f_seg = c.src.chance(1, 3); io.f_skip = c.src.chance(1, 3) ? c.src.draw(60) : c.src.draw(6); io.f_var = c.src.draw(6);
    c.t("fault: kinds %d, skip %u, from operation %u%s", io.f_kind, io.f_skip, target, io.f_seg ? ", segments files only" : "");
    uint32_t ops = 0; bool raised = false; struct Stop {};
    dr.run = [&](const char *name, std::function<void()> f) {
        Model P = h.m; bool before = io.f_fired;
        io.dir = h.st.path; io.mode = 2; io.f_armed = ops >= target; ops++;
        int rc = frt_try(f);
        io.mode = 0; std::string dir = io.dir; io.dir.clear();
        if (rc && !io.f_fired) fail("error", "%s raised %d without a fault: %s", name, rc, g_last_error.c_str());
        if (!before && io.f_fired) c.t("fault while %s in %s -> %s", io.f_what.c_str(), name, rc ? g_last_error.c_str() : "no error");
        if (!rc && !dr.pending()) dr.V = h.m;
        if (rc || (!before && io.f_fired)) {
            Image im; im.files = photograph(dir);
            std::vector<Model> ms{dr.V}; if (rc) { ms.push_back(P); ms.push_back(h.m); }
            std::vector<const Model *> acc = with_dead(ms);
            im.what = "";
            check_image(w, im, acc, 0, r, fmt("after the error %s in %s (%s): ", io.f_what.c_str(), name, rc ? "reported" : "not reported"));
        }
        if (rc) { raised = true; throw Stop(); }
    };
    uint32_t steps = 2 + c.src.geo(14, 88);
    try {
        for (uint32_t i = 0; i < steps; i++) dr.step();
        dr.close_writer();
        FrtIndexReader *ir = frt_ir_open(h.st.st); verify_reader(c, ir, h.m, h.schema, V_STORED | V_POSTINGS | V_NORMS, "end"); frt_ir_close(ir);
        h.finish();
    } catch (Stop &) { }
    if (io.f_fired) c.label(raised ? "fault.reported" : "fault.harmless");
    c.nontrivial = io.f_fired && h.n_adds >= 1;
    io_end();
}
const Prop the_props[] = {
    {"P06", p06, 4000, 60000, "random histories (add, bulk add, delete by term, delete and set_norm through a reader, commit, reopen, optimize, add another index) on a disk directory whose file-system calls are intercepted; the directory is photographed before sampled calls and in the middle of writes (every call on a segments file), each photograph is opened as after a crash, compared with the acceptable commits, recovered in one of six ways and compared again, with further crashes during recovery; non-trivial: at least 5 photographs checked and one recovered", "fault-injection", true, 120},
    {"P07", p07, 40000, 600000, "random histories on a disk directory with one injected failure of a create, write, short write, close, rename or remove; non-trivial: the failure was triggered and documents had been added", "fault-injection", true, 60},
    {nullptr}
};
