// P24: directory streams and directories against a map of names to byte strings.
#include "engine.hpp"
typedef std::string Bytes;
struct File { Bytes b; int readers = 0; bool writing = false; };
typedef std::shared_ptr<File> FileP;

static const int NK = 2;
static const char *kind[NK] = {"RAM", "disk"};
struct In { FileP f; FrtInStream *is[NK]; size_t pos; bool lost; int off; std::string nm; };
struct Out { FileP f; FrtOutStream *os[NK]; size_t pos; std::string nm; };
struct Cw { std::string file; FrtStore *st[NK]; std::vector<std::string> names; std::map<std::string, FileP> files; };

struct Machine {
    Ctx &c; Src &s; FrtStore *st[NK]; std::map<std::string, FileP> dir; std::vector<In> in; std::vector<Out> out; std::vector<std::unique_ptr<Cw>> cmp;
    uint32_t bulk = 0, seeks = 0, pasts = 0; std::vector<std::string> names;
    Machine(Ctx &c) : c(c), s(c.src) {
        names = {"_0.frq", "_0.prx", "_1.tis", "_2.cfs", "_a.f0", "_3_1.del", "_4.s12", "_zz.gen", "_5.fdt", "ferret-x.lck", "_6.tix", "ferret-data", "x.lck"};
        st[0] = frt_open_ram_store(); st[1] = frt_open_fs_store(c.scratch.c_str());
    }
    std::string name() { return s.pick(names); }
    // a copy that is gone after the call
    struct Nm { char *p; Nm(const std::string &x) : p(strdup(x.c_str())) {} ~Nm() { memset(p, '#', strlen(p)); free(p); } };

    // ---- bytes
    static void be(Bytes &b, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) b += (char)(v >> (8 * i)); }
    static void var(Bytes &b, uint64_t v) { while (v > 127) { b += (char)(v | 0x80); v >>= 7; } b += (char)v; }
    uint64_t num(int bits) { uint64_t v = s.chance(1, 3) ? s.draw(300) : s.chance(1, 2) ? ((1ULL << s.draw(bits)) - s.draw(2)) : (((uint64_t)s.draw(0xffffffffu) << 32) | s.draw(0xffffffffu)); if (s.chance(1, 8)) v = ~0ULL - s.draw(3); return bits == 64 ? v : v & ((1ULL << bits) - 1); }
    Bytes blob(uint32_t n) { Bytes b(n, 0); uint64_t x = s.draw(1000000) * 2654435761u + 12345; for (auto &ch : b) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; ch = (char)(x >> 56); } return b; }
    uint32_t size() { return s.chance(1, 2) ? s.draw(40) : s.chance(1, 2) ? s.pick(std::vector<uint32_t>{1000, 1014, 1015, 1020, 1023, 1024, 1025, 1030, 2047, 2048, 2049, 3072, 5000}) : s.draw(2500); }
    void put(Out &o, const Bytes &b) { if (o.f->b.size() < o.pos + b.size()) o.f->b.resize(o.pos + b.size()); o.f->b.replace(o.pos, b.size(), b); o.pos += b.size(); }
    void write(Out &o) {
        Bytes b; auto both = [&](auto f) { for (int k = 0; k < NK; k++) MUST("write", f(o.os[k])); };
        switch (s.weighted({6, 4, 3, 2, 3, 2, 6, 4, 3, 4, 2, 2})) {
            case 0: for (uint32_t n = 1 + s.geo(20, 80); n; n--) { frt_uchar x = (frt_uchar)s.draw(256); b += (char)x; both([&](FrtOutStream *q) { frt_os_write_byte(q, x); }); } c.t("  %zu bytes", b.size()); break;
            case 1: { b = blob(size()); c.t("  block of %zu", b.size()); bulk++; both([&](FrtOutStream *q) { frt_os_write_bytes(q, (const frt_uchar *)b.data(), (int)b.size()); }); break; }
            case 2: { frt_i32 v = (frt_i32)num(32); be(b, (uint32_t)v, 4); c.t("  i32 %d", v); both([&](FrtOutStream *q) { frt_os_write_i32(q, v); }); break; }
            case 3: { frt_u32 v = (frt_u32)num(32); be(b, v, 4); c.t("  u32 %u", v); both([&](FrtOutStream *q) { frt_os_write_u32(q, v); }); break; }
            case 4: { frt_i64 v = (frt_i64)num(64); be(b, (uint64_t)v, 8); c.t("  i64 %lld", (long long)v); both([&](FrtOutStream *q) { frt_os_write_i64(q, v); }); break; }
            case 5: { frt_u64 v = num(64); be(b, v, 8); c.t("  u64 %llu", (unsigned long long)v); both([&](FrtOutStream *q) { frt_os_write_u64(q, v); }); break; }
            case 6: { uint32_t n = 1 + s.geo(30, 70); for (; n; n--) { unsigned v = (unsigned)num(32); Bytes x; var(x, v); b += x; both([&](FrtOutStream *q) { frt_os_write_vint(q, v); }); } c.t("  vints, %zu bytes", b.size()); break; }
            case 7: { off_t v = (off_t)num(63); var(b, (uint64_t)v); c.t("  voff_t %lld", (long long)v); both([&](FrtOutStream *q) { frt_os_write_voff_t(q, v); }); break; }
            case 8: { frt_u64 v = num(64); var(b, v); c.t("  vll %llu", (unsigned long long)v); both([&](FrtOutStream *q) { frt_os_write_vll(q, v); }); break; }
            case 9: { Bytes x; for (uint32_t n = size(); n; n--) x += (char)('a' + n % 26); var(b, x.size()); b += x; c.t("  string of %zu", x.size()); both([&](FrtOutStream *q) { frt_os_write_string(q, x.c_str()); }); break; }
            case 10: if (!in.empty()) { copy(o); return; } break;
            default: c.t("  flush"); both([&](FrtOutStream *q) { frt_os_flush(q); }); break;
        }
        put(o, b);
        if (s.chance(1, 12)) { size_t p = s.draw((uint32_t)o.f->b.size() + 1); c.t("  seek %zu", p); both([&](FrtOutStream *q) { frt_os_seek(q, (off_t)p); }); o.pos = p; seeks++; }
        for (int k = 0; k < NK; k++) CHECK(frt_os_pos(o.os[k]) == (off_t)o.pos, "pos", "the %s output is at %lld instead of %zu", kind[k], (long long)frt_os_pos(o.os[k]), o.pos);
    }
    void copy(Out &o) {                          // from an input
        In &i = in[s.draw((uint32_t)in.size())]; if (i.lost || i.f == o.f) return; const Bytes &b = i.f->b; Bytes x; int err = 0;
        if (s.chance(1, 2)) { size_t n = s.draw((uint32_t)(b.size() - i.pos) + 1); x = b.substr(i.pos, n); c.t("  copy %zu bytes from %s", n, i.nm.c_str()); for (int k = 0; k < NK; k++) err |= frt_try([&] { frt_is2os_copy_bytes(i.is[k], o.os[k], (int)n); }); }
        else { int n = (int)s.geo(12, 70), m = 0; size_t p = i.pos; for (; m < n; m++) { size_t e = p; while (e < b.size() && (b[e] & 0x80)) e++; if (e >= b.size()) break; p = e + 1; } x = b.substr(i.pos, p - i.pos); c.t("  copy %d vints from %s", m, i.nm.c_str()); for (int k = 0; k < NK; k++) err |= frt_try([&] { frt_is2os_copy_vints(i.is[k], o.os[k], m); }); }
        CHECK(!err, "copy", "copying gave error %d", err); i.pos += x.size(); put(o, x);
        for (int k = 0; k < NK; k++) { CHECK(frt_is_pos(i.is[k]) == (off_t)i.pos, "pos", "after copying the %s input is at %lld instead of %zu", kind[k], (long long)frt_is_pos(i.is[k]), i.pos); CHECK(frt_os_pos(o.os[k]) == (off_t)o.pos, "pos", "after copying the %s output is at %lld instead of %zu", kind[k], (long long)frt_os_pos(o.os[k]), o.pos); }
    }
    // ---- reading
    bool vdec(const Bytes &b, size_t p, int maxlen, uint64_t &v, size_t &n, bool &fits) { v = 0; n = 0; for (;;) { if (p + n >= b.size()) { fits = false; return (int)n <= maxlen; } unsigned char ch = (unsigned char)b[p + n]; if ((int)n < 10) v |= (uint64_t)(ch & 0x7f) << (7 * n); n++; if (!(ch & 0x80)) break; if ((int)n >= maxlen) return false; } fits = true; return true; }
    void read(In &i) {
        const Bytes &b = i.f->b; size_t left = b.size() - std::min(i.pos, b.size()); uint64_t want = 0; size_t n = 0; bool fits = true; Bytes wb; const char *what = "";
        if (i.lost || s.chance(1, 4)) {
            size_t p = s.chance(1, 3) ? i.pos + s.draw(60) - std::min<size_t>(i.pos, 30) : s.chance(1, 4) ? b.size() - std::min<size_t>(b.size(), s.draw(12)) : s.draw((uint32_t)b.size() + 1); p = std::min(p, b.size());
            c.t("  %s: seek %zu", i.nm.c_str(), p); for (int k = 0; k < NK; k++) MUST("seek", frt_is_seek(i.is[k], (off_t)p)); i.pos = p; i.lost = false; seeks++; left = b.size() - p;
            for (int k = 0; k < NK; k++) CHECK(frt_is_pos(i.is[k]) == (off_t)p, "pos", "after seeking %zu the %s stream is at %lld", p, kind[k], (long long)frt_is_pos(i.is[k]));
        }
        uint32_t op = s.weighted({6, 4, 2, 2, 2, 2, 5, 3, 3, 3, 2}); int rc[NK]; frt_uchar *raw[NK]; uint64_t got[NK] = {0}; Bytes gb[NK]; int vn = 0;
        switch (op) {
            case 0: what = "byte"; n = 1; fits = left >= 1; if (fits) want = (unsigned char)b[i.pos]; break;
            case 1: what = "block"; n = s.chance(1, 4) ? left + s.draw(3) - std::min<size_t>(left, 1) : s.chance(1, 12) ? left + 1 + size() : std::min<size_t>(size(), left); fits = n <= left; if (fits) wb = b.substr(i.pos, n); bulk++; break;
            case 2: case 3: what = "32-bit integer"; n = 4; fits = left >= 4; if (fits) for (int k = 0; k < 4; k++) want = want << 8 | (unsigned char)b[i.pos + k]; if (op == 2) want = (uint64_t)(int64_t)(int32_t)want; break;
            case 4: case 5: what = "64-bit integer"; n = 8; fits = left >= 8; if (fits) for (int k = 0; k < 8; k++) want = want << 8 | (unsigned char)b[i.pos + k]; break;
            case 6: what = "vint"; if (!vdec(b, i.pos, 5, want, n, fits)) return; want &= 0xffffffffu; break;
            case 7: what = "voff_t"; if (!vdec(b, i.pos, 9, want, n, fits)) return; break;
            case 8: what = "vll"; if (!vdec(b, i.pos, 10, want, n, fits)) return; break;
            case 9: { what = "string"; uint64_t l; if (!vdec(b, i.pos, 5, l, n, fits)) return; if (fits) { l &= 0xffffffffu; if (l > 500000) return; fits = i.pos + n + l <= b.size(); if (fits) wb = b.substr(i.pos + n, l); n += l; } break; }
            default: { what = "skipped vints"; int m = 1 + (int)s.geo(8, 70); size_t p = i.pos; for (; vn < m; vn++) { size_t e = p; while (e < b.size() && (b[e] & 0x80)) e++; if (e >= b.size()) { if (s.chance(1, 2)) { fits = false; vn++; } break; } p = e + 1; } n = p - i.pos; break; }
        }
        if (!fits) pasts++;
        for (int k = 0; k < NK; k++) {
            FrtInStream *q = i.is[k];
            raw[k] = op == 1 ? (frt_uchar *)malloc(n ? n : 1) : NULL;
            rc[k] = frt_try([&] {
                switch (op) {
                    case 0: got[k] = frt_is_read_byte(q); break;
                    case 1: frt_is_read_bytes(q, raw[k], (int)n); gb[k].assign((char *)raw[k], n); break;
                    case 2: got[k] = (uint64_t)(int64_t)frt_is_read_i32(q); break;
                    case 3: got[k] = frt_is_read_u32(q); break;
                    case 4: got[k] = (uint64_t)frt_is_read_i64(q); break;
                    case 5: got[k] = frt_is_read_u64(q); break;
                    case 6: got[k] = frt_is_read_vint(q); break;
                    case 7: got[k] = (uint64_t)frt_is_read_voff_t(q); break;
                    case 8: got[k] = frt_is_read_vll(q); break;
                    case 9: { char *x = n % 2 ? frt_is_read_string(q) : frt_is_read_string_safe(q); gb[k] = x; free(x); break; }
                    default: frt_is_skip_vints(q, vn); break;
                } });
            free(raw[k]);
            c.t("  %s (%s): %s of %zu at %zu of %zu%s", i.nm.c_str(), kind[k], what, n, i.pos, b.size(), fits ? "" : " (past the end)");
            CHECK((rc[k] != 0) == !fits, "read", "reading a %s of %zu bytes at %zu of %zu from %s (%s) gave status %d%s%s", what, n, i.pos, b.size(), i.nm.c_str(), kind[k], rc[k], rc[k] ? ": " : "", rc[k] ? g_last_error.c_str() : "");
            if (!fits) { CHECK(rc[k] == FRT_EOF_ERROR || rc[k] == FRT_IO_ERROR, "read", "reading past the end raised %d", rc[k]); continue; }
            if (op == 9) { CHECK(gb[k] == std::string(wb.c_str()), "read", "the %s read at %zu from %s (%s) is wrong", what, i.pos, i.nm.c_str(), kind[k]); }
            else if (op == 1) { CHECK(gb[k] == wb, "read", "the %s of %zu read at %zu from %s (%s) is wrong", what, n, i.pos, i.nm.c_str(), kind[k]); }
            else if (op != 10) { CHECK(got[k] == want, "read", "the %s read at %zu from %s (%s) is %llu instead of %llu", what, i.pos, i.nm.c_str(), kind[k], (unsigned long long)got[k], (unsigned long long)want); }
        }
        if (fits) { i.pos += n; for (int k = 0; k < NK; k++) CHECK(frt_is_pos(i.is[k]) == (off_t)i.pos, "pos", "after reading a %s of %zu the %s stream is at %lld instead of %zu", what, n, kind[k], (long long)frt_is_pos(i.is[k]), i.pos); }
        else i.lost = true;
        for (int k = 0; k < NK; k++) CHECK(i.is[k]->m->length_i(i.is[k]) == (off_t)b.size(), "length", "the %s stream has length %lld instead of %zu", kind[k], (long long)i.is[k]->m->length_i(i.is[k]), b.size());
    }
    void close_in(size_t k) { for (int j = 0; j < NK; j++) MUST("close", frt_is_close(in[k].is[j])); in[k].f->readers--; in.erase(in.begin() + k); }
    // ---- directory
    static void each_cb(const char *n, void *a) { ((std::multiset<std::string> *)a)->insert(n); }
    static bool lock(const std::string &n) { return n.size() > 4 && n.compare(n.size() - 4, 4, ".lck") == 0; }
    void listing(FrtStore *d, const std::map<std::string, FileP> &m, const char *what, bool filter) {
        std::multiset<std::string> got, want; MUST("each", d->each(d, each_cb, &got)); for (auto &x : m) if (!filter || !lock(x.first)) want.insert(x.first);
        CHECK(got == want, "list", "the %s directory lists %zu files instead of %zu", what, got.size(), want.size());
        CHECK(d->count(d) == (int)m.size(), "list", "the %s directory counts %d files instead of %zu", what, d->count(d), m.size());
        for (auto &n : names) { Nm q(n); CHECK(!!d->exists(d, q.p) == (m.count(n) != 0), "list", "%s %s in the %s directory", n.c_str(), m.count(n) ? "does not exist" : "exists", what); }
        for (auto &x : m) if (!x.second->writing) { Nm q(x.first); CHECK(d->length(d, q.p) == (off_t)x.second->b.size(), "length", "%s has length %lld instead of %zu in the %s directory", x.first.c_str(), (long long)d->length(d, q.p), x.second->b.size(), what); }
        if (filter) { char *t = frt_store_to_s(d); std::string w; for (auto &x : want) w += x + "\n"; CHECK(w == t, "list", "the %s directory prints as %s instead of %s", what, esc(t).c_str(), esc(w).c_str()); free(t); }
    }
    bool busy(const std::string &n) { auto it = dir.find(n); return it != dir.end() && (it->second->readers || it->second->writing); }
    bool in_use_by_compound(const FileP &f) { for (auto &x : cmp) for (auto &y : dir) if (y.second == f && y.first == x->file) return true; return false; }
    void whole(FrtStore *d, const std::string &n, const Bytes &b, const char *what) { Nm q(n); FrtInStream *is = NULL; MUST("open", is = d->open_input(d, q.p)); Bytes g(b.size(), 0); CHECK(is->m->length_i(is) == (off_t)b.size(), "length", "%s of %s has length %lld instead of %zu", n.c_str(), what, (long long)is->m->length_i(is), b.size()); MUST("read", frt_is_read_bytes(is, (frt_uchar *)&g[0], (int)b.size())); CHECK(g == b, "read", "%s of %s has other contents", n.c_str(), what); frt_is_close(is); }
    void step() {
        switch (s.weighted({8, 20, 6, 20, 3, 2, 2, 2, 1, 2, 1, 1, 1})) {
            case 0: {                            // a new file
                std::string n = name(); if (busy(n) || out.size() > 2 || (dir.count(n) && in_use_by_compound(dir[n]))) return; Nm q(n); Out o; c.t("create %s", n.c_str());
                o.f = dir.count(n) ? dir[n] : std::make_shared<File>(); o.f->b.clear(); o.f->writing = true; o.pos = 0; o.nm = n; dir[n] = o.f;
                for (int k = 0; k < NK; k++) MUST("create", o.os[k] = st[k]->new_output(st[k], q.p)); out.push_back(o); break; }
            case 1: if (!out.empty()) { Out &o = out[s.draw((uint32_t)out.size())]; c.t("write to %s", o.nm.c_str()); for (uint32_t n = 1 + s.geo(20, 75); n; n--) write(o); } break;
            case 2: if (!out.empty()) { size_t k = s.draw((uint32_t)out.size()); c.t("close %s", out[k].nm.c_str()); for (int j = 0; j < NK; j++) MUST("close", frt_os_close(out[k].os[j])); out[k].f->writing = false; out.erase(out.begin() + k); } break;
            case 3: {                            // read
                if (in.empty() || (in.size() < 5 && s.chance(1, 5))) {
                    std::vector<std::string> l; for (auto &x : dir) if (!x.second->writing) l.push_back(x.first);
                    if (!cmp.empty() && s.chance(1, 2)) { Cw &w = *s.pick(cmp); std::string n = s.pick(w.names); In i; i.f = w.files[n]; i.pos = 0; i.lost = false; i.nm = w.file + ":" + n; Nm q(n); c.t("open %s", i.nm.c_str()); for (int k = 0; k < NK; k++) MUST("open", i.is[k] = w.st[k]->open_input(w.st[k], q.p)); i.f->readers++; in.push_back(i); }
                    else if (!l.empty()) { std::string n = s.pick(l); In i; i.f = dir[n]; i.pos = 0; i.lost = false; i.nm = n; Nm q(n); c.t("open %s", n.c_str()); for (int k = 0; k < NK; k++) MUST("open", i.is[k] = st[k]->open_input(st[k], q.p)); i.f->readers++; in.push_back(i); }
                }
                if (!in.empty()) for (uint32_t n = 1 + s.geo(20, 75); n; n--) read(in[s.draw((uint32_t)in.size())]); break; }
            case 4: if (!in.empty() && in.size() < 8) { In i = in[s.draw((uint32_t)in.size())]; if (i.lost) break; c.t("clone %s", i.nm.c_str()); for (int k = 0; k < NK; k++) i.is[k] = frt_is_clone(i.is[k]); i.f->readers++; in.push_back(i); } break;
            case 5: if (!in.empty()) { size_t k = s.draw((uint32_t)in.size()); c.t("close input %s", in[k].nm.c_str()); close_in(k); } break;
            case 6: {                            // remove: streams on the file stay usable
                std::string n = name(); if (dir.count(n) && (dir[n]->writing || in_use_by_compound(dir[n]))) return; Nm q(n); c.t("remove %s", n.c_str()); int r[NK]; for (int k = 0; k < NK; k++) MUST("remove", r[k] = st[k]->remove(st[k], q.p));
                for (int k = 0; k < NK; k++) CHECK((r[k] == 0) == (dir.count(n) != 0), "remove", "removing %s from the %s directory returned %d", n.c_str(), kind[k], r[k]); dir.erase(n); break; }
            case 7: {                            // rename
                std::string a = name(), b = name(); if (a == b || (dir.count(a) && (dir[a]->writing || in_use_by_compound(dir[a]))) || (dir.count(b) && (dir[b]->writing || in_use_by_compound(dir[b])))) return; Nm p(a), q(b); c.t("rename %s to %s", a.c_str(), b.c_str());
                for (int k = 0; k < NK; k++) { int rc = frt_try([&] { st[k]->rename(st[k], p.p, q.p); }); CHECK((rc == 0) == (dir.count(a) != 0), "rename", "renaming %s in the %s directory gave status %d", a.c_str(), kind[k], rc); }
                if (dir.count(a)) { dir[b] = dir[a]; dir.erase(a); } break; }
            case 8: { std::string n = name(); if (dir.count(n)) return; Nm q(n); c.t("touch %s", n.c_str()); for (int k = 0; k < NK; k++) MUST("touch", st[k]->touch(st[k], q.p)); dir[n] = std::make_shared<File>(); break; }
            case 9: {                            // a compound file of some of the files
                std::vector<std::string> l; for (auto &x : dir) if (!x.second->writing) l.push_back(x.first); if (l.empty() || cmp.size() > 2) return;
                std::string n = fmt("_c%zu.cfs", cmp.size()); if (std::find(names.begin(), names.end(), n) == names.end()) names.push_back(n); if (dir.count(n)) return;
                auto w = std::make_unique<Cw>(); w->file = n; c.t("compound %s", n.c_str());
                for (uint32_t k = 1 + s.geo(6, 75); k; k--) { std::string x = s.pick(l); if (w->files.count(x)) continue; w->names.push_back(x); auto f = std::make_shared<File>(); f->b = dir[x]->b; w->files[x] = f; c.t("  of %s (%zu)", x.c_str(), f->b.size()); }
                bool dup = s.chance(1, 4);
                for (int k = 0; k < NK; k++) { FrtCompoundWriter *cw = frt_open_cw(st[k], (char *)w->file.c_str()); for (auto &x : w->names) { Nm q(x); MUST("compound", frt_cw_add_file(cw, q.p)); } if (dup) { Nm q(w->names[0]); int rc = frt_try([&] { frt_cw_add_file(cw, q.p); }); CHECK(rc == FRT_IO_ERROR, "compound", "adding a file twice gave status %d", rc); } MUST("compound", frt_cw_close(cw)); MUST("compound", w->st[k] = frt_open_cmpd_store(st[k], w->file.c_str())); listing(w->st[k], w->files, "compound", false); Nm q("nosuch"); int rc = frt_try([&] { w->st[k]->open_input(w->st[k], q.p); }); CHECK(rc != 0, "compound", "an absent file can be opened"); }
                auto f = std::make_shared<File>(); f->b.resize((size_t)st[0]->length(st[0], n.c_str())); CHECK(st[1]->length(st[1], n.c_str()) == (off_t)f->b.size(), "length", "the compound files differ in length");
                FrtInStream *is = st[0]->open_input(st[0], n.c_str()); frt_is_read_bytes(is, (frt_uchar *)&f->b[0], (int)f->b.size()); frt_is_close(is); whole(st[1], n, f->b, "the disk directory");
                dir[n] = f; cmp.push_back(std::move(w)); break; }
            case 10: { for (auto &o : out) { (void)o; return; } int k = s.draw(NK); c.t("copy the %s directory", kind[k]); FrtStore *q = NULL; MUST("copystore", q = frt_open_ram_store_and_copy(st[k], 0)); std::map<std::string, FileP> m; for (auto &x : dir) if (!lock(x.first)) m[x.first] = x.second; listing(q, m, "copied", true); for (auto &x : m) whole(q, x.first, x.second->b, "the copy"); frt_store_deref(q); break; }
            case 11: {                           // clear
                if (!out.empty() || !cmp.empty() || dir.count("ferret-data") || dir.count("x.lck")) return; int k = s.draw(3); c.t("clear %d", k);
                for (int j = 0; j < NK; j++) MUST("clear", k == 0 ? st[j]->clear(st[j]) : k == 1 ? st[j]->clear_locks(st[j]) : st[j]->clear_all(st[j]));
                for (auto it = dir.begin(); it != dir.end();) if (k == 2 || (k == 1) == lock(it->first)) it = dir.erase(it); else ++it; break; }
            default: {                           // memory buffers
                FrtOutStream *ob = frt_ram_new_buffer(); Bytes b; c.t("buffer");
                for (uint32_t r = 1 + s.draw(2); r; r--) { b.clear(); for (uint32_t n = s.geo(6, 80); n; n--) { Bytes x = blob(size()); if (s.chance(1, 2)) frt_os_write_bytes(ob, (const frt_uchar *)x.data(), (int)x.size()); else for (char ch : x) frt_os_write_byte(ob, (frt_uchar)ch); b += x; } frt_os_flush(ob); CHECK(frt_ramo_length(ob) == (off_t)b.size(), "buffer", "the buffer has length %lld instead of %zu", (long long)frt_ramo_length(ob), b.size()); if (r > 1) { frt_ramo_reset(ob); CHECK(frt_ramo_length(ob) == 0 && frt_os_pos(ob) == 0, "buffer", "the buffer is not empty after a reset"); } }
                if (!out.empty()) { Out &o = out[s.draw((uint32_t)out.size())]; for (int k = 0; k < NK; k++) MUST("buffer", frt_ramo_write_to(ob, o.os[k])); put(o, b); for (int k = 0; k < NK; k++) CHECK(frt_os_pos(o.os[k]) == (off_t)o.pos, "pos", "after copying a buffer the %s output is at %lld instead of %zu", kind[k], (long long)frt_os_pos(o.os[k]), o.pos); }
                frt_ram_destroy_buffer(ob); break; }
        }
        if (s.chance(1, 4)) for (int k = 0; k < NK; k++) listing(st[k], dir, kind[k], true);
    }
    void finish() {
        while (!out.empty()) { for (int j = 0; j < NK; j++) MUST("close", frt_os_close(out[0].os[j])); out[0].f->writing = false; out.erase(out.begin()); }
        for (int k = 0; k < NK; k++) { listing(st[k], dir, kind[k], true); for (auto &x : dir) whole(st[k], x.first, x.second->b, kind[k]); Nm q("nosuch"); int rc = frt_try([&] { st[k]->open_input(st[k], q.p); }); CHECK(rc == FRT_FILE_NOT_FOUND_ERROR, "open", "opening an absent file gave status %d", rc); }
        { Nm q("nodir/x"); FrtStore *d = st[1]; int a = frt_try([&] { d->touch(d, q.p); }), b = frt_try([&] { d->new_output(d, q.p); }), e = frt_try([&] { d->length(d, q.p); }); CHECK(a == FRT_IO_ERROR && b == FRT_IO_ERROR && e == FRT_IO_ERROR, "error", "touching, creating and measuring a file that cannot exist gave %d, %d and %d", a, b, e); }
        for (auto &w : cmp) for (int k = 0; k < NK; k++) for (auto &x : w->files) whole(w->st[k], x.first, x.second->b, "the compound file");
        while (!in.empty()) close_in(s.draw((uint32_t)in.size()));
        for (auto &w : cmp) for (int k = 0; k < NK; k++) MUST("close", frt_store_deref(w->st[k]));
        for (int k = 0; k < NK; k++) MUST("close", frt_store_deref(st[k]));
    }
};
static void p24(Ctx &c)
{
    Machine m(c); for (uint32_t n = 6 + c.src.geo(c.thorough ? 120 : 60, 96); n; n--) m.step();
    m.finish(); c.nontrivial = m.bulk > 0 && m.seeks > 0; if (m.pasts) c.label("past.end"); if (!m.cmp.empty()) c.label("compound");
}
const Prop the_props[] = {
    {"P24", p24, 200000, 3000000, "a RAM and a disk directory go through the same random history of creating, writing (every typed write, blocks around multiples of the buffer size, seeks, flushes, copies), reading (every typed read, blocks, seeks, clones, past the end), removing, renaming, clearing, listing, packing into compound files and copying; each step is compared with a map of names to byte strings; non-trivial: a block was transferred and a stream was sought", "exploration", true, 60},
    {nullptr, nullptr, 0, 0, nullptr, nullptr, false, 0}};
