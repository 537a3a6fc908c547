// P22: analyzers.
#include "engine.hpp"
#include <wctype.h>
#include <wchar.h>
extern "C" {
struct sb_stemmer *sb_stemmer_new(const char *algorithm, const char *charenc);
void sb_stemmer_delete(struct sb_stemmer *);
const unsigned char *sb_stemmer_stem(struct sb_stemmer *, const unsigned char *word, int size);
int sb_stemmer_length(struct sb_stemmer *);
}
typedef std::vector<std::string> Strs;
enum { MAXT = FRT_MAX_WORD_SIZE - 1 };
struct Tk { std::string t; long s, e; int inc; bool operator==(const Tk &o) const { return t == o.t && s == o.s && e == o.e && inc == o.inc; } };
static std::string tk_str(const Tk &k) { return fmt("%s[%ld,%ld)+%d", esc(k.t, 80).c_str(), k.s, k.e, k.inc); }

// An exactly sized copy of a text, so that reading outside it is seen.
struct Buf { char *p; Buf(const std::string &s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Buf() { free(p); } };

static std::vector<Tk> drain(FrtTokenStream *ts, const std::string &text, const char *what, size_t max = (size_t)-1)
{
    std::vector<Tk> r; long last = 0; FrtToken *k; size_t bound = text.size() * 4 + 16;
    while (r.size() < max && (k = ts->next(ts))) {
        size_t l = strnlen(k->text, FRT_MAX_WORD_SIZE);
        CHECK(l < FRT_MAX_WORD_SIZE && (int)l == k->len, "token", "%s: token %zu of %s has length %d but its text has %zu bytes", what, r.size(), esc(text, 200).c_str(), k->len, l);
        Tk t{std::string(k->text, l), (long)k->start, (long)k->end, k->pos_inc};
        CHECK(t.s >= 0 && t.s <= t.e && t.e <= (long)text.size(), "offset", "%s: token %s lies outside the text (%zu bytes) %s", what, tk_str(t).c_str(), text.size(), esc(text, 300).c_str());
        CHECK(t.s >= last, "offset", "%s: token %s starts before the token preceding it (%ld) in %s", what, tk_str(t).c_str(), last, esc(text, 300).c_str());
        CHECK(t.inc >= 0, "pos_inc", "%s: token %s of %s", what, tk_str(t).c_str(), esc(text, 300).c_str());
        last = t.s; r.push_back(t);
        CHECK(r.size() <= bound, "endless", "%s yields more than %zu tokens for a text of %zu bytes: %s", what, bound, text.size(), esc(text, 300).c_str());
    }
    return r;
}
static void same(const char *what, const std::string &text, const std::vector<Tk> &got, const std::vector<Tk> &want, const char *ref)
{
    if (got == want) return;
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    fail("tokens", "%s of %s: token %zu is %s, %s has %s (%zu and %zu tokens)", what, esc(text, 400).c_str(), i, i < got.size() ? tk_str(got[i]).c_str() : "missing", ref, i < want.size() ? tk_str(want[i]).c_str() : "none", got.size(), want.size());
}

// ---------------------------------------------------------------- tokenizers
enum TZ { T_WS, T_LET, T_STD, T_LEG, T_MBWS, T_MBWSL, T_MBLET, T_MBLETL, T_MBSTD, T_U8STD, T_MBLEG, T_NON, T_N };
static const char *tz_name[] = {"whitespace", "letter", "standard", "legacy_standard", "mb_whitespace", "mb_whitespace(lower)", "mb_letter", "mb_letter(lower)", "mb_standard", "utf8_standard", "mb_legacy_standard", "non"};
static FrtTokenStream *tz_new(TZ k)
{
    switch (k) {
        case T_WS: return frt_whitespace_tokenizer_new();
        case T_LET: return frt_letter_tokenizer_new();
        case T_STD: return frt_standard_tokenizer_new();
        case T_LEG: return frt_legacy_standard_tokenizer_new();
        case T_MBWS: return frt_mb_whitespace_tokenizer_new(false);
        case T_MBWSL: return frt_mb_whitespace_tokenizer_new(true);
        case T_MBLET: return frt_mb_letter_tokenizer_new(false);
        case T_MBLETL: return frt_mb_letter_tokenizer_new(true);
        case T_MBSTD: return frt_mb_standard_tokenizer_new();
        case T_U8STD: return frt_utf8_standard_tokenizer_new();
        case T_MBLEG: return frt_mb_legacy_standard_tokenizer_new();
        default: return frt_non_tokenizer_new();
    }
}
static std::vector<Tk> run(FrtTokenStream *ts, const std::string &text, const char *what) { Buf b(text); ts->reset(ts, b.p); return drain(ts, text, what); }
static std::vector<Tk> run_new(TZ k, const std::string &text) { FrtTokenStream *ts = tz_new(k); auto r = run(ts, text, tz_name[k]); frt_ts_deref(ts); return r; }

// ---------------------------------------------------------------- reference tokenization
struct Ch { wchar_t w; size_t at, n; };
static bool decode(const std::string &s, std::vector<Ch> &v)        // false: not valid in the locale
{
    mbstate_t st; memset(&st, 0, sizeof st);
    for (size_t i = 0; i < s.size();) { wchar_t w; size_t n = mbrtowc(&w, s.data() + i, s.size() - i, &st); if (n == 0 || n > s.size()) return false; v.push_back({w, i, n}); i += n; }
    return true;
}
static std::string wlow(const std::string &s)       // lower case, cut after the last character that fits
{
    std::vector<Ch> v; if (!decode(s, v)) return s;
    std::string r; for (auto &c : v) { char b[MB_LEN_MAX]; int n = wctomb(b, (wchar_t)towlower(c.w)); if (n <= 0) return s; if (r.size() + n > MAXT) break; r.append(b, n); }
    return r;
}
static std::string alow(std::string s) { for (auto &ch : s) ch = (char)tolower((unsigned char)ch); return s; }
static bool reference(TZ k, const std::string &t, std::vector<Tk> &r)
{
    std::vector<Ch> v; bool mb = k == T_MBWS || k == T_MBWSL || k == T_MBLET || k == T_MBLETL;
    if (mb) { if (!decode(t, v)) return false; } else if (k == T_WS || k == T_LET) { for (size_t i = 0; i < t.size(); i++) v.push_back({(wchar_t)(unsigned char)t[i], i, 1}); }
    else if (k == T_NON) { r.push_back({t.substr(0, MAXT), 0, (long)t.size(), 1}); return true; }
    else return false;
    auto in = [&](wchar_t w) { switch (k) { case T_WS: return !(w == ' ' || (w >= 9 && w <= 13)); case T_LET: return (w >= 'a' && w <= 'z') || (w >= 'A' && w <= 'Z'); case T_MBWS: case T_MBWSL: return !iswspace(w); default: return iswalpha(w) != 0; } };
    for (size_t i = 0; i < v.size();) {
        if (!in(v[i].w)) { i++; continue; }
        size_t j = i; while (j < v.size() && in(v[j].w)) j++;
        size_t s = v[i].at, e = v[j - 1].at + v[j - 1].n; std::string x = t.substr(s, e - s);
        r.push_back({k == T_MBWSL || k == T_MBLETL ? wlow(x) : x.substr(0, MAXT), (long)s, (long)e, 1});
        i = j;
    }
    return true;
}

// ---------------------------------------------------------------- texts
static std::string gen_piece(Ctx &c, bool ascii)
{
    Src &s = c.src;
    auto word = [&] { std::string w; uint32_t n = 1 + s.geo(10, 70); for (uint32_t i = 0; i < n; i++) w += (char)((s.chance(1, 6) ? 'A' : 'a') + s.draw(4)); return w; };
    switch (s.weighted({10, 3, 3, 3, 3, 3, 2, 2, 3, 3, ascii ? 0u : 5u, ascii ? 0u : 2u, 1, 2, 2})) {
        case 0: return word();
        case 1: return word() + s.pick(Strs{"'s", "'S", "'", "'t", "''s", "'x'y"});
        case 2: { std::string r; for (uint32_t i = 1 + s.geo(6, 70); i; i--) r += s.pick(Strs{"A.", "b.", "C.", "D"}); return r; }
        case 3: return word() + s.pick(Strs{"-", "--", "_", "-a-", "-x", "_1"}) + word();
        case 4: return s.pick(Strs{"http://", "https://", "ftp://", "file:///", "foo://", "http:", "http:/", "HTTP://"}) + word() + s.pick(Strs{".com", ".org/", "/x/y", ":80", ".co.nz/a", "", ".a", "/", "//"});
        case 5: return word() + "@" + word() + s.pick(Strs{".com", "", ".co.uk", "@x", ".", "-x.net"});
        case 6: return s.pick(Strs{"AT&T", "a&b", "a@", "Excite@Home", "a&", "&a", "x&y&z"});
        case 7: return s.pick(Strs{"1", "-5", "+3.2", "12,345.67", "1.2.3", "-", ".5", "1e5", "$5", "10%", "0x1f", "123-456", "-1a", "/1", ",2:", "-5:x", ".1@", "_1_"});
        case 8: { std::string r; for (uint32_t i = 1 + s.geo(6, 60); i; i--) r += s.pick(Strs{".", ",", ":", "/", "-", "_", "@", "&", "'", "\"", "\\", "[", "]", "(", "!", "?", "*", "~", "+", "=", "<", "#"}); return r; }
        case 9: return s.pick(Strs{"the", "and", "b", "a", "ab", "The", "www.foo.com", "a.b", "foo.com/", "\"a\\ b\"@c", "\"x\"@[1.2]", "a.b@c"});
        case 10: return s.pick(Strs{"\xc3\xa4", "\xc3\x84\xc3\x96", "\xc3\x9f", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xd0\x9f\xd1\x80", "\xe4\xb8\xad\xe6\x96\x87", "\xe2\x84\xaa", "\xc4\xb0", "\xc8\xba", "\xc2\xa0", "\xe2\x80\x83", "\xc3\xa9t\xc3\xa9", "\xd9\xa3", "\xe2\x80\x99s"});
        case 11: return s.pick(Strs{"\xff", "\xc3", "\xe2\x82", "\xc0\x80", "\xed\xa0\x80", "\xf0\x9f", "\x80", "\xf5\x80\x80\x80", "\xc3""a", "\xe2""abc"});
        case 12: { uint32_t n = s.pick(std::vector<uint32_t>{250, 253, 254, 255, 256, 257, 258, 300, 511, 512, 600, 1023, 1500}); std::string u = s.pick(ascii ? Strs{"a", "A", "ab", "a.", "a-", "1", "a'", "/", "a@", ".", "B&", "1.", "_"} : Strs{"a", "A", "ab", "a.", "a-", "1", "a'", "/", "a@", ".", "\xc8\xba", "\xc3\xa4", "\xe2\x82\xac", "\xc4\xb0", "B&", "\xff", "\xf0\x9f\x98\x80"}); std::string r = s.chance(1, 4) ? s.pick(Strs{"http://", "x://", "b", "A.", "-1", "ftp:", "aa://b"}) : ""; while (r.size() < n) r += u; if (s.chance(1, 2)) r += s.pick(Strs{"://x", "'s", "://", "&", "@x.com", "-b", ".com", "a", " "}); return r; }
        case 13: return std::string(1 + s.geo(5, 50), s.pick(std::vector<char>{' ', '\n', '\t', '\r'}));
        default: { std::string r; for (uint32_t i = s.geo(10, 80); i; i--) r += (char)(1 + s.draw(ascii ? 127 : 255)); return r; }
    }
}
static std::string gen_text(Ctx &c, bool ascii)
{
    std::string r; uint32_t n = c.src.geo(14, 85); uint32_t glue = c.src.draw(4);
    for (uint32_t i = 0; i < n; i++) { if (i && !c.src.chance(glue, 8)) r += c.src.chance(1, 8) ? c.src.pick(Strs{"\n", "\t", "  ", ", ", ". "}) : " "; r += gen_piece(c, ascii); }
    if (c.src.chance(1, 30)) { std::string x = c.src.pick(Strs{" ", "a ", "- ", "x", ".", "\n", "foo-bar ", "a.b@c "}); std::string pad; uint32_t k = c.src.pick(std::vector<uint32_t>{4080, 4090, 4093, 4094, 4095, 4096, 4097, 4100, 5000, 8192, 9000}); while (pad.size() < k) pad += x; r = pad + r; }
    return r;
}
// words whose standard tokens are known
static void known_tokens(Ctx &c)
{
    Src &s = c.src; std::string text; std::vector<Tk> want; bool uni = s.chance(1, 3), url = false, plus = false, leg = !uni && s.chance(1, 4);
    auto word = [&](uint32_t max) { std::string w; uint32_t n = 1 + s.geo(max, 70); for (uint32_t i = 0; i < n; i++) w += (char)((s.chance(1, 6) ? 'A' : 'a') + s.draw(26)); return w; };
    for (uint32_t i = 1 + s.geo(10, 80); i; i--) {
        if (!text.empty()) text += url ? s.pick(Strs{" ", "\n", "\t", " ("}) : s.pick(Strs{" ", "  ", "\n", " - ", " ! ", " (", ") ", "\t", " ... ", ", ", "; "});
        url = false;
        std::string w = word(8), t = w, o;
        switch (s.weighted({6, 2, 2, 2, 2, 2, 2, 1, uni ? 4u : 0u, 2, 2, 2, leg ? 6u : 0u})) {
            case 0: o = w; break;
            case 1: t = w; o = w + s.pick(Strs{"'s", "'S"}); break;
            case 2: o = w + "-" + word(5) + (s.chance(1, 2) ? "-" + word(3) : ""); t = o; break;
            case 3: { t.clear(); uint32_t n = 2 + s.geo(4, 50); for (uint32_t k = 0; k < n; k++) { std::string l(1, (char)('A' + s.draw(26))); t += l; o += (k ? "." : "") + l; } break; }
            case 4: o = t = w + "@" + word(5) + ".com"; break;
            case 5: url = true; t = "www." + w + ".com"; if (s.chance(1, 3)) t += "/" + word(4); if (s.chance(1, 4)) t += "/" + word(3); o = s.pick(Strs{"http://", "https://", "ftp://", "file:///"}) + t + (s.chance(1, 4) ? "/" : ""); break;
            case 6: o = t = s.pick(Strs{"1", "42", "3.14", "-7", "+5", "2008"}); plus |= o[0] == '+'; break;
            case 7: w = word(5); o = t = w + "&" + word(4); break;
            case 9: { std::string r = word(4); if (r == "s" || r == "S") r = "t"; o = t = w + "'" + r; break; }
            case 10: { auto dig = [&] { std::string r; for (uint32_t k = 1 + s.geo(6, 60); k; k--) r += (char)('0' + s.draw(10)); return r; }; o = s.pick(Strs{"", "", "-", "+"}) + dig(); if (s.chance(1, 2)) o += "." + dig(); t = o; plus |= o[0] == '+'; break; }
            case 11: { o.clear(); for (uint32_t k = 2 + s.geo(4, 60); k; k--) { if (!o.empty()) o += s.pick(Strs{"-", "_"}); for (uint32_t n = 1 + s.geo(4, 60); n; n--) o += s.draw(2) ? (char)('a' + s.draw(26)) : (char)('0' + s.draw(10)); } t = o; break; }
            case 12: { // numbers of the legacy tokenizer: at least every second part has a digit
                o.clear(); uint32_t n = 1 + s.geo(6, 70); bool last = true;
                for (uint32_t k = 0; k < n; k++) { bool d = !last || !k || s.draw(2); if (k) o += s.pick(Strs{",", "\\", ".", "/", "_", "-"}); if (!k) o += (char)('0' + s.draw(10)); o += d ? (char)('0' + s.draw(10)) : (char)('a' + s.draw(26)); if (s.chance(1, 3)) o += (char)('a' + s.draw(26)); last = d; }
                t = o; break; }
            default: { o.clear(); for (uint32_t k = 1 + s.geo(5, 70); k; k--) o += s.pick(Strs{"\xc3\xa4", "\xc3\xb6", "\xc3\x89", "\xc3\xb1", "\xd0\xbf", "\xd1\x80", "\xce\xb1", "e", "x"}); t = o; if (s.chance(1, 3)) o += "'s"; }
        }
        want.push_back({t, (long)text.size(), (long)(text.size() + o.size()), 1}); text += o;
    }
    c.t("known tokens: %s", esc(text, 500).c_str());
    for (TZ k : {T_STD, T_MBSTD, T_U8STD, T_LEG, T_MBLEG}) { bool lg = k == T_LEG || k == T_MBLEG; if (lg ? plus : leg) continue; if (uni && k == T_LEG) continue; if (uni && k == T_STD) continue; same(tz_name[k], text, run_new(k, text), want, "its definition"); }
}

// ---------------------------------------------------------------- filters
enum FK { F_LOW, F_MBLOW, F_STOP, F_HYPHEN, F_MAP, F_STEM };
struct Filt { FK k; Strs words; std::vector<std::pair<std::string, std::string>> map; std::string algo; };
static std::string f_str(const Filt &f) { static const char *n[] = {"lower", "mb_lower", "stop", "hyphen", "map", "stem"}; std::string r = n[f.k]; if (f.k == F_STEM) r += "(" + f.algo + ")"; for (auto &w : f.words) r += " " + esc(w); for (auto &m : f.map) r += " " + esc(m.first) + "=>" + esc(m.second); return r; }
static FrtTokenStream *f_new(const Filt &f, FrtTokenStream *ts)
{
    switch (f.k) {
        case F_LOW: return frt_lowercase_filter_new(ts);
        case F_MBLOW: return frt_mb_lowercase_filter_new(ts);
        case F_STOP: { std::vector<const char *> w; for (auto &x : f.words) w.push_back(x.c_str()); if (f.words.size() % 2) return frt_stop_filter_new_with_words_len(ts, w.data(), (int)w.size()); w.push_back(nullptr); return frt_stop_filter_new_with_words(ts, w.data()); }
        case F_HYPHEN: return frt_hyphen_filter_new(ts);
        case F_MAP: { FrtTokenStream *m = frt_mapping_filter_new(ts); for (auto &p : f.map) frt_mapping_filter_add(m, p.first.c_str(), p.second.c_str()); return m; }
        default: return frt_stem_filter_new(ts, f.algo.c_str(), "UTF-8");
    }
}
// The first pattern to be completed is replaced; of those completed by the same character the longest.
static std::string map_ref(const std::string &t, const std::vector<std::pair<std::string, std::string>> &map)
{
    std::string out, lit; const size_t cap = MAXT;       // lit: unreplaced characters since the last replacement
    for (char ch : t) {
        if (out.size() + lit.size() >= cap) break;
        lit += ch; const std::pair<std::string, std::string> *best = nullptr;
        for (auto &m : map) if (lit.size() >= m.first.size() && lit.compare(lit.size() - m.first.size(), m.first.size(), m.first) == 0 && (!best || m.first.size() >= best->first.size())) best = &m;
        if (best) { out += lit.substr(0, lit.size() - best->first.size()) + best->second; if (out.size() > cap) out.resize(cap); lit.clear(); }
    }
    return out + lit;
}
static std::vector<Tk> f_ref(const Filt &f, const std::vector<Tk> &in)
{
    std::vector<Tk> r; int skip = 0; struct sb_stemmer *st = f.k == F_STEM ? sb_stemmer_new(f.algo.c_str(), "UTF_8") : nullptr;
    for (Tk k : in) switch (f.k) {
        case F_LOW: k.t = alow(k.t); r.push_back(k); break;
        case F_MBLOW: { std::vector<Ch> v; if (decode(k.t, v)) k.t = wlow(k.t); r.push_back(k); break; }
        case F_STOP: if (std::find(f.words.begin(), f.words.end(), k.t) != f.words.end()) { skip += k.inc; break; } k.inc += skip; skip = 0; r.push_back(k); break;
        case F_HYPHEN: {
            bool hy = false, other = false;
            for (size_t i = 1; i < k.t.size(); i++) { if (k.t[i] == '-') hy = true; else if (!isalpha((unsigned char)k.t[i])) other = true; }
            if (!hy || other) { r.push_back(k); break; }
            Tk whole = k; whole.t.clear(); for (char ch : k.t) if (ch != '-') whole.t += ch;
            r.push_back(whole);
            for (size_t i = 0; i < k.t.size();) { size_t j = k.t.find('-', i); if (j == std::string::npos) j = k.t.size(); r.push_back({k.t.substr(i, j - i), k.s + (long)i, k.s + (long)j, i ? 1 : 0}); i = j + 1; }
            break;
        }
        case F_MAP: k.t = map_ref(k.t, f.map); r.push_back(k); break;
        case F_STEM: { const unsigned char *x = sb_stemmer_stem(st, (const unsigned char *)k.t.data(), (int)k.t.size()); k.t = std::string((const char *)x, (size_t)sb_stemmer_length(st)).substr(0, MAXT); r.push_back(k); break; }
    }
    if (st) sb_stemmer_delete(st);
    return r;
}
static Filt gen_filter(Ctx &c)
{
    Filt f; f.k = (FK)c.src.draw(6); Src &s = c.src;
    if (f.k == F_STOP) for (uint32_t i = s.geo(6, 80); i; i--) f.words.push_back(s.pick(Strs{"the", "and", "a", "b", "ab", "aa", "foo", "c", "bar", "abcd", "x", ""}));
    if (f.k == F_MAP) for (uint32_t i = s.geo(6, 80); i; i--) { std::string p; if (s.chance(1, 4)) p = s.pick(Strs{"\xc3\xa4", "\xc3\x84", "\xc8\xba"}); else for (uint32_t k = 1 + s.geo(3, 50); k; k--) p += (char)('a' + s.draw(3)); f.map.push_back({p, s.pick(Strs{"", "x", "yy", "abc", "\xc3\xa4", "zzzzzzzzzzzz", "a"})}); }
    if (f.k == F_STEM) f.algo = s.pick(Strs{"english", "porter", "french", "german", "spanish", "russian", "finnish"});
    return f;
}
// the offsets of hyphenated parts are only exact when the text is untouched, so hyphen filters of changed tokens may leave the text
static bool hyphen_ok(TZ k, const std::vector<Filt> &fs)
{
    for (size_t i = 0; i < fs.size(); i++) if (fs[i].k == F_HYPHEN) { if (k == T_MBWSL || k == T_MBLETL) return false; for (size_t j = 0; j < i; j++) if (fs[j].k == F_MAP || fs[j].k == F_STEM || fs[j].k == F_HYPHEN) return false; }
    return true;
}

static const char *stops[] = {"the", "and", "a", "b", "aa", nullptr};
static FrtAnalyzer *an_new(int k, bool low)
{
    switch (k) {
        case 0: return frt_standard_analyzer_new_with_words(stops, low);
        case 1: return frt_mb_standard_analyzer_new_with_words(stops, low);
        case 2: return frt_utf8_standard_analyzer_new_with_words(stops, low);
        case 3: return frt_legacy_standard_analyzer_new_with_words(stops, low);
        case 4: return frt_mb_legacy_standard_analyzer_new_with_words(stops, low);
        case 5: return frt_whitespace_analyzer_new(low);
        case 6: return frt_mb_whitespace_analyzer_new(low);
        case 7: return frt_letter_analyzer_new(low);
        default: return frt_mb_letter_analyzer_new(low);
    }
}
static void p22(Ctx &c)
{
    bool ascii = c.src.draw(2); size_t total = 0;
    if (c.src.chance(1, 4)) known_tokens(c);
    for (uint32_t it = 1 + c.src.geo(4, 70); it; it--) {
        std::string a = gen_text(c, ascii), b = gen_text(c, ascii); a = a.c_str(); b = b.c_str();
        c.t("text %s", esc(a, 600).c_str());
        // every tokenizer alone
        std::vector<std::vector<Tk>> base(T_N);
        for (int k = 0; k < T_N; k++) {
            base[k] = run_new((TZ)k, a); total += base[k].size();
            std::vector<Tk> ref; if (reference((TZ)k, a, ref)) same(tz_name[k], a, base[k], ref, "its definition");
        }
        if (ascii) {
            same("mb_standard", a, base[T_MBSTD], base[T_STD], "the ASCII tokenizer"); same("utf8_standard", a, base[T_U8STD], base[T_STD], "the ASCII tokenizer"); same("mb_legacy_standard", a, base[T_MBLEG], base[T_LEG], "the ASCII tokenizer");
            c.label("text.ascii");
        } else c.label("text.any_bytes");
        // tokens do not depend on what stands on other lines
        bool valid = mbstowcs(nullptr, a.c_str(), 0) != (size_t)-1;   // the UTF-8 tokenizer takes text that is UTF-8
        { std::string j = a + "\n" + b; c.t("joined with %s", esc(b, 400).c_str());
          for (int k = 0; k < T_NON; k++) { if (k == T_U8STD && !valid) continue; auto w = base[k]; for (auto t : run_new((TZ)k, b)) { t.s += (long)a.size() + 1; t.e += (long)a.size() + 1; w.push_back(t); } same(fmt("%s (lines joined)", tz_name[k]).c_str(), j, run_new((TZ)k, j), w, "each line alone"); } }
        // a chain of filters
        TZ k = (TZ)c.src.draw(T_N); std::vector<Filt> fs; for (uint32_t i = c.src.geo(4, 70); i; i--) fs.push_back(gen_filter(c));
        if (hyphen_ok(k, fs)) {
            std::string what = tz_name[k]; FrtTokenStream *ts = tz_new(k); std::vector<Tk> want = base[k];
            for (auto &f : fs) { ts = f_new(f, ts); want = f_ref(f, want); what += " > " + f_str(f); }
            c.t("chain %s", what.c_str());
            auto got = run(ts, a, what.c_str()); same(what.c_str(), a, got, want, "its definition");
            // resetting half way, and clones, start afresh
            FrtTokenStream *cl = nullptr;
            { Buf bb(b), ba(a); ts->reset(ts, bb.p); size_t n = c.src.geo(12, 80); drain(ts, b, what.c_str(), n); c.t("reset after %zu tokens of the other text", n);
              if (c.src.draw(2)) cl = frt_ts_clone(ts);
              ts->reset(ts, ba.p); same((what + " (reset)").c_str(), a, drain(ts, a, what.c_str()), want, "a fresh stream"); }
            if (cl) { c.label("clone"); same((what + " (clone)").c_str(), a, run(cl, a, what.c_str()), want, "a fresh stream"); same((what + " (original)").c_str(), a, run(ts, a, what.c_str()), want, "a fresh stream"); frt_ts_deref(cl); }
            frt_ts_deref(ts); c.label(fs.empty() ? "chain.none" : "chain.filters");
        }
        // ready-made analyzers, several streams at once
        {
            int an = (int)c.src.draw(9); bool low = c.src.draw(2); FrtAnalyzer *z = an_new(an, low); FrtSymbol f = frt_intern("f");
            static const TZ tz[] = {T_STD, T_MBSTD, T_U8STD, T_LEG, T_MBLEG, T_WS, T_MBWS, T_LET, T_MBLET};
            std::vector<Tk> want = base[an == 6 && low ? T_MBWSL : an == 8 && low ? T_MBLETL : tz[an]];
            if (low && an != 6 && an != 8) { Filt l; l.k = an == 1 || an == 2 || an == 4 ? F_MBLOW : F_LOW; want = f_ref(l, want); }
            if (an < 5) { Filt st; st.k = F_STOP; for (auto p = stops; *p; p++) st.words.push_back(*p); want = f_ref(st, want); Filt h; h.k = F_HYPHEN; want = f_ref(h, want); }
            Buf ba(a), bb(b); std::string what = fmt("analyzer %d%s", an, low ? " (lower)" : "");
            FrtTokenStream *x = frt_a_get_ts(z, f, ba.p), *y = frt_a_get_ts(z, f, bb.p);
            drain(y, b, what.c_str(), c.src.geo(5, 60));
            same(what.c_str(), a, drain(x, a, what.c_str()), want, "its definition");
            frt_ts_deref(x); frt_ts_deref(y); frt_a_deref(z);
        }
    }
    c.nontrivial = total > 0;
}
const Prop the_props[] = {
    {"P22", p22, 30000, 800000, "random texts (constructed tokens, over-long words, punctuation, UTF-8 and invalid bytes, lengths around the scanner window) through every tokenizer, random filter chains, resets, clones and the ready-made analyzers; non-trivial: at least one token", "exploration", false, 60},
    {nullptr, nullptr, 0, 0, nullptr, nullptr, false, 0}};
