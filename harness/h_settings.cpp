// Settings: values survive saving and loading; sandboxed changes touch only what they should.
#include "hx.h"
#include <stdio.h>
#include <vector>
#include "core/settings.h"
#include "core/os.h"
#ifdef SX_ENGINE
namespace os { bool make_dir(const char*) { return true; } }
#endif
static const char F[] = "sx_settings.tmp", D[] = "sx_default.tmp";
static void wr(const char* f, const char* t) { FILE* o = fopen(f, "wb"); fputs(t, o); fclose(o); }
static setting* mk(int kind, const char* name = "my.val") {
    if (kind == 0) return new setting_bool(name, "short", "", false);
    if (kind == 1) return new setting_int(name, "short", "", 5);
    if (kind == 2) return new setting_enum(name, "short", "", "off,on,both", 1);
    if (kind == 3) return new setting_str(name, "short", "", "dflt");
    return new setting_color(name, "short", "", "bold red");
}
// the effect of an SGR sequence on the default state; unknown codes are kept in order
struct Sgr { int a[24]; int n; };
static Sgr sgr(const char* p) {
    Sgr r = {}; int v[32], k = 0; 
    while (*p && k < 32) { int x = 0; while (*p && *p != ';') x = x * 10 + *p++ - '0'; if (*p) p++; v[k++] = x; }
    r.n = 6;       // bold italic underline reverse fg bg, then the unknown ones
    for (int i = 0; i < k; i++) { int c = v[i];
        if (c == 0) { for (int j = 0; j < r.n; j++) r.a[j] = 0; r.n = 6; } else if (c == 1) r.a[0] = 1; else if (c == 22) r.a[0] = 0; else if (c == 3) r.a[1] = 1; else if (c == 4) r.a[2] = 1; else if (c == 7) r.a[3] = 1;
        else if (c == 39) r.a[4] = 0; else if (c == 49) r.a[5] = 0; else if ((c == 38 || c == 48) && i + 4 < k && v[i + 1] == 2) { r.a[c == 38 ? 4 : 5] = (1 << 24) + v[i + 2] * 65536 + v[i + 3] * 256 + v[i + 4]; i += 4; }
        else if ((c >= 30 && c < 38) || (c >= 90 && c < 98)) r.a[4] = c; else if ((c >= 40 && c < 48) || (c >= 100 && c < 108)) r.a[5] = c; else if (r.n < 24) r.a[r.n++] = c;
    }
    return r;
}
static int sgr_eq(const char* a, const char* b) { Sgr x = sgr(a), y = sgr(b); int e = x.n == y.n; for (int i = 0; i < x.n && i < y.n; i++) e &= x.a[i] == y.a[i]; return e; }
static int eqv(const char* a, const char* b) { return H_KIND == 4 ? (!*a == !*b) && sgr_eq(a, b) : hx_eq(a, b); }
static int blank(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static void same(setting* s, const str_base& want, const char* what) { str<> v; s->get(v); sx_check(eqv(v.c_str(), want.c_str()), what); }
extern "C" void harness_main() {
    remove(F); remove(D);
    int n = hx_len(0, H_N, "n"); char* v = hx_alpha<char>(n, H_ALPHA, "v"); str<> val(H_PRE); val << v;
    setting* other = new setting_int("other.one", "short", "", 3); setting* s = mk(H_KIND); str<> before, now, dflt; s->get(dflt);
    if (H_KIND == 4) { int bad = 0; for (const char* p = val.c_str(); *p; p++) bad |= *p == ';' && (p[1] == ';' || !p[1] || p == val.c_str() || p[-1] == ' '); sx_assume(!bad); }   // empty SGR parameters
#if H_MODE == 0      // set, save, reset, load
    int bad = H_KIND == 3 && val.length() && blank(val.c_str()[0]); sx_assume(!bad);     // the file format trims leading blanks
    s->get(before); bool ok = s->set(val.c_str()); s->get(now); sx_obs(ok); hx_obs(now.c_str());
    if (!ok) { sx_check(hx_eq(before.c_str(), now.c_str()), "a rejected value changed the setting"); sx_cover("rejected"); }
    else sx_cover("accepted");
    if (H_KIND == 3) sx_check(ok && hx_eq(now.c_str(), val.c_str()), "string value");
    int oth = hx_len(0, 1, "oth"); if (oth) other->set("17");
    sx_check(settings::save(F), "save"); other->set("99"); s->set();
    sx_check(settings::load(F), "load"); same(s, now, "the value was lost by saving and loading");
    str<> o; other->get(o); sx_check(hx_eq(o.c_str(), oth ? "17" : "3"), "another setting's value");
    s->set(); other->set(); sx_check(settings::save(F), "save"); settings::load(F); same(s, dflt, "a cleared setting came back");
#elif H_MODE == 1    // settings that no script declares survive, with their comments; last value wins; changes to them are kept
    int bad = blank(val.c_str()[0]); for (const char* p = val.c_str(); *p; p++) bad |= *p == '\n' || *p == '\r'; sx_assume(!bad);
    str<> text("# name: short\n# two\nthird.party = "); text << val << "\n\nother.one = 8\n"; wr(F, text.c_str());
    int ops[3];
    settings::load(F); str<> cur(val.c_str()); const char* alt = "zz"; setting* decl = nullptr; int ld = 0, gone = 0, dc = 0;
    for (int i = 0; i < 3; i++) {
        int op = sx_pick(7, "op");
        if (op == 0) { settings::save(F); }
        else if (op == 1) { settings::save(F); settings::load(F); ld = !!decl; dc = 0; }
        else if (op == 2) { sx_assume(!decl); decl = mk(3, "third.party"); ((setting_str*)decl)->deferred_load(); str<> g; decl->get(g); sx_check(hx_eq(g.c_str(), gone ? "dflt" : cur.c_str()), "deferred value"); sx_cover("declared"); }
        else if (op == 3) { sx_assume(!!decl && !dc); delete decl; decl = nullptr; if (ld) settings::load(F); ld = 0; sx_cover("undeclared"); }    // what is loaded while declared is only kept by its declaration
        else if (op == 5) { sx_assume(!gone); dc = 0; settings::save(F); wr(F, "other.one = 8\n"); settings::load(F); gone = 1; ld = !!decl; sx_cover("removed by another session"); }
        else if (op == 6) { sx_assume(!gone); if (decl) { decl->set(); dc = 1; } else { std::vector<settings::setting_name_value> o; o.emplace_back("third.party", nullptr, settings::section::clear); settings::overlay(o); } settings::save(F); gone = 1; sx_cover("cleared"); }
        else { sx_assume(!decl); std::vector<settings::setting_name_value> o; o.emplace_back("third.party", alt); settings::overlay(o); cur = alt; gone = 0; settings::save(F); sx_cover("changed"); }
    }
    settings::save(F); if (decl) { delete decl; decl = nullptr; }
    settings::load(F); if (gone) cur = "dflt"; sx_obs(cur.length()); decl = mk(3, "third.party"); ((setting_str*)decl)->deferred_load(); same(decl, cur, "an undeclared setting was lost"); 
    str<> o; other->get(o); sx_check(hx_eq(o.c_str(), "8"), "another setting's value");
    delete decl;
    settings::load(F); settings::save(F); if (!gone) { FILE* in = fopen(F, "rb"); char b[600]; int k = (int)fread(b, 1, 599, in); b[k] = 0; fclose(in); sx_check(strstr(b, "# name: short") && strstr(b, "third.party = "), "comment of an undeclared setting"); }
#elif H_MODE == 2    // sandboxed: only the file changes
    sx_assume(!(H_KIND == 3 && val.length() && blank(val.c_str()[0])));
    wr(F, "other.one = 8\n"); settings::load(F); s->set(H_MEM); s->get(before);      // an in-memory only value
    other->set("21"); { std::vector<settings::setting_name_value> o; o.emplace_back("fourth.one", "mem"); settings::overlay(o); }
    setting* t = mk(3, "third.one");
    int op = sx_pick(4, "op"); bool ok = true;
    if (op == 0) { ok = settings::sandboxed_set_setting("third.one", "zz"); }
    else if (op == 1) { ok = settings::sandboxed_set_setting("other.one", nullptr); }
    else if (op == 2) { std::vector<settings::setting_name_value> o; o.emplace_back("third.one", "zz"); o.emplace_back("other.one", "", settings::section::clear); ok = settings::sandboxed_overlay(o); }
    else { ok = settings::sandboxed_set_setting("my.val", val.c_str()); }
    sx_obs(ok);
    same(s, before, "a sandboxed change altered a value in memory"); str<> o; other->get(o); sx_check(hx_eq(o.c_str(), "21"), "in-memory value of another setting"); t->get(o); sx_check(hx_eq(o.c_str(), "dflt"), "in-memory value of the setting");
    if (op < 3) sx_check(ok, "sandboxed change refused");
    { static const char G[] = "sx_other.tmp"; settings::save(G); FILE* in = fopen(G, "rb"); char b[600]; int k = (int)fread(b, 1, 599, in); b[k] = 0; fclose(in); remove(G); sx_check(!!strstr(b, "fourth.one = mem"), "an undeclared in-memory value was lost"); }
    settings::load(F); other->get(o); sx_check(hx_eq(o.c_str(), op == 1 || op == 2 ? "3" : "8"), "stored value of another setting"); t->get(o); sx_check(hx_eq(o.c_str(), op == 0 || op == 2 ? "zz" : "dflt"), "stored value");
    if (op < 3) same(s, dflt, "an in-memory value was written to the file");
    else { s->get(now); setting* x = mk(H_KIND, "cmp"); bool ok2 = x->set(val.c_str()); sx_check(ok == ok2, "sandboxed accepts what set accepts"); str<> e; x->get(e); sx_check(eqv(now.c_str(), e.c_str()), "sandboxed value"); delete x; }
    delete t;
#endif
#if H_MODE == 3      // a file larger than any string can hold; the custom defaults file
    { FILE* o = fopen(F, "wb"); for (int i = 0; i < 66; i++) { char line[1001]; memset(line, 'x', 1000); line[0] = '#'; line[999] = '\n'; line[1000] = 0; fputs(line, o); } fputs("other.one = 8\n", o); fclose(o); }
    settings::load(F); str<> o; other->get(o); sx_check(hx_eq(o.c_str(), "8"), "value at the end of a large file"); sx_obs(o.length());
#elif H_MODE == 4    // custom defaults: used until a value is set, and again once it is cleared
    str<> text("my.val = "); text << val << "\n"; wr(D, text.c_str()); setting* x = mk(H_KIND, "cmp"); bool ok = x->set(val.c_str()); x->get(now); delete x; if (!ok) now = dflt.c_str();
    int set = hx_len(0, 1, "set"); if (set) wr(F, "my.val = 1\n"); settings::load(F, D); s->get(before); sx_obs(ok); hx_obs(before.c_str());
    if (!set) same(s, now, "custom default"); s->set(); same(s, now, "a cleared setting takes the custom default"); sx_cover(ok ? "valid" : "invalid");
    str<> o; other->get(o); sx_check(hx_eq(o.c_str(), "3"), "setting without custom default"); settings::load(nullptr, nullptr);
#elif H_MODE == 5    // theme files
    str<> text; int sec[4], key[4]; int cnt = hx_len(0, 3, "cnt"); static const char* const S[] = { "[set]\r\n", "[clear]\n", "[preferred]\n", "[other]\n", "; note\n", "# note\n" };
    std::vector<settings::setting_name_value> want; int cur = 3; bool valid = false, bad = false; 
    for (int i = 0; i < cnt; i++) {
        int op = sx_pick(7, "op"); if (op < 4) { cur = op; valid |= op < 3; text << S[op]; } else if (op < 6) text << S[op];
        else { text << " k" << (i ? "1" : "0"); if (cur != 1) text << " = "; if (cur != 1) text << v; text << "\n"; if (cur == 3) continue; str<> k("k"); k << (i ? "1" : "0"); const char* tv = v; while (blank(*tv)) tv++; want.emplace_back(k.c_str(), cur == 1 ? nullptr : tv, cur == 0 ? settings::section::set : cur == 1 ? settings::section::clear : settings::section::preferred); }
    }
    wr(F, text.c_str()); std::vector<settings::setting_name_value> got; bool r = settings::parse_ini(F, got); sx_obs(r);
    sx_check(r == valid, "theme file validity"); if (r) { sx_check(got.size() == want.size(), "number of theme entries"); for (size_t i = 0; i < got.size(); i++) { sx_check(hx_eq(got[i].name.c_str(), want[i].name.c_str()) && hx_eq(got[i].value.c_str(), want[i].value.c_str()) && got[i].section == want[i].section, "theme entry"); sx_cover("entry"); } }
#endif
    delete s; delete other; free(v);
    remove(F); remove(D);
}
