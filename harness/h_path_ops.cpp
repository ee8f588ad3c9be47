// Splitting and joining paths.
#include "hx.h"
#include "core/path.h"
#ifndef H_N
#define H_N 6
#endif
#ifndef H_ALPHA
#define H_ALPHA "/\\.a:"
#endif
static int skipseps(const char* s, int i) { while (hx_sep(s[i])) i++; return i; }
static int skipname(const char* s, int i) { while (s[i] && !hx_sep(s[i])) i++; return i; }
// Length of the root prefix (drive, UNC server\share, \\?\ forms), without a separator after it.
static int g_unc;
static int rootlen(const char* s) {
    int i = 0; g_unc = 0;
    if (hx_sep(s[0]) && hx_sep(s[1])) {
        int a = skipseps(s, 0);
        if (s[a] == '.' && (!s[a + 1] || hx_sep(s[a + 1]))) return 0;
        if (a == 2 && s[2] == '?' && hx_sep(s[3])) {
            i = skipseps(s, 3);
            if (hx_up(s[i]) == 'U' && hx_up(s[i + 1]) == 'N' && hx_up(s[i + 2]) == 'C' && hx_sep(s[i + 3])) i = skipseps(s, i + 3);
            else return hx_isal(s[i]) && s[i + 1] == ':' ? i + 2 : i;
        }
        else i = a;
        g_unc = 1; i = skipname(s, i); i = skipseps(s, i); return skipname(s, i);
    }
    return hx_isal(s[0]) && s[1] == ':' ? 2 : 0;
}
static char* mk(int lo, int hi, const char* alpha, const char* nm, const char* pre) {
    int n = hx_len(lo, hi, "n"), pl = hx_slen(pre);
    char* sym = hx_alpha<char>(n, alpha, nm); char* s = (char*)malloc(n + pl + 1);
    memcpy(s, pre, pl); memcpy(s + pl, sym, n + 1); free(sym); return s;
}
#ifndef H_PREFIX
#define H_PREFIX ""
#endif
static int allsep(const char* s, int a, int b) { int ok = 1; for (int i = a; i < b; i++) ok &= hx_sep(s[i]); return ok; }
extern "C" void harness_main() {
    const int op = sx_pick(7, "op");
    char* s = mk(0, op == 2 ? H_N - 2 : H_N, H_ALPHA, "s", H_PREFIX);
    const int len = hx_slen(s), root = rootlen(s), unc = g_unc;
    if (op == 0) {
        sx_cover("dir+name");
        str<16> dir("zz"), name("zz"), dir2(s); 
        path::get_directory(s, dir); path::get_name(s, name); path::get_directory(dir2);
        sx_check(hx_eq(dir.c_str(), dir2.c_str()), "get_directory in place differs");
        int dl = hx_slen(dir.c_str()), nl = hx_slen(name.c_str());
        sx_obs(dl); sx_obs(nl);
        sx_check(dl == (int)dir.length() && nl == (int)name.length(), "length");
        sx_check(dl + nl <= len, "directory and name overlap");
        sx_check(dl <= len && hx_eqn(dir.c_str(), s, dl), "directory is not a prefix of the path");
        sx_check(nl <= len && hx_eqn(name.c_str(), s + len - nl, nl), "name is not a suffix of the path");
        sx_check(allsep(s, dl, len - nl), "text between directory and name lost");
        sx_check(dl >= root, "directory lost part of the root");
        for (int i = 0; i < nl; i++) sx_check(!hx_sep(name.c_str()[i]), "name contains a separator");
        { int keep = skipseps(s, root); sx_check(dl <= keep || !hx_sep(s[dl - 1]), "separators are left at the end of the directory"); }
        wstr<16> w, wn(L"zz"); for (int i = 0; i < len; i++) { wchar_t c = s[i]; w.concat(&c, 1); } path::get_name(w.c_str(), wn); sx_check((int)wn.length() == nl, "wide name"); for (int i = 0; i < nl; i++) sx_check(wn.c_str()[i] == (wchar_t)name.c_str()[i], "wide name");
        // Joining them again names the same thing.
        str<16> j; path::join(dir.c_str(), name.c_str(), j);
        if (nl && dl) { int a = dl, b = dl; a = skipseps(s, a); b = skipseps(j.c_str(), b); sx_check(hx_eq(s + a, j.c_str() + b) && hx_eqn(s, j.c_str(), dl) && (a == dl || b > dl || hx_sep(s[dl - 1])), "join(directory, name) differs from the path"); }
    } else if (op == 1) {
        sx_cover("to_parent");
        str<16> p(s), child("zz"); bool changed = path::to_parent(p, &child);
        int pl = hx_slen(p.c_str()), cl = hx_slen(child.c_str());
        sx_obs(pl); sx_obs(cl);
        sx_check(pl <= len && hx_eqn(p.c_str(), s, pl), "parent is not a prefix of the path");
        sx_check(changed == (pl != len), "return value");
        sx_check(pl >= (root < len ? root : len), "parent lost part of the root");
        { int keep = skipseps(s, root); sx_check(pl <= keep || !hx_sep(s[pl - 1]), "separators are left at the end of the parent"); }
        int end = len; while (end > pl && hx_sep(s[end - 1])) end--;
        sx_check(cl <= end - pl && hx_eqn(child.c_str(), s + end - cl, cl), "child is not the last element");
        sx_check(allsep(s, pl, end - cl), "text between parent and child lost");
        for (int i = 0; i < cl; i++) sx_check(!hx_sep(child.c_str()[i]), "child contains a separator");
        if (!cl) { int r = skipseps(s, root); sx_check(!s[r], "no child although the path has more than a root"); }
        str<16> q(s); path::to_parent(q, nullptr); sx_check(hx_eq(q.c_str(), p.c_str()), "parent depends on asking for the child");
    } else if (op == 2) {
        sx_cover("join");
        char* r = mk(0, H_N - 3, H_ALPHA, "r", "");
        str<16> o; path::join(s, r, o);
        str<16> o2(s); path::join(o2.c_str(), r, o2); sx_check(hx_eq(o.c_str(), o2.c_str()), "join in place differs");
        int rr = rootlen(r), ol = hx_slen(o.c_str()), rl = hx_slen(r); sx_obs(ol);
        if (hx_sep(r[rr])) { sx_check(hx_eq(o.c_str(), r), "joining a rooted path must give that path"); }
        else {
            sx_check(ol >= len + rl && hx_eqn(o.c_str(), s, len), "joined path does not begin with the first part");
            sx_check(hx_eqn(o.c_str() + ol - rl, r, rl), "joined path does not end with the second part");
            int need = len && !hx_sep(r[0]) && !hx_sep(s[len - 1]) && !(len == root && !unc && s[len - 1] == ':');
            sx_check(ol == len + rl + need, "wrong separators between joined parts");
            if (need) sx_check(o.c_str()[len] == '\\', "wrong separator");
        }
        free(r);
    } else if (op == 3) {
        sx_cover("extension");
        const char* e = path::get_extension(s); str<16> ext("zz"), base("zz"), name;
        bool he = path::get_extension(s, ext); path::get_base_name(s, base); path::get_name(s, name);
        sx_check(he == !!e, "get_extension forms disagree");
        sx_obs(e ? e - s : 99);
        if (e) {
            sx_check(e >= s && e < s + len && *e == '.' && e[1], "extension does not begin with a dot");
            sx_check(hx_eq(ext.c_str(), e), "extension text");
            for (const char* x = e + 1; *x; x++) sx_check(*x != '.' && !hx_sep(*x) && *x != ':' && *x != ' ', "extension is not the last one");
        } else { // no dot followed by an ordinary tail
            int i = len; while (i > 0 && s[i - 1] != '.' && !hx_sep(s[i - 1]) && s[i - 1] != ':' && s[i - 1] != ' ') i--;
            sx_check(!(i > 0 && s[i - 1] == '.' && i < len), "extension missed");
        }
        int bl = hx_slen(base.c_str()), nl = hx_slen(name.c_str());
        sx_check(bl <= nl && hx_eqn(base.c_str(), name.c_str(), bl) && (bl == nl || name.c_str()[bl] == '.'), "base name is not the name up to a dot");
        for (int i = bl + 1; i < nl; i++) sx_check(name.c_str()[i] != '.', "base name stops at an earlier dot");
        if (bl == nl) for (int i = 0; i < nl; i++) sx_check(name.c_str()[i] != '.', "base name keeps the extension");
    } else if (op == 4) {
        sx_cover("strip");
        str<16> a(s); path::maybe_strip_last_separator(a); int al = hx_slen(a.c_str()); sx_obs(al);
        sx_check(al == (int)a.length(), "length");
        sx_check(al <= len && hx_eqn(a.c_str(), s, al) && allsep(s, al, len), "something other than trailing separators removed");
        int keep = root + (hx_sep(s[root]) ? 1 : 0); if (keep > len) keep = len;
        sx_check(al >= keep, "root separator removed");
        sx_check(al == keep || !hx_sep(s[al - 1]), "trailing separator left");
        wstr<16> w; for (int i = 0; i < len; i++) { wchar_t c[2] = {(wchar_t)s[i], 0}; w.concat(c, 1); }
        path::maybe_strip_last_separator(w); sx_check((int)w.length() == al, "wide form differs");
    } else if (op == 5) {
        sx_cover("root");
        int rooted = path::is_rooted(s), isroot = path::is_root(s); sx_obs(rooted); sx_obs(isroot);
        sx_check(rooted == hx_sep(s[root]), "is_rooted");
        sx_check(isroot == !s[skipseps(s, root)], "is_root");
        str<16> d("zz"), d2(s); int hd = path::get_drive(s, d); sx_check(path::get_drive(d2) == hd && (!hd || hx_eq(d2.c_str(), d.c_str())), "get_drive in place differs");
        int b = (hx_sep(s[0]) && hx_sep(s[1]) && s[2] == '?' && hx_sep(s[3])) ? skipseps(s, 3) : 0;
        sx_check(hd == (hx_isal(s[b]) && s[b + 1] == ':'), "get_drive");
        if (hd) sx_check(hx_slen(d.c_str()) == 2 && d.c_str()[0] == s[b] && d.c_str()[1] == ':', "drive text");
        const char* past = 0; bool iu = path::is_unc(s, &past);
        sx_check(iu == unc, "is_unc"); if (iu) sx_check(past == s + root, "end of the UNC root");
    } else {
        sx_cover("hidden");
        int end = len; 
        int h1 = path::is_unix_hidden(s, false), h2 = path::is_unix_hidden(s, true); sx_obs(h1 + 2 * h2);
        int i = end; while (i > root && !hx_sep(s[i - 1])) i--; sx_check(h1 == (s[i] == '.'), "is_unix_hidden");
        while (end > root && hx_sep(s[end - 1])) end--; i = end; while (i > root && !hx_sep(s[i - 1])) i--; sx_check(h2 == (s[i] == '.'), "is_unix_hidden ignoring trailing separators");
        // next_element visits every element once, in order.
        const char* p = s; int seen = 0; while (const char* nx = path::next_element(p)) { sx_check(nx > p && nx <= s + len, "next_element makes no progress"); p = nx; seen++; }
        sx_check(*p == 0, "next_element stops early");
        char* c = strdup(s); path::normalise_separators(c); sx_check(hx_slen(c) == len, "length"); for (int k = 0; k < len; k++) sx_check(c[k] == (s[k] == '/' ? '\\' : s[k]), "normalise_separators"); free(c);
    }
    free(s);
}
