// match_wild agrees with a reference matcher.
#include "hx.h"
#include "core/match_wild.h"
#ifndef H_P
#define H_P 4
#endif
#ifndef H_F
#define H_F 4
#endif
#include "ref_wild.h"
extern "C" void harness_main() {
    int pn = hx_len(0, H_P, "pn"), fn = hx_len(0, H_F, "fn");
    char* p = hx_alpha<char>(pn, H_PA, "p"); char* f = hx_alpha<char>(fn, H_FA, "f");
    int mode = H_MODE;
    str_compare_scope _(mode, false);
    path::star_matches_everything ev = (path::star_matches_everything)H_EVERY;
    bool m = path::match_wild((const char*)p, (const char*)f, false, ev);
    int r = ref(p, pn, f, fn, mode, H_EVERY, 0);
    sx_obs(m); if (m) sx_cover("match"); else sx_cover("no match");
    sx_check(m == r, "wildcard match differs from the definition");
    free(p); free(f);
}
