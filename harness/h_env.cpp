// Environment variables in a text are replaced by their values, everything else stays, and the cursor stays with its text.
#include "hx.h"
#include "core/os.h"
extern "C" void harness_main() {
    static const wchar_t* VV[] = { L"", L"x", L"long value", L"%B%" }; int va = sx_pick(4, "va"), vb = sx_pick(4, "vb");
    if (va) SetEnvironmentVariableW(L"A", VV[va]); if (vb) SetEnvironmentVariableW(L"bb", VV[vb]);
    int pre = sx_pick(2, "pre"); char* t = hx_alpha<char>(hx_len(0, H_N, "n"), "%aBc", "t"); str<> in(pre ? "%bb%" : ""); in << t; int n = in.length(); const char* s = in.c_str();
    int use = sx_pick(2, "use"), pt = use ? hx_len(0, n, "pt") : 0;
    char o[256]; int k = 0, any = 0, want = -1, nearlo = -1, nearhi = -1;
    for (int i = 0; i < n; ) {
        if (s[i] == '%') {
            int e = i + 1; while (e < n && s[e] != '%') e++;
            int l = e - i - 1; const wchar_t* v = 0;
            if (e < n && l == 1 && hx_up(s[i + 1]) == 'A' && va) v = VV[va]; if (e < n && l == 2 && hx_up(s[i + 1]) == 'B' && hx_up(s[i + 2]) == 'B' && vb) v = VV[vb];
            if (v) { int b = k; if (pt == i) want = k; while (*v) o[k++] = (char)*v++; if (pt > i && pt <= e + 1) { nearlo = b; nearhi = k; } i = e + 1; any = 1; continue; }
            int stop = e < n && l ? e + 1 : e; // not a variable: kept; an empty name is one percent sign
            for (; i < stop; i++) { if (pt == i) want = k; o[k++] = s[i]; } continue;
        }
        if (pt == i) want = k; o[k++] = s[i++];
    }
    if (pt == n && nearhi < 0) want = k; o[k] = 0;
    str<> out; char* own = (char*)malloc(n + 1); for (int i = 0; i <= n; i++) own[i] = s[i]; if (n) own[n] = '%'; // what is behind the given length doesn't count
    int p = pt; bool r = os::expand_env(own, n, out, use ? &p : nullptr);
    sx_check(r == (any != 0), "was anything expanded"); sx_check((int)out.length() == k && hx_eqn(out.c_str(), o, k), "expanded text"); hx_obs(out.c_str());
    if (use) { if (nearhi >= 0) sx_check(p == nearhi, "the cursor isn't at the end of the value"); else sx_check(p == want, "the cursor moved to other text"); sx_obs(p); sx_cover("cursor"); }
    if (any) sx_cover("expanded"); else sx_cover("unchanged");
}
