// What the command processor gets from the queue: the queued line, or the command for the directory it names.
#define private public
#define protected public
#include "hx.h"
#include <list>
#include <new>
#include "core/os.h"
#include "core/settings.h"
#include "lib/intercept.h"
#include "host/host.h"
extern "C" int (*sx_isdir)(const wchar_t*);
static int isdir(const wchar_t* s) { int n = hx_slen(s); for (int i = 0; i < n; i++) if (s[i] == 'x') return 0; return n > 0; }
void clink_maybe_handle_signal() {}
extern "C" void harness_main() {
    sx_isdir = isdir; host* h = (host*)calloc(1, sizeof(host)); new (&h->m_line_queue) line_queue(); h->m_bypass_dequeue = false;
    char* t = hx_alpha<char>(hx_len(1, H_N, "n"), ".ax\\-", "t"); int shown = sx_pick(2, "shown"), ended = sx_pick(2, "ended");
    if (shown) { str<> s(t); if (ended) s << (sx_pick(2, "cr") ? "\r\n" : "\n"); h->m_line_queue.enqueue_back(s.c_str()); }
    else { std::list<queued_line> L; L.emplace_back(str_moveable(t), ended ? dequeue_flags::no_doskey : dequeue_flags::no_doskey | dequeue_flags::hide_prompt); h->m_line_queue.enqueue_front(L); }
    wstr<> out; dequeue_flags f; sx_check(h->dequeue_line(out, f), "no line"); str<> got(out.c_str()), want(t); int n = got.length(); while (n && (got.c_str()[n - 1] == '\n' || got.c_str()[n - 1] == '\r')) n--; got.truncate(n);
    if (!shown) { str<> c; intercept_result r = intercept_directory(t, &c); if (r == intercept_result::chdir) { want = c.c_str(); sx_cover("directory"); } else if (r == intercept_result::prev_dir) { want = ""; sx_cover("previous"); } }
    sx_check(hx_eq(got.c_str(), want.c_str()), "line"); sx_cover(shown ? "shown" : "run");
}
