// Native replay runtime: feeds recorded inputs to a harness linked with the real build of the sources.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
#include <string>
#include "sx.h"
struct In { std::string n; std::vector<unsigned long long> v; };
static std::vector<In> g_in; static size_t g_pos; static FILE* g_out; static int g_fail;
static void done(int rc) { if (g_out) { fprintf(g_out, "END %d\n", rc); fclose(g_out); } fflush(stdout); _Exit(rc); }
static In& next(const char* name) { if (g_pos >= g_in.size()) { fprintf(g_out, "MISMATCH %s\n", name); done(3); } if (g_in[g_pos].n != name) { fprintf(g_out, "MISMATCH %s vs %s\n", name, g_in[g_pos].n.c_str()); done(3); } return g_in[g_pos++]; }
extern "C" {
void sx_sym(void* p, sx_u64 n, const char* name) { In& i = next(name); if (i.v.size() != n) { fprintf(g_out, "MISMATCH size %s\n", name); done(3); } for (sx_u64 k = 0; k < n; k++) ((unsigned char*)p)[k] = (unsigned char)i.v[k]; }
sx_u64 sx_int(sx_u64, sx_u64, const char* name) { return next(name).v.at(0); }
sx_u64 sx_conc(sx_u64 v) { return v; }
void sx_assume(int c) { if (!c) { fprintf(g_out, "ASSUME\n"); done(4); } }
void sx_check(int c, const char* w) { if (!c) { fprintf(g_out, "FAIL %s\n", w); done(42); } }
void sx_check_kf(int c, const char* w, int known, const char* kf) { if (!c) { fprintf(g_out, known ? "KNOWN %s %s\n" : "FAIL %s%s\n", known ? kf : "", w); done(known ? 43 : 42); } }
void sx_cover(const char*) {} void sx_cut(const char* w) { fprintf(g_out, "CUT %s\n", w); done(5); }
void sx_obs(sx_u64 v) { fprintf(g_out, "OBS %llu\n", v); }
int sx_engine(void) { return 0; } void sx_trace(const char* l, sx_u64 v) { fprintf(g_out, "TRACE %s %llu\n", l, v); }
void sx_traces(const char* l, const void* s, sx_u64 cs) { fprintf(g_out, "TRACE %s ", l); for (int i = 0; i < 300; i++) { unsigned c = cs == 2 ? ((const unsigned short*)s)[i] : ((const unsigned char*)s)[i]; if (!c) break; fprintf(g_out, c >= 32 && c < 127 ? "%c" : "\\x%x", c); } fprintf(g_out, "\n"); }
}
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "r"); char nm[256]; unsigned n; if (!f) return 9;
    while (fscanf(f, "%255s %u", nm, &n) == 2) { In x; x.n = nm; for (unsigned i = 0; i < n; i++) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) break; x.v.push_back(v); } g_in.push_back(x); }
    fclose(f); g_out = fopen(argv[2], "w"); setvbuf(g_out, 0, _IONBF, 0);
    harness_main(); done(0); return 0;
}
