PROPS = {}
PATHSRC = ["clink/core/src/path.cpp", "clink/core/src/str.cpp", "clink/core/src/str_convert.cpp", "clink/core/src/str_iter.cpp"]
def R(name, h, src, **k): return dict(name=name, harness=h, src=list(dict.fromkeys(src)), **k)
def cs(s): return '"' + "".join("\\%03o" % ord(c) if ord(c) < 32 or ord(c) > 126 else "\\" + c if c in '"\\' else c for c in s) + '"'
def bounds(r, tier):
    """The stated bound of a run, from the sizes it is compiled with."""
    d = dict(r.get("defs", {})); d.update(r.get(tier) or r.get("quick") or {}); t = r.get("b", "")
    for k, v in d.items(): t = t.replace("{%s}" % k, str(v))
    return f"{r['name']}: {t} [{', '.join('%s=%s' % x for x in d.items())}]"
PROPS["P01"] = dict(assumptions=[], runs=[
  R("norm", "h_path_norm.cpp", PATHSRC, b="every path of at most {N} characters from the alphabet (after the prefix, where one is given)", defs={"ALPHA": cs("/\\.a")}, quick={"N": 8}, thorough={"N": 10}, covers=["end"]),
] + [R("norm-" + k, "h_path_norm.cpp", PATHSRC, defs={"ALPHA": cs("/\\.a"), "PREFIX": cs(v)}, quick={"N": 6}, thorough={"N": 7}, covers=["end"]) for k, v in
  dict(drive="c:", nsdrive="\\\\?\\c:\\", ns="\\\\?\\", unc="\\\\s/h", nsunc="\\\\?\\UNC\\s\\h", dev="\\\\.\\", hidden="a\\.git\\").items()])
PROPS["P02"] = dict(assumptions=[], runs=[
  R("ops", "h_path_ops.cpp", PATHSRC, defs={"ALPHA": cs("/\\.a:")}, quick={"N": 8}, thorough={"N": 10}, covers=["dir+name", "to_parent", "join", "extension", "strip", "root", "hidden"]),
] + [R("ops-" + k, "h_path_ops.cpp", PATHSRC, defs={"ALPHA": cs("/\\.aB"), "PREFIX": cs(v)}, quick={"N": 7}, thorough={"N": 8}) for k, v in
  dict(drive="c:", nsdrive="\\\\?\\c:", ns="\\\\?\\", unc="\\\\s", nsunc="\\\\?\\UNC\\s", dev="\\\\.\\").items()])
STR = ["clink/core/src/str.cpp", "clink/core/src/str_convert.cpp", "clink/core/src/str_iter.cpp"]
PROPS["S01"] = dict(assumptions=[], runs=[
  R("char", "h_str.cpp", STR, quick={"K": 2, "L": 3}, thorough={"K": 3, "L": 4}, covers="concat concat_no_truncate copy truncate trim format reserve find move".split()),
  R("wide", "h_str.cpp", STR, defs={"CHT": "wchar_t"}, quick={"K": 2, "L": 3}, thorough={"K": 3, "L": 3}, covers="concat move".split()),
  R("boundary", "h_str.cpp", STR, defs={"START": 62}, quick={"K": 2, "L": 3}, thorough={"K": 3, "L": 3}),
])
PROPS["S02"] = dict(assumptions=[], runs=[R("utf", "h_utf.cpp", STR, quick={"N": 3}, thorough={"N": 5}, covers="to8 to16 lone fixed8 fixed16".split())])
WILD = ["clink/core/src/str_compare.cpp", "clink/core/src/path.cpp", "clink/core/src/str_iter.cpp"]
PROPS["M01"] = dict(assumptions=[], runs=[
  R("glob", "h_wild.cpp", WILD, models=["win_char.cpp"], defs={"PA": cs("*?a./"), "FA": cs("ab./\\"), "MODE": 0, "EVERY": 0}, quick={"P": 4, "F": 4}, thorough={"P": 5, "F": 5}, covers=["match", "no match"]),
  R("all", "h_wild.cpp", WILD, models=["win_char.cpp"], defs={"PA": cs("*?a/"), "FA": cs("ab/"), "MODE": 0, "EVERY": 1}, quick={"P": 4, "F": 4}, thorough={"P": 5, "F": 5}, covers=["match", "no match"]),
  R("tail", "h_wild.cpp", WILD, models=["win_char.cpp"], defs={"PA": cs("*?a/"), "FA": cs("ab/"), "MODE": 0, "EVERY": 2}, quick={"P": 4, "F": 4}, thorough={"P": 5, "F": 5}, covers=["match", "no match"]),
  R("caseless", "h_wild.cpp", WILD, models=["win_char.cpp"], defs={"PA": cs("*?aB-_/"), "FA": cs("AB-_/"), "MODE": 2, "EVERY": 0}, quick={"P": 3, "F": 3}, thorough={"P": 4, "F": 4}, covers=["match", "no match"]),
])
PROPS["M02"] = dict(assumptions=[], runs=[R("compare", "h_compare.cpp", WILD + STR, models=["win_char.cpp"], quick={"N": 3}, thorough={"N": 4}, covers=["equal", "different"])])
PROPS["S03"] = dict(assumptions=[], runs=[R("tokens", "h_tok.cpp", STR + ["clink/core/src/str_tokeniser.cpp"], defs={"ALPHA": cs(' ,"()a')}, quick={"N": 5}, thorough={"N": 7}, covers=["token", "end"])])
PROPS["S04"] = dict(assumptions=[], runs=[R("blocks", "h_linalloc.cpp", ["clink/core/src/linear_allocator.cpp"], quick={"K": 3}, thorough={"K": 4}, covers="alloc oversized store reset move clear".split())])
SETT = ["clink/core/src/settings.cpp", "clink/core/src/str_tokeniser.cpp"] + WILD + STR
def CR(name, kind, mode, alpha, pre="", mem="", q=3, t=4, **k): return R(name, "h_settings.cpp", SETT, models=["stdio_fs.cpp", "win_char.cpp"], defs={"KIND": kind, "MODE": mode, "ALPHA": cs(alpha), "PRE": cs(pre), "MEM": cs(mem)}, quick={"N": q}, thorough={"N": t}, **k)
PROPS["C01"] = dict(assumptions=[], runs=[
  CR("bool", 0, 0, "1yesnotrufal ", q=3, t=5, covers=["accepted", "rejected"]), CR("int", 1, 0, "-0129x ", q=3, t=5, covers=["accepted", "rejected"]), CR("enum", 2, 0, "012ofnbthO", q=4, t=5, covers=["accepted", "rejected"]),
  CR("string", 3, 0, "a =#;\t\\\"", q=3, t=5, covers=["accepted"]), CR("sgr", 4, 0, "0134789;", pre="sgr ", q=4, t=6), CR("sgr256", 4, 0, "25;", pre="sgr 0;38;2;1;", q=4, t=6), CR("hex", 4, 0, "0aF", pre="bold on #", q=3, t=6),
  CR("undeclared", 3, 1, "a =#;\"", q=2, t=3, covers=["declared", "undeclared", "changed"]),
  CR("large", 1, 3, "x", q=0, t=0), CR("default-int", 1, 4, "-19x", q=2, t=3, covers=["valid", "invalid"]), CR("default-color", 4, 4, "r1ed#", pre="on ", q=3, t=4, covers=["valid", "invalid"]), CR("default-bool", 0, 4, "01nox", q=2, t=3, covers=["valid", "invalid"]), CR("theme", 1, 5, "a =#[", q=1, t=2, covers=["entry"]),
])
PROPS["C03"] = dict(assumptions=[], runs=[R("words", "h_color.cpp", SETT, models=["win_char.cpp"], quick={"N": 4}, thorough={"N": 5}, covers=["accepted", "rejected"]), R("hex", "h_color.cpp", SETT, models=["win_char.cpp"], defs={"HEX": cs("aF")}, quick={"N": 1}, thorough={"N": 1}, covers=["accepted"])])
PROPS["C02"] = dict(assumptions=[], runs=[
  CR("sandbox-int", 1, 2, "-0129x ", mem="77", q=2, t=3), CR("sandbox-color", 4, 2, "01347;", pre="sgr ", mem="bold green on blue", q=2, t=4), CR("sandbox-str", 3, 2, "a =", mem="in memory", q=2, t=3), CR("sandbox-bool", 0, 2, "1yn", mem="on", q=2, t=3), CR("sandbox-enum", 2, 2, "0123", mem="both", q=2, t=3),
])
SRCS_SET = SETT
TERM = list(dict.fromkeys(SETT + ["clink/terminal/src/ecma48_iter.cpp", "clink/terminal/src/wcwidth.cpp", "clink/terminal/src/wcwidth_iter.cpp", "clink/core/src/str_tokeniser.cpp"] + STR))
def ER(name, mode, alpha, pre="", post="", q=4, t=6, **k): return R(name, "h_ecma.cpp", TERM, models=["win_char.cpp", "term_stubs.cpp"], defs={"MODE": mode, "ALPHA": cs(alpha), "PRE": cs(pre), "POST": cs(post)}, quick={"N": q}, thorough={"N": t}, **k)
PROPS["T01"] = dict(assumptions=[], runs=[
  ER("csi", 0, "\x1b[?1; m\na", q=5, t=6, covers=["well formed", "malformed"]), ER("strings", 0, "\x1b]\\\aX\x01a", q=5, t=7, covers=["well formed", "malformed"]), ER("other", 0, "\x1bPc(~\x1f\x7f^", q=4, t=6),
  ER("nested", 0, "\x1b]\\\aa", pre="\x1b]a", q=5, t=7), ER("long", 3, "a", q=0, t=0),
  ER("params", 1, "12;:?< m", pre="\x1b[", post="H", q=5, t=7, covers=["csi", "many"]),
])
PROPS["T02"] = dict(assumptions=[], runs=[
  ER("mixed", 2, "\x1b[]\\\aab4m", q=4, t=5, covers=["bracketed"]), ER("sgr", 2, "0349;2", pre="a\x1b[3;4;9mb\x1b[", post="mc\x1b[md", q=4, t=6, covers=["colour", "bracketed"]), ER("sgr-ext", 2, "2538;4", pre="a\x1b[38;", post="mc\x1b[0md", q=5, t=7),
])

HIST = list(dict.fromkeys(SETT + ["clink/lib/src/history_db.cpp", "clink/core/src/os.cpp", "clink/core/src/globber.cpp", "clink/core/src/log.cpp", "clink/core/src/auto_free_str.cpp", "readline/readline/history.c", "readline/readline/histexpand.c", "readline/readline/histsearch.c", "readline/readline/mbutil.c", "readline/readline/xmalloc.c", "readline/readline/xfree.c"]))
def HR(name, ops, shared=0, dupe=2, ts=0, pre=2, k=2, fix="", kt=None, **kw):
    d = dict(SHARED=shared, DUPE=dupe, TS=ts, OPS=cs(ops), FIX=cs(fix), PRE=pre); d.update(kw.pop("defs", {}))
    return R(name, "h_history.cpp", HIST, models=["win_fs.cpp", "win_char.cpp", "stdio_fs.cpp", "rl_stubs.cpp", "win_misc.cpp"], defs=d, quick={"K": k}, thorough={"K": kt or k + 1}, **kw)

PROPS["H01"] = dict(assumptions=[], runs=[
  HR("edit", "ARNLQO", k=3, kt=4, pre=1, covers="add remove load close open end".split()),
  HR("crash", "ARKOQ", k=3, kt=5, pre=1, covers="kill open end".split()),
  HR("clear", "CARLNKO", k=3, kt=4, pre=1, covers="clear kill end".split()),
  HR("clear-other", "ARLNKOQ", fix="CAQ", k=2, kt=3, pre=1), HR("clear-orphan", "ARLNKOQ", fix="RKcO", k=2, kt=3, pre=2),
  HR("mixed-times", "ARLN", fix="TAtAQO", k=2, kt=3, pre=1),
  HR("shared", "CARLNKO", shared=1, k=3, kt=4, pre=1, covers="clear kill end".split()),
  HR("ignore", "ARLNQO", dupe=1, k=3, kt=4, pre=1), HR("keep", "ARLNQO", dupe=0, k=3, kt=4, pre=1),
  HR("times", "ARLNQO", ts=1, k=3, kt=4, pre=1),
  HR("big", "RNP", b="a file with removed lines up to about the size of the buffer it is read with, and 3 lines of one or two letters across that point; {K} commands", k=1, kt=2, pre=3, covers=["end"], defs=dict(BIG=6, ONE=1, ALPHA=cs("ab"))),
  HR("big-add", "RN", b="a file with removed lines up to about the size of the buffer it is read with, and 3 lines of one or two letters across that point; {K} commands", dupe=0, k=1, kt=2, pre=3, covers=["end"], defs=dict(BIG=6, ONE=1, ALPHA=cs("ab"))),
])
PROPS["H02"] = dict(assumptions=[], runs=[
  HR("compact", "PARNLKO", k=3, kt=4, pre=2, covers=["compact", "end"]),
  HR("uniq", "UARL", k=2, kt=3, pre=3, covers=["uniq", "end"], defs=dict(ALPHA=cs("ab"), DUPE=0)),
  HR("uniq-limit", "UA", k=1, kt=2, pre=4, covers=["uniq", "end"], defs=dict(ALPHA=cs("ab"), DUPE=0, PLAIN=1)),
  HR("limit", "LARN", k=2, kt=3, pre=2, fix="AQO", covers=["compacted by loading"], defs=dict(LIMIT=1, THRESHOLD=1)),
  HR("limit-shared", "LARN", shared=1, k=2, kt=3, pre=2, fix="A", covers=["compacted by loading"], defs=dict(LIMIT=1, THRESHOLD=1)),
])
PROPS["H03"] = dict(assumptions=[], runs=[HR("torn", "ARQO", k=2, kt=3, pre=1, fix="AX", covers=["torn", "whole"], defs=dict(TORN=1)), HR("torn-times", "ARQO", ts=1, k=1, kt=2, pre=1, fix="AX", covers=["torn"], defs=dict(TORN=1)), HR("unterminated", "ARNLQO", k=2, kt=3, pre=2, fix="QW", covers=["unterminated"]), HR("unterminated-shared", "ARNLQO", shared=1, k=2, kt=3, pre=2, fix="W", covers=["unterminated"]), HR("torn-shared", "ARQO", shared=1, k=2, kt=3, pre=1, fix="X", covers=["torn"], defs=dict(TORN=1))])
DOSK = list(dict.fromkeys(SETT + ["clink/lib/src/doskey.cpp", "clink/lib/src/cmd_tokenisers.cpp", "clink/lib/src/alias_cache.cpp", "clink/core/src/os.cpp", "clink/core/src/globber.cpp", "clink/core/src/log.cpp", "clink/core/src/auto_free_str.cpp", "clink/core/src/str_tokeniser.cpp"]))
def DK(name, enh, ta, la, tpre="", lpre="al", t0=0, T=3, N=3, pt=0, up=1, LONG=None, **k): return R(name, "h_doskey.cpp", DOSK, models=["lib_stubs.cpp", "win_alias.cpp", "win_fs.cpp", "win_char.cpp", "stdio_fs.cpp", "win_misc.cpp"], defs=dict(ENH=enh, TA=cs(ta), LA=cs(la), TPRE=cs(tpre), LPRE=cs(lpre), T0=t0, PT=pt, **({LONG: 1} if LONG else {})), quick=dict(T=T, N=N), thorough=dict(T=T + up, N=N + up), **k)
PROPS["D01"] = dict(assumptions=[], runs=[
  DK("tags", 1, "$1*tgLbZ", "b c", lpre="al x ", T=4, N=2, covers=["expanded"]),
  DK("args", 1, "2$*", "b \"&|", tpre="$1-$", T=2, N=4, covers=["expanded"]),
  DK("commands", 1, "x", "al &|^\">", lpre="", tpre="X$*", T=0, N=6, covers=["expanded", "none"]),
  DK("plain", 0, "2$*", "b \"&|", tpre="$1-$", T=2, N=4, covers=["expanded", "none"]),
  DK("cursor", 1, "2*x", "b \"&", tpre="y$1-$", T=1, N=4, pt=1), DK("cursor-lines", 1, "1*x$t", "b a", lpre="al c d", T=4, N=2, pt=1), DK("long", 1, "x", "a", LONG="LONG"), DK("long-text", 1, "x", "a", LONG="LONGTEXT"),
])
def QU(name, k, n, alpha, macro=0, up=1, **kw): return R(name, "h_queue.cpp", DOSK + ["clink/lib/src/line_queue.cpp"], models=["lib_stubs.cpp", "win_alias.cpp", "win_fs.cpp", "win_char.cpp", "stdio_fs.cpp", "win_misc.cpp"], defs=dict(ALPHA=cs(alpha), MACRO=macro), quick=dict(K=k, N=n), thorough=dict(K=k + up, N=n), **kw)
PROPS["Q01"] = dict(assumptions=[], runs=[QU("lines", 3, 2, "a\n", covers="continued front line char end".split()), QU("wide", 3, 1, "\1\2\n", covers="continued line char end".split()), QU("macro", 3, 1, "a", macro=1, covers=["macro"])])
ENVS = list(dict.fromkeys(SETT + ["clink/core/src/os.cpp", "clink/core/src/globber.cpp", "clink/core/src/log.cpp", "clink/core/src/auto_free_str.cpp", "clink/core/src/str_tokeniser.cpp"]))
ENVM = ["win_env.cpp", "win_char.cpp", "stdio_fs.cpp", "win_misc.cpp"]
PROPS["E01"] = dict(assumptions=[], runs=[R("expand", "h_env.cpp", ENVS, models=ENVM, quick={"N": 6}, thorough={"N": 8}, covers="expanded unchanged cursor".split())])
def CD(name, alpha, q, t, pre="", post="", mode=0, alias=0, **k): return R(name, "h_cd.cpp", ENVS + ["clink/lib/src/intercept.cpp", "clink/lib/src/doskey.cpp", "clink/lib/src/cmd_tokenisers.cpp", "clink/lib/src/alias_cache.cpp"], models=ENVM + ["win_alias.cpp", "lib_stubs.cpp"], defs=dict(ALPHA=cs(alpha), PRE=cs(pre), POST=cs(post), MODE=mode, ALIAS=alias), quick={"N": q}, thorough={"N": t}, **k)
PROPS["I01"] = dict(assumptions=[], runs=[
  CD("dots", "./\\ a", 5, 7, covers="dots directory other".split()), CD("syntax", "a\"^ &|/x", 4, 6, covers=["directory", "other"]), CD("env", "%V/a", 5, 7, covers=["directory", "other"]),
  CD("dash", "cdCh/D -", 4, 5, covers=["previous"]), CD("dash-cd", "/d -x", 5, 6, pre=" cd", covers=["previous"]), CD("chdir", " -/d", 4, 6, pre="chdir", mode=1, covers=["previous"]), CD("only-cd", " -/dhir", 4, 5, pre="c", mode=1, alias=1),
  CD("drive", "nc:/d.", 5, 6, covers=["drive", "directory"]), CD("remote", "Nc:/.", 4, 6, mode=2, covers=["directory"]), CD("commands", "cdM/.\"", 4, 6), CD("home", "~/ax ", 4, 6, covers=["home"]),
])
PROPS["I01"]["runs"].append(R("queued", "h_dequeue.cpp", ENVS + ["clink/lib/src/intercept.cpp", "clink/lib/src/doskey.cpp", "clink/lib/src/cmd_tokenisers.cpp", "clink/lib/src/alias_cache.cpp", "clink/lib/src/line_queue.cpp", "clink/app/src/host/host.cpp"], models=ENVM + ["win_alias.cpp", "lib_stubs.cpp"], native=False, quick={"N": 4}, thorough={"N": 6}, covers="directory previous shown run".split()))
def WI(name, mode, emoji, q=0, t=0, **k): return R(name, "h_width.cpp", TERM, models=["win_char.cpp", "term_stubs.cpp"], defs=dict(MODE=mode, EMOJI=emoji), quick={"N": q}, thorough={"N": t}, **k)
PROPS["T03"] = dict(assumptions=[], runs=[WI("width", 0, 0, covers=["wide", "zero"]), WI("width-emoji", 0, 1, covers=["wide", "zero"]), WI("runs", 1, 0, 3, 4), WI("runs-emoji", 1, 1, 3, 4, covers=["joined", "emoji"])])
def EL(name, mode, q, t, kinds=4, lim=5, **k): return R(name, "h_ellipsis.cpp", TERM + ["clink/lib/src/ellipsify.cpp"], models=["win_char.cpp", "term_stubs.cpp"], defs=dict(MODE=mode, KINDS=kinds, LIM=lim), quick={"N": q}, thorough={"N": t}, **k)
PROPS["T04"] = dict(assumptions=[], runs=[EL("right", 0, 5, 6, covers=["cut", "fits"]), EL("left", 1, 5, 6, covers=["cut", "fits"]), EL("path", 2, 4, 5, kinds=5, covers=["cut", "drive"]), EL("column", 3, 5, 6, kinds=7, covers=["cut"])])
def WC(name, mode, q, t, alpha="", pre="", alias=0, sym="N", **k): return R(name, "h_words.cpp", DOSK + ["clink/lib/src/word_collector.cpp", "clink/lib/src/line_state.cpp", "clink/core/src/linear_allocator.cpp"], models=["lib_stubs.cpp", "win_alias.cpp", "win_fs.cpp", "win_char.cpp", "stdio_fs.cpp", "win_misc.cpp"], defs={**dict(MODE=mode, ALPHA=cs(alpha), PRE=cs(pre), ALIAS=alias), **k.pop("d", {})}, quick={sym: q}, thorough={sym: t}, **k)
PROPS["W01"] = dict(assumptions=[], runs=[
  WC("any", 0, 5, 6, "a &>\"^(", covers="line cursor".split()), WC("any-rem", 0, 5, 6, "mr &>", pre="re"), WC("any-alias", 0, 5, 6, "al &/(", alias=1), WC("any-args", 0, 4, 5, "a &>\"^=-:", pre="x "),
] + [WC("parts-" + k, 1, q, q + 1, sym="K", d=dict(SEPS=ss, GS=cs(g), FS=cs(f), KS=cs(w), **(dict(DUPS=3) if k == "dups" else {})), covers=["words"]) for k, q, ss, g, f, w in [
  ("quotes", 3, 2, "01", "017", "157"), ("escapes", 3, 4, "01", "02", "25"), ("redir", 3, 2, "01", "038", "034"), ("dups", 3, 2, "01", "08", "04"), ("delims", 4, 1, "03456", "01", "06"), ("flags", 4, 2, "01", "08", "56")]])
def AU(name, mode, alpha, q, t, g=2, ga=None, allu=0, **k): return R(name, "h_autorun.cpp", WILD + STR + ["clink/core/src/str_tokeniser.cpp", "clink/app/src/loader/autorun.cpp", "clink/core/src/str_transform.cpp", "getopt/getopt.c"], models=["win_reg.cpp", "win_char.cpp"], defs=dict(MODE=mode, ALPHA=cs(alpha), G=g, GALPHA=cs(ga or alpha), ALLUSERS=allu, **k.pop('d', {})), quick={"N": q}, thorough={"N": t}, **k)
PROPS["A01"] = dict(assumptions=[], runs=[AU("uninstall", 0, 'a" &', 3, 4, covers=["removed", "kept"]), AU("uninstall-all", 0, 'a &', 1, 2, g=1, allu=1, covers=["removed", "kept"]), AU("install", 1, 'a" &', 4, 5, covers=["installed", "argument"]), AU("install-all", 1, 'a" &', 3, 4, allu=1, covers=["installed", "argument"]), AU("long", 1, "a", 0, 0, d=dict(LONG=1))])

def IS(name, mode, alpha, q, t, **k): return R(name, "h_scripts.cpp", list(dict.fromkeys(SETT + WILD)) + ["clink/core/src/str_tokeniser.cpp", "clink/core/src/str_compare.cpp", "clink/app/src/loader/installscripts.cpp", "clink/app/src/utils/app_context.cpp", "clink/core/src/str_transform.cpp", "getopt/getopt.c"], models=["win_reg.cpp", "win_char.cpp"], defs=dict(MODE=mode, ALPHA=cs(alpha)), quick=q, thorough=t, **k)
PROPS["A02"] = dict(assumptions=["The registry is a model in memory with the documented behaviour of RegGetValueW, RegSetValueExW and RegCreateKeyExW."], runs=[
  IS("paths", 0, "aA;", dict(N=4, V=2), dict(N=6, V=3), covers=["refused", "installed", "uninstalled"], b="every list of at most {N} characters, every path of at most {V} characters and a second word or not, installing and uninstalling, and doing it twice and undoing it"),
  IS("slashes", 0, "a;\\/", dict(N=4, V=3), dict(N=5, V=3), covers=["refused", "installed", "uninstalled"], b="as above with slashes of both kinds"),
  IS("lists", 1, "aB;", dict(N=6), dict(N=8), covers=["all", "listed"], b="every list of at most {N} characters; listing, and uninstalling all with and without other arguments"),
])
DISP = list(dict.fromkeys(TERM + ["clink/lib/src/display_readline.cpp", "clink/terminal/src/termcap.cpp", "clink/terminal/src/ecma48_iter.cpp", "clink/lib/src/ellipsify.cpp"] + ["readline/readline/%s.c" % x for x in "display mbutil xmalloc xfree".split()]))
def DI(name, w, prompt, q, t, k1="0", k2="0", steps=1, h=8, y0=0, sel=0, rows=0, horz=0, hint=0, end=0, rp="", **k): return R(name, "h_display.cpp", DISP, models=["win_char.cpp", "term_stubs.cpp"], defs=dict(W=w, H=h, PROMPT=cs(prompt), K1=cs(k1), K2=cs(k2), Y0=y0, SEL=sel, ROWS=rows, HORZ=horz, HINT=hint, END=end, RP=cs(rp), **k.pop("d", {})), quick=dict(dict(STEPS=steps), **q), thorough=dict(dict(STEPS=steps), **t), **dict(k, b=DI_B))
DI_B = "every line of at most {L} characters of the kinds and faces of the run, every cursor before and after, every change of at most {INS} inserted and {DEL} deleted characters anywhere, {STEPS} changes one after another"
PROPS["V01"] = dict(assumptions=["The terminal is a model that wraps like the ones Clink drives (deferred wrap, scrolling at the bottom).", "Terminals under 8 columns (9 where one row is allowed) are used where the layout does not depend on it; with wide characters they are wide enough.", "While the line is scrolled, rows of a wrapped prompt above the line are not judged."], runs=[
  DI("plain", 4, ">", dict(L=6, INS=1, DEL=1), dict(L=9, INS=2, DEL=2), end=1, covers=["wrapped"]),
  DI("kinds", 5, ">", dict(L=3, INS=1, DEL=1), dict(L=4, INS=1, DEL=2), k1="01234", k2="0123"),
  DI("steps", 4, "> ", dict(L=4, INS=1, DEL=2, STEPS=2), dict(L=5, INS=2, DEL=2, STEPS=2), covers=["wrapped"]),
  DI("select", 4, ">", dict(L=4, INS=0, DEL=0, STEPS=2), dict(L=7, INS=1, DEL=0, STEPS=2), sel=1),
  DI("prompt-wraps", 4, "abcdef>", dict(L=5, INS=1, DEL=1), dict(L=9, INS=2, DEL=2), rows=4, end=1, covers=["wrapped"]),
  DI("prompt-fills", 4, "abc>", dict(L=5, INS=1, DEL=1), dict(L=9, INS=2, DEL=2), rows=4, end=1, covers=["wrapped"]),
  DI("prompt-lines", 4, "ab\n>", dict(L=5, INS=1, DEL=1), dict(L=9, INS=2, DEL=2), covers=["wrapped"]),
  DI("bottom", 4, ">", dict(L=8, INS=1, DEL=1), dict(L=10, INS=2, DEL=2), h=4, y0=3, covers=["the screen scrolled"]),
  DI("few-rows", 4, ">", dict(L=8, INS=0, DEL=1, STEPS=2), dict(L=11, INS=1, DEL=1, STEPS=2), rows=2, covers=["scrolls"]),
  DI("few-rows-kinds", 5, ">", dict(L=5, INS=1, DEL=1), dict(L=7, INS=1, DEL=1), k1="023", k2="013", rows=2),
  DI("few-rows-wraps", 4, "abcdef>", dict(L=8, INS=1, DEL=1), dict(L=12, INS=1, DEL=1, STEPS=2), rows=2, covers=["scrolls"]),
  DI("one-row", 10, ">", dict(L=9, INS=1, DEL=1), dict(L=9, INS=1, DEL=1, STEPS=2), rows=1, horz=1, covers=["scrolled"]),
  DI("one-row-kinds", 13, ">", dict(L=5, INS=1, DEL=0), dict(L=7, INS=1, DEL=1), k1="012", k2="012", rows=1, horz=1),
  DI("right-prompt", 7, ">", dict(L=5, INS=1, DEL=1, STEPS=2), dict(L=7, INS=2, DEL=1, STEPS=2), rp="R", covers=["right prompt"]),
  DI("hint", 4, ">", dict(L=3, INS=1, DEL=0, STEPS=2), dict(L=7, INS=2, DEL=1, STEPS=2), hint=1, end=1, covers=["hint"]),
])
BIND = STR + ["clink/lib/src/binder.cpp", "clink/lib/src/bind_resolver.cpp", "clink/lib/src/input_params.cpp"]
def BI(name, mode, q, t, alpha="", acts=2, **k): return R(name, "h_bind.cpp", BIND, models=["win_char.cpp"], defs=dict(MODE=mode, ALPHA=cs(alpha), ACTS=acts, **k.pop("d", {})), quick=q, thorough=t, **k)
PROPS["B01"] = dict(assumptions=[], runs=[
  BI("chords", 0, dict(B=3, L=3, N=4), dict(B=4, L=3, N=4), covers="chord passed rest waiting".split() + ["catch all"], b="every {B} bindings of chords of at most {L} keys, every {N} keys typed, every choice of the modules to take or pass a binding"),
  BI("groups", 0, dict(B=3, L=2, N=3), dict(B=3, L=3, N=3), acts=4, covers=["group"], b="as above with two groups and changes of the group while a binding is handled"),
  BI("numbers", 1, dict(N=8), dict(N=9), covers=["number", "catch all"], b="chords with numbers, every {N} keys after $"),
  BI("notation", 2, dict(N=6), dict(N=8), "\\MC-eat^", covers=["accepted", "rejected", "esc"], b="every chord text of at most {N} characters"),
  BI("notation-long", 2, dict(N=7), dict(N=8), "\\MC-e", covers=["accepted", "too long"], d=dict(PAD=61), b="every chord text of {N} or fewer characters behind 61 keys"),
  BI("is-bound", 3, dict(B=3, L=3, N=5), dict(B=4, L=3, N=6), covers=["bound", "not bound"], b="every {B} chords of at most {L} keys, no one the start of another; every sequence of {N} keys"),
])
MATCH = list(dict.fromkeys(SETT + ["clink/lib/src/matches_impl.cpp", "clink/lib/src/match_pipeline.cpp", "clink/lib/src/slash_translation.cpp", "clink/core/src/linear_allocator.cpp", "clink/core/src/auto_free_str.cpp", "clink/lib/src/line_state.cpp", "clink/core/src/log.cpp"]))
def MA(name, words, types, k, alpha, q, t, wild=1, sub=0, sort=0, slash=0, files=0, info=0, rounds=1, restrict=0, **kw): return R(name, "h_matches.cpp", MATCH, models=["win_char.cpp", "win_sort.cpp", "stdio_fs.cpp"], defs=dict(WORDS=words, TYPES=types, K=k, ALPHA=cs(alpha), WILD=wild, SUB=sub, SORT=sort, SLASH=slash, FILES=files, INFO=info, ROUNDS=rounds, RESTRICT=restrict, P=6, F=6), quick=dict(N=q), thorough=dict(N=t), **kw)
B_K = "every {K} matches of the given words and types, every typed word of at most {N} characters"
PROPS["K01"] = dict(assumptions=[], runs=[
  MA("wild", "0,1,2,3,6", "1,2,3", 3, "aB*?", 3, 4, covers=["left out", "duplicate"], b=B_K),
  MA("prefix", "0,2,3,6,11", "1,2,3", 3, "aB/\\", 3, 4, wild=0, covers=["left out"], b=B_K),
  MA("substring", "0,1,2,12", "1,2", 3, "ab*?", 3, 4, wild=1, sub=1, covers=["substring"], b=B_K), MA("substring-prefix", "0,1,2,12", "1,2", 3, "ab*?", 3, 4, wild=0, sub=1, covers=["substring"], b=B_K),
  MA("untyped", "0,4,5,6,7", "0,2,3,9", 3, "ad", 1, 2, files=1, covers=["directory", "became duplicate"], b=B_K),
  MA("slashes", "0,4,5,6,10,11", "0,1,2,3", 2, "a", 1, 1, slash=1, covers=["directory"], b=B_K + ", every kind of slash translation"),
  MA("sorted", "0,1,3,6,8,9", "1,2,3,5", 3, "a", 0, 1, sort=1, covers=["sorted"], b=B_K + ", each order"),
  MA("hidden", "0,1", "1,2,7,8", 3, "a", 1, 1, covers=["left out"], b=B_K), MA("history", "0,1", "1,2,9,10", 3, "a", 1, 1, covers=["left out"], b=B_K),
  MA("info", "0,1,2", "1,2", 2, "ab", 2, 3, info=1, rounds=2, covers=["copied", "transferred"], b=B_K), MA("rounds", "0,1,2,12", "1,2", 3, "ab", 1, 2, rounds=3, b=B_K + ", three words typed one after another"),
  MA("restrict", "0,2,3,6,10", "1,2,3", 2, "aB*?", 2, 3, restrict=1, covers=["removed", "iterated"], b=B_K + ", after a pattern removed some"), MA("restrict-substring", "0,2,12,1", "1,2", 2, "ab*", 2, 3, restrict=1, sub=1, covers=["removed", "substring"], b=B_K),
])
SCRN = list(dict.fromkeys(SETT + ["clink/terminal/src/ecma48_terminal_out.cpp", "clink/terminal/src/ecma48_iter.cpp", "clink/terminal/src/win_screen_buffer.cpp", "clink/terminal/src/attributes.cpp", "clink/terminal/src/termcap.cpp", "clink/terminal/src/wcwidth.cpp", "clink/terminal/src/wcwidth_iter.cpp", "clink/core/src/log.cpp"] + STR))
def SC(name, mode, q, t, **k): d = dict(POS=1, EXT=0, N=0, ALPHA='""', K=1, D=1, MODE=mode, **k.pop("d", {})); return R(name, "h_screen.cpp", SCRN, models=["win_char.cpp", "win_console.cpp", "stdio_fs.cpp"], defs={x: v for x, v in d.items() if x not in q}, quick=q, thorough=t, **k)
PROPS["X01"] = dict(assumptions=[], runs=[
  SC("control", 0, dict(K=1, D=1), dict(K=2, D=1), b="every {K} operations from every cursor position of a 5x3 window, every parameter of {D} digits", covers=["text", "control character", "cursor style", "sequence"]),
  SC("two", 0, dict(K=2, D=1, POS=0), dict(K=3, D=1, POS=0), b="every {K} operations one after another, every parameter of {D} digit", d=dict(SPLIT=1), covers=["sequence"]),
  SC("large", 0, dict(K=1, D=6), dict(K=1, D=6), b="every parameter 0..99, 32700..32799, 65500..65599"),
  SC("colour", 1, dict(K=2, N=1), dict(K=2, N=2), b="every {K} sequences of at most {N} codes 0..255", covers=["codes", "reset"]), SC("colours", 1, dict(K=1, N=2), dict(K=1, N=3), b="every {K} sequences of at most {N} codes 0..255", covers=["codes"]),
  SC("extended", 1, dict(K=1, EXT=1), dict(K=2, EXT=1), b="every 256 colour and 24 bit colour with every following code", native=False), SC("title", 3, dict(N=4), dict(N=8), b="every title of at most {N} characters", covers=["title"]),
  SC("bytes", 2, dict(N=5, ALPHA=cs("a\xc3\xe3\xf0\x80\xbf")), dict(N=6, ALPHA=cs("a\xc3\xe3\xf0\x80\xbf")), d=dict(SPLIT=1), b="every {N} bytes of those that start, continue or are characters", covers=["several bytes", "pair", "invalid"]),
])
FINDL = list(dict.fromkeys(SETT + ["clink/terminal/src/win_screen_buffer.cpp", "clink/terminal/src/find_line.cpp", "clink/terminal/src/attributes.cpp", "clink/core/src/str_transform.cpp", "clink/core/src/log.cpp"] + STR))
def FL(name, q, t, alpha, find, attr=0, **k): return R(name, "h_findline.cpp", FINDL, models=["win_char.cpp", "win_console.cpp", "stdio_fs.cpp"], defs=dict(ALPHA=cs(alpha), FIND=cs(find), ATTR=attr), quick=q, thorough=t, **k)
PROPS["X02"] = dict(assumptions=[], runs=[
  FL("text", dict(W=3, H=2, N=2), dict(W=4, H=3, N=3), "aA ", "aA ", b="every screen of {W}x{H} cells, every text of at most {N} characters, every start and distance", covers=["text", "none", "found"]),
  FL("colour", dict(W=2, H=2, N=1), dict(W=3, H=2, N=2), "a ", "a", b="as above with every colour of each cell of three", attr=1, covers=["text", "none", "found", "other colour"]),
])
EDIT = ["readline/readline/%s.c" % x for x in "text undo kill util mbutil misc xmalloc xfree history histsearch".split()]
def ED(name, q, t, ops, counts="1", alpha="'a','b',' '", chars="'x'", mark=0, marks=1, fix=0, conc=0, buf=64, **k): return R(name, "h_edit.cpp", EDIT, models=["win_char.cpp"], defs=dict(OPS=ops, COUNTS=counts, ALPHA=alpha, CHARS=chars, MARK=mark, MARKS=marks, FIX=fix, CONC=conc, BUF=buf), quick=q, thorough=t, **k)
ED_ALL = [i for i in range(34) if i not in (17, 30, 31)]; ED_B = "every line of at most {N} of the given characters, every cursor, every {K} of the given commands, every given count; then undoing all of it"
def eds(*x): return ",".join(str(i) for i in x)
PROPS["R01"] = dict(assumptions=["the C runtime converts UTF-8; characters are one column wide or combining"], runs=[
  ED("one", dict(N=5, K=1), dict(N=6, K=1), eds(*ED_ALL), "1,2,-1,0,3,-2", b=ED_B, covers=["delete-char", "transpose-words", "capitalize-word"]),
  ED("wide", dict(N=4, K=1), dict(N=5, K=1), eds(*[i for i in ED_ALL if i not in (24, 25, 26, 27)]), "1,2,-1", alpha="'a',' ',0x2014,0x301", chars="'x',0x2014", marks=0, b=ED_B),
  ED("two", dict(N=3, K=2), dict(N=4, K=2), eds(*range(34)), "1,2", b=ED_B, alpha="'a',' '", covers=["undone"]),
  ED("kills", dict(N=4, K=4), dict(N=4, K=5), eds(3, 4, 5, 8, 9, 13, 14, 16, 17), "1", alpha="'a','b',' '", fix=1, b=ED_B),
  ED("ring", dict(N=3, K=5), dict(N=3, K=6), eds(2, 4, 8, 14, 16, 17), "2", alpha="'a',' '", fix=1, b=ED_B),
  ED("undo", dict(N=2, K=4), dict(N=2, K=5), eds(0, 8, 13, 16, 18, 20, 23, 30, 31), "1", alpha="'a',' '", fix=1, b=ED_B, covers=["undone"]),
  ED("region", dict(N=3, K=3), dict(N=4, K=3), eds(0, 3, 7, 16, 24, 25, 26, 27, 30), "1", alpha="'a','b'", mark=1, fix=1, b=ED_B, covers=["undone"]),
  ED("buffer", dict(N=5, K=2), dict(N=6, K=3), eds(0, 1, 16, 13, 32), "1,3", alpha="'a'", buf=8, fix=1, b=ED_B + ", in a buffer that has to grow"),
])
HE = ["readline/readline/%s.c" % x for x in "search histsearch isearch text undo kill util mbutil misc xmalloc xfree history readline".split()] + ["clink/lib/src/rl/rl_buffer.cpp"]
def HI(name, n, q, t, *ops, T=2, **k): return R(name, "h_histedit.cpp", HE, models=["win_char.cpp"], defs=dict(N=n, OPS=",".join(map(str, ops)), T=T, **k.pop("d", {})), quick=dict(K=q), thorough=dict(K=t, **k.pop("td", {})), b="history of at most %d lines of any characters, every sequence of {K} of the commands, characters typed are any, revert-all-at-newline on and off" % n, **k)
PROPS["R02"] = dict(assumptions=[], runs=[
  HI("edit", 2, 5, 6, 0, 2, 3, 5, 7, covers=["undone"]), HI("revert", 2, 5, 6, 0, 1, 3, 4, 5, 7, 12, covers=["undone"]), HI("far", 3, 5, 6, 0, 5, 6, 8, 9, 10), HI("accept", 2, 6, 7, 0, 3, 5, 7, 11, covers=["accepted", "undone"]),
  HI("add", 1, 6, 7, 0, 3, 5, 7, 13, covers=["added", "undone"]), HI("remove", 3, 5, 6, 0, 5, 7, 14, 3, covers=["removed"]), HI("reset", 2, 5, 6, 0, 2, 3, 5, 7, 15, covers=["reset", "undone"]), HI("all", 2, 3, 5, *range(15), covers=["undone", "accepted", "added", "removed"]),
])
PROPS["R03"] = dict(assumptions=[], runs=[
  HI("search-same", 2, 3, 4, 16, 17, d=dict(LEN="2 - i", FIX="5, 0, 7, 0"), covers=["found", "not found"]),
  HI("search-fold", 2, 3, 4, 0, 5, 16, 18, d=dict(FOLD=1), covers=["found", "not found"]),
  HI("incremental", 2, 1, 1, 20, 21, d=dict(ISEARCH=4, FIX="0"), td=dict(ISEARCH=5), covers=["incremental", "failing", "given up", "taken"]), HI("incremental-from", 2, 1, 1, 20, 21, d=dict(ISEARCH=3, FIX="0, 5"), td=dict(ISEARCH=4), covers=["incremental", "failing", "given up", "taken"]), HI("incremental-twice", 2, 2, 2, 5, 20, d=dict(ISEARCH=2), td=dict(ISEARCH=3), covers=["incremental", "failing", "given up", "taken"]),
  HI("incremental-fold", 2, 1, 1, 20, 21, d=dict(ISEARCH=3, FIX="0", FOLD=1), td=dict(ISEARCH=4), covers=["incremental", "failing", "given up", "taken"]),
  HI("search", 3, 4, 5, 0, 5, 16, 17, covers=["found", "not found"]), HI("search-part", 3, 4, 5, 0, 5, 18, 19, covers=["found", "not found"]), HI("search-edited", 2, 5, 6, 0, 5, 16, 17, 3, T=1, covers=["found", "not found", "undone"]), 
])
CP = ["readline/readline/%s.c" % x for x in "complete tilde search histsearch text undo kill util mbutil misc xmalloc xfree history readline".split()] + ["clink/core/src/str_compare.cpp", "clink/core/src/path.cpp"] + STR
def CM(name, mode, q, t, alpha, dirs=0, lo=0, **k): return R(name, "h_complete.cpp", CP, models=["win_char.cpp"], defs={**dict(MODE=mode, ALPHA=cs(alpha), DIRS=dirs, MIN=lo, K=1), **k.pop("d", {})}, quick=q, thorough={**t, **k.pop("td", {})}, b="{N} or fewer matches of any of the given characters, at most {L} more than the {W} or fewer that were typed; before it nothing, a word, an open quote or a quoted word, behind it nothing, a word or a quote", **k)
PROPS["R04"] = dict(assumptions=[], runs=[
  CM("common", 0, dict(W=1, L=2, N=2), dict(W=1, L=3, N=2), "ab &", covers=["none", "one", "several", "undone"]),
  CM("common-three", 0, dict(W=1, L=2, N=3), dict(W=2, L=2, N=3), "a &", lo=3, covers=["several", "undone"]),
  CM("common-fold", 0, dict(W=1, L=2, N=2), dict(W=2, L=2, N=2), "aA-_ ", d=dict(FOLD=1), covers=["none", "one", "several", "undone"]),
  CM("dirs", 0, dict(W=2, L=1, N=2), dict(W=2, L=2, N=2), "a &", dirs=1, covers=["none", "one", "several", "undone"]),
  CM("all", 1, dict(W=1, L=2, N=3), dict(W=2, L=2, N=3), "a &", lo=1, covers=["undone"]),
  CM("menu", 2, dict(W=1, L=2, N=2), dict(W=1, L=2, N=3), "a &", d=dict(K=3), td=dict(K=4), covers=["one", "several", "around", "undone"]),
  CM("menu-dirs", 2, dict(W=1, L=1, N=2), dict(W=1, L=2, N=2), "a &", dirs=1, d=dict(K=2), td=dict(K=3), covers=["one", "several", "around", "undone"]),
  CM("menu-prefix", 3, dict(W=1, L=2, N=2), dict(W=1, L=2, N=3), "a &", d=dict(K=3), td=dict(K=4), covers=["one", "several", "around", "undone"]),
  CM("menu-prefix-fold", 3, dict(W=1, L=1, N=2), dict(W=1, L=2, N=2), "aA ", d=dict(K=2, FOLD=1), td=dict(K=3, FOLD=1), covers=["one", "several", "around", "undone"]),
])
SG = ["readline/readline/%s.c" % x for x in "search histsearch text undo kill util mbutil misc xmalloc xfree history readline".split()] + ["clink/lib/src/rl/rl_buffer.cpp", "clink/lib/src/suggestions.cpp", "clink/core/src/str_compare.cpp"] + SETT
def SU(name, q, t, alpha, edit=0, **k): return R(name, "h_suggest.cpp", SG, models=["win_char.cpp", "stdio_fs.cpp"], defs=dict(ALPHA=cs(alpha), EDIT=edit), quick=q, thorough=t, b="a line of at most {N} and a suggestion of at most {M} of any of the given characters for any place in it, the end word beginning anywhere at or behind that; {K} steps", **k)
PROPS["G01"] = dict(assumptions=[], runs=[
  SU("accept", dict(N=3, M=5, K=2), dict(N=4, M=6, K=3), "aA ", covers=["shown", "mismatch", "nothing left", "finished", "partly", "undone"]),
  SU("quotes", dict(N=3, M=5, K=2), dict(N=4, M=6, K=3), "a \"", covers=["shown", "mismatch", "nothing left", "finished", "partly", "undone"]),
  SU("edited", dict(N=3, M=4, K=2), dict(N=3, M=5, K=3), "aA ", edit=1, covers=["shown", "mismatch", "nothing left", "finished", "partly", "undone", "edited", "not at end"]),
  SU("words", dict(N=1, M=5, K=3), dict(N=2, M=6, K=4), "a -\t", covers=["shown", "mismatch", "finished", "partly", "undone"]),
])
def FC(name, mode, q, t, b, **k): return R(name, "h_faces.cpp", ["clink/lib/src/word_classifications.cpp"] + STR, models=["win_char.cpp"], defs=dict(MODE=mode), quick=q, thorough=t, b=b, **k)
PROPS["G02"] = dict(assumptions=[], runs=[
  FC("one", 0, dict(L=4, K=1), dict(L=6, K=1), "lines of at most {L} characters, {K} colour of any face, place and length", covers=["line", "empty", "again", "end"]), FC("line", 0, dict(L=2, K=2), dict(L=3, K=2), "lines of at most {L} characters, {K} colours of any face, place and length", covers=["line", "empty", "again", "end"]),
  FC("equal", 1, dict(L=2, K=1), dict(L=4, K=1), "two lines of at most {L} characters with {K} colours each", covers=["equal", "different", "end"]),
  FC("codes", 2, dict(K=3, L=0), dict(K=5, L=0), "{K} colours of six, any face, and as many further ones as there can be", covers=["same", "full", "end"]),
])
def CL(name, desc, q, t, lo, same=0, free=1, **k): return R(name, "h_columns.cpp", ["clink/lib/src/column_widths.cpp", "clink/core/src/path.cpp"] + STR, models=["win_char.cpp"], defs=dict(DESC=desc, LO=lo, SAME=same, FREE=free), quick=q, thorough=t, b="{N} or fewer matches of any width up to {W}" + (", any with a description of any such width" if desc else "") + ", screens of " + str(lo) + " to {SCREEN} cells, both directions", **k)
PROPS["L01"] = dict(assumptions=[], runs=[
  CL("two", 0, dict(N=2, W=50, SCREEN=39), dict(N=2, W=60, SCREEN=42), 38, free=2, covers=["several", "single", "fitted", "end"]),
  CL("fitted", 0, dict(N=4, W=6, SCREEN=17), dict(N=6, W=6, SCREEN=20), 4, free=0, covers=["several", "single", "fitted", "end"]),
  CL("same", 0, dict(N=3, W=6, SCREEN=14), dict(N=4, W=8, SCREEN=16), 2, same=1, free=0, covers=["several", "single", "fitted", "same", "end"]),
  CL("described", 1, dict(N=3, W=5, SCREEN=30), dict(N=3, W=6, SCREEN=30), 26, free=0, covers=["several", "single", "fitted", "end"]),
  CL("described-same", 1, dict(N=2, W=12, SCREEN=30), dict(N=2, W=15, SCREEN=31), 29, same=1, free=0, covers=["several", "single", "same", "end"]),
])
def EF(name, wide, q, t, **k): return R(name, "h_errfile.cpp", STR + ["clink/lib/src/errfile_reader.cpp"], models=["stdio_fs.cpp"], defs=dict(WIDE=wide, LENGTHS=k.pop("lengths"), FREE=k.pop("free")), quick=q, thorough=t, b="at most {K} lines of the given lengths behind the exit code", **k)
PROPS["F01"] = dict(assumptions=[], runs=[
  EF("ansi", 0, dict(K=2), dict(K=3), lengths="0, 1, 2", free=2, covers=["line", "empty", "end"]), EF("utf16", 1, dict(K=2), dict(K=3), lengths="0, 1, 2", free=2, covers=["line", "empty", "end"]),
  EF("ansi-long", 0, dict(K=1), dict(K=2), lengths="62, 63, 64, 65, 127, 128, 129, 260", free=1, covers=["long", "end"]), EF("utf16-long", 1, dict(K=1), dict(K=2), lengths="62, 63, 64, 65, 127, 128, 129, 260", free=1, covers=["long", "end"]),
])
def HX(name, mode, **k): return R(name, "h_histexp.cpp", HIST, models=["win_fs.cpp", "win_char.cpp", "stdio_fs.cpp", "rl_stubs.cpp", "win_misc.cpp"], defs=dict(MODE=mode, **k.pop("d", {})), **k)
PROPS["E02"] = dict(assumptions=[], runs=[
  HX("events", 0, b="every history of three lines of at most 2 letters, every event, text before and after it"), HX("words", 1, b="every line of at most 4 words, every designator with numbers up to 4"), HX("many-words", 1, b="a line of 38 words, every designator with the numbers 0 and 35 to 39", d=dict(MANY=38)),
  HX("split-operators", 2, b="every line of at most {N} of the given characters", d=dict(ALPHA=cs("<>&|-1a ;")), quick=dict(N=4), thorough=dict(N=5)), HX("split-quotes", 2, b="every line of at most {N} of the given characters", d=dict(ALPHA=cs("a \"'`|")), quick=dict(N=5), thorough=dict(N=6)), HX("split-parens", 2, b="every line of at most {N} of the given characters", d=dict(ALPHA=cs("a( )|1;")), quick=dict(N=4), thorough=dict(N=5)),
  HX("modifiers", 3, b="every path of at most {N} of the given characters, at most {M} modifiers", d=dict(ALPHA=cs("a/\\.")), quick=dict(N=4, M=2), thorough=dict(N=5, M=3)),
  HX("substitute", 4, b="every line of at most {N} characters, old text up to {NOLD}, at most {NNEW} pieces of new text, a second substitution", d=dict(ALPHA=cs("ab "), OLD=cs("ab")), quick=dict(N=4, NOLD=1, NNEW=1), thorough=dict(N=5, NOLD=2, NNEW=2)), HX("substitute-long", 4, b="every line of at most {N} characters, old text up to {NOLD}, at most {NNEW} pieces of new text, a second substitution", d=dict(ALPHA=cs("ab,"), OLD=cs("ab,")), quick=dict(N=2, NOLD=2, NNEW=1), thorough=dict(N=2, NOLD=2, NNEW=2)),
  HX("any-modifier", 9, b="every {N} of the given characters after the designator", d=dict(PRE=cs("!!:s"), ALPHA=cs("a/\\&:\xc3\xa9".encode('latin1').decode('latin1'))), quick=dict(N=4), thorough=dict(N=6)), HX("any-event", 9, b="every {N} of the given characters after the designator", d=dict(PRE=cs("!"), ALPHA=cs("a?:1-$g&*")), quick=dict(N=4), thorough=dict(N=6)),
  HX("quick", 5, b="every line of at most {N} characters, old text up to {NOLD}, at most {NNEW} pieces of new text, and again on another line", d=dict(ALPHA=cs("ab^"), OLD=cs("ab^")), quick=dict(N=3, NOLD=2, NNEW=1), thorough=dict(N=4, NOLD=2, NNEW=2)),
  HX("quotes", 6, b="every {N} pieces of typed text, every mode", quick=dict(N=4), thorough=dict(N=6)), HX("pieces", 7, b="every {N} pieces of typed text", quick=dict(N=3), thorough=dict(N=4)), HX("found-word", 8, b="every line of at most 3 words of at most 3 letters, every string of at most 2"),
])
def FN(name, pa, fa, flags, q, t, conc=1, **k): return R(name, "h_fnmatch.cpp", ["wildmatch/wildmatch/wildmatch.c"], models=["win_char.cpp"], defs=dict(PA=cs(pa), FA=cs(fa), FLAGS=",".join("WM_" + x for x in flags.split()), CONC=conc), quick=dict(P=q[0], F=q[1]), thorough=dict(P=t[0], F=t[1]), covers=["match", "no match"], b="every pattern of at most {P} and name of at most {F} characters of the given ones, every choice of the given flags", **k)
PROPS["M03"] = dict(assumptions=["`**` has a meaning only as a whole path element"], runs=[
  FN("glob", "a*?/", "ab/", "PATHNAME WILDSTAR LEADING_DIR", (4, 4), (5, 5)), FN("glob-symbolic", "a*?/", "a/", "PATHNAME WILDSTAR", (4, 3), (4, 4), conc=0),
  FN("stars", "a/*", "ab/", "WILDSTAR", (6, 5), (8, 7)),
  FN("period", "a*?/.", "a./", "PATHNAME PERIOD", (4, 4), (5, 5)),
  FN("set", "[]!-aC", "abcC]-", "CASEFOLD", (5, 2), (6, 3)), FN("set-symbolic", "[]!-aC", "abcC]-", "CASEFOLD", (4, 2), (5, 3), conc=0),
  FN("escape", "a\\*[/]", "a\\*/", "NOESCAPE SLASHFOLD PATHNAME", (4, 3), (5, 4)),
  FN("names", "a", "a", "CASEFOLD", (0, 1), (0, 1)),
  FN("class", "[]aB/*?^", "aAb/", "CASEFOLD PATHNAME WILDSTAR", (4, 3), (5, 4)),
])
INP = list(dict.fromkeys(SETT + ["clink/terminal/src/ecma48_iter.cpp", "clink/terminal/src/win_terminal_in.cpp", "clink/core/src/log.cpp"] + STR))
def IN(name, mode, q, t, kinds=0, **k): d = {**dict(MODE=mode, SET=0, TEST=0, PEEK=0, REQ=0, KINDS=kinds), **k.pop("d", {})}; return R(name, "h_input.cpp", INP, models=["win_char.cpp", "win_input.cpp", "stdio_fs.cpp"], defs=d, quick=q, thorough=t, **k)
PROPS["T05"] = dict(assumptions=[], runs=[
  IN("special", 0, dict(K=1), dict(K=1), d=dict(SET=31), b="{K} keys, every modifier, every setting"),
  IN("letters", 1, dict(K=1), dict(K=2), d=dict(SET=31), b="{K} letters, every modifier and lock, every setting"),
  IN("symbols", 4, dict(K=1), dict(K=2), d=dict(SET=31), b="{K} of 8 symbol keys, every modifier, every setting"),
  IN("several", 6, dict(K=2), dict(K=3), kinds=2, d=dict(SET=0), b="{K} keys one after another"),
  IN("text", 2, dict(K=2), dict(K=3), d=dict(PEEK=0), b="{K} characters up to U+2FFFF, except what starts an escape sequence", covers=["pair"]),
  IN("ignored", 6, dict(K=2), dict(K=3), kinds=4, d=dict(PEEK=0), b="{K} records: keys, text, releases, lone modifiers, focus and size events"),
  IN("mouse", 5, dict(K=2), dict(K=3), d=dict(PEEK=0), b="{K} mouse records, every change of two buttons, wheels", covers=["click", "wheel"]),
  IN("mouse-peek", 5, dict(K=2), dict(K=2), d=dict(PEEK=2), b="{K} mouse records, peeked at or not", covers=["click", "wheel", "looked"]),
  IN("tester", 6, dict(K=2), dict(K=2), kinds=2, d=dict(TEST=1, PEEK=1), b="{K} keys with a key tester", covers=["tested"]),
  IN("request", 6, dict(K=1), dict(K=2), kinds=3, d=dict(REQ=1), b="an answer behind any of {K} records", covers=["answered", "not answered"]),
  IN("request-mouse", 5, dict(K=2), dict(K=2), d=dict(REQ=1), b="an answer behind any of {K} mouse records", covers=["answered", "not answered", "click"]),
  IN("peek", 6, dict(K=2), dict(K=2), kinds=4, d=dict(PEEK=1), b="{K} records, peeked at or not", covers=["looked"]),
])
RCF = ["readline/readline/%s.c" % x for x in "bind keymaps funmap util misc xmalloc xfree".split()]
def RC(name, mode, q, t, **k): d = {**dict(MODE=mode, N=0, K=0, LEN=2, ALPHA='""', PRE='""', CONDS=1), **k.pop("d", {})}; return R(name, "h_inputrc.cpp", RCF, models=["win_char.cpp"], defs={x: v for x, v in d.items() if x not in q}, quick=q, thorough=t, **k)
PROPS["I02"] = dict(assumptions=[], runs=[
  RC("keys", 0, dict(N=4), dict(N=5), d=dict(ALPHA=cs("\\CM-ax07\"?")), b="every key sequence of at most {N} of the given characters", covers=["bound"]),
  RC("macro", 1, dict(N=3), dict(N=4), d=dict(ALPHA=cs("\\Ce-1\"' ")), b="every macro of at most {N} of the given characters", covers=["bound"]),
  RC("names", 2, dict(), dict(), b="every key name, character and prefix", covers=["bound"]),
  RC("many", 3, dict(K=3), dict(K=5), b="every {K} bindings of sequences of at most 2 of 2 keys", covers=["unbound", "prefix"]),
  RC("long", 3, dict(K=3), dict(K=4), d=dict(LEN=3), b="every {K} bindings of sequences of at most 3 of 2 keys", covers=["unbound", "prefix"]),
  RC("conditional", 4, dict(K=5), dict(K=6), d=dict(CONDS=2), b="every {K} lines", covers=["set", "skipped", "nested"]),
  RC("conditions", 4, dict(K=2), dict(K=3), d=dict(CONDS=17), b="every {K} lines, every condition", covers=["set", "skipped", "nested"]),
  RC("version", 5, dict(), dict(), b="every operator with versions around the own one", covers=["holds", "fails"]),
  RC("variables", 6, dict(N=3), dict(N=4), d=dict(ALPHA=cs("onOf1-\" \\")), b="every variable of 9, every value of at most {N} of the given characters", covers=["on", "off", "text"]),
  RC("translate", 8, dict(N=4), dict(N=5), b="every key sequence of at most {N} of any characters", covers=["translated"]),
  RC("any-key", 9, dict(N=4), dict(N=5), d=dict(ALPHA=cs("\\C-\": a'")), b="every line of at most {N} of the given characters: nothing is read or written outside of it", covers=["parsed"]),
  RC("any-set", 9, dict(N=3), dict(N=4), d=dict(PRE=cs("set bell-style"), ALPHA=cs("\" =a\\:")), b="every such end of a line", covers=["parsed"]),
  RC("any-if", 9, dict(N=3), dict(N=4), d=dict(PRE=cs("$if bell-style "), ALPHA=cs("= !a#")), b="every such end of a line", covers=["parsed"]),
  RC("any-version", 9, dict(N=4), dict(N=5), d=dict(PRE=cs("$if version"), ALPHA=cs("=< 8.!#a")), b="every such end of a line", covers=["parsed"]),
  RC("written", 7, dict(N=3), dict(N=4), b="every {N} keys of ASCII", covers=["written"]),
])
