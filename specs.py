"""Targets (one binary each) and properties (which targets decide them)."""
BASE = dict(repo=[], src=[], repo_src=[], flags=[], repo_flags=[], opt=["-O1", "-g", "-march=native"], libs=["-lpthread", "-ldl"], mode="asan", cxx="g++", cc="gcc",
            cases=1000, share=1, workers=8, thorough_x=1000, env={}, pre=[], pre_objs=[])
OQL = ["-DOPTIQL", "-DOMCS_LOCK", "-DIS_CONTEXTFUL", "-iquote", "@R/OptiQL"]
ART = ["-iquote", "@R/ARTOLC"]
HOT = ["-I", "@R/HOT/include", "-iquote", "@R/HOT", "-w"]
WH = ["-iquote", "@R/wormhole", "-D_GNU_SOURCE", "-w"]
WHL = ["-lpthread", "-lnuma", "-lm", "-lrt"]
MT = ["-include", "@R/MassTree/config.h", "-iquote", "@R/MassTree", "-I", "@R/MassTree", "-DFORCE_ENABLE_ASSERTIONS=1", "-DENABLE_ASSERTIONS=1", "-w"]
def mtsrc(*x): return [("@R/MassTree/%s.cc" % n) for n in x]
MTJ = mtsrc("json", "string", "straccum", "str", "compiler")
MTK = MTJ + mtsrc("misc", "kvthread", "memdebug") + [["@R/MassTree/clp.c", "-xc++"]]
STX = ["-I@R/STX/tlx"]
def TLX(*names): return ["@R/STX/tlx/tlx/%s.cpp" % n for n in names]
# FAST: Rust crate built with rustc (its dependency `num` replaced by shim/fast/num.rs), its C part by gcc, both ways of it
def FAST(c):
    return dict(repo=["FAST"], src=["fast_seq.cc"], repo_src=[["@R/FAST/fast64/c/lookup.c"] + c], flags=["-iquote", "@R"], cases=40000,
                pre=["cd @O", "ar rcs liblookup.a", "rustc --edition 2018 -O -C debug-assertions=on -C overflow-checks=on --crate-type rlib --crate-name num @V/shim/fast/num.rs -o libnum.rlib",
                     "rustc --edition 2018 -A warnings -O -C debug-assertions=on -C overflow-checks=on -L . --extern num=libnum.rlib --crate-type rlib --crate-name fast64 @R/FAST/fast64/src/lib.rs -o libfast64.rlib",
                     "rustc --edition 2018 -A warnings -O -L . --extern fast64=libfast64.rlib --crate-type staticlib @V/shim/fast/entry.rs -o libfastentry.a"], pre_objs=["libfastentry.a"])
AVX512 = " avx512f " in open("/proc/cpuinfo").read()
TARGETS = {
  "fast_plain": FAST(["-DVANILLA=1", "-DAVX512=0"]), "fast_vec": FAST(["-DVANILLA=0", "-DAVX512=1"] if AVX512 else ["-O3", "-DVANILLA=1", "-DAVX512=0"]),
  "art_seq": dict(repo=["ARTOLC"], src=["art_seq.cc"], flags=ART, libs=["-lpthread", "-ltbb"], cases=110000),
  "art_rng": dict(repo=["ARTOLC"], src=["art_seq.cc"], flags=ART + ["-DRANGES"], libs=["-lpthread", "-ltbb"], cases=60000),
  "art_conc": dict(repo=["ARTOLC"], src=["art_conc.cc"], flags=ART, mode="sched", libs=["-lpthread", "-ltbb", "-ldl"], cases=20000),
  "oql_seq": dict(repo=["OptiQL", "ARTOLC"], src=["art_seq.cc"], flags=OQL, libs=["-lpthread", "-ltbb", "-lnuma"], cases=60000),
  "oql_rng": dict(repo=["OptiQL", "ARTOLC"], src=["art_seq.cc"], flags=OQL + ["-DRANGES"], libs=["-lpthread", "-ltbb", "-lnuma"], cases=60000),
  "oql_conc": dict(repo=["OptiQL", "ARTOLC"], src=["art_conc.cc"], flags=OQL, mode="sched", libs=["-lpthread", "-ltbb", "-ldl", "-lnuma"], cases=20000),
  "blink_seq": dict(repo=["BLinkTree"], src=["blink_seq.cc"], flags=["-iquote", "@R/BLinkTree"], cases=60000),
  "blink_scan": dict(repo=["BLinkTree"], src=["blink_seq.cc"], flags=["-iquote", "@R/BLinkTree", "-DSCANS"], cases=45000),
  "blink_conc": dict(repo=["BLinkTree"], src=["blink_conc.cc"], flags=["-iquote", "@R/BLinkTree"], mode="sched", cases=20000),
  "btolc_seq": dict(repo=["BTreeOLC"], src=["btolc_seq.cc"], flags=["-iquote", "@R/BTreeOLC"], cases=20000),
  "btolc_child_seq": dict(repo=["BTreeOLC"], src=["btolc_seq.cc"], flags=["-iquote", "@R/BTreeOLC", "-DCHILD"], cases=13000),
  "btolc_conc": dict(repo=["BTreeOLC"], src=["btolc_conc.cc"], flags=["-iquote", "@R/BTreeOLC"], mode="sched", cases=20000),
  "btolc_child_conc": dict(repo=["BTreeOLC"], src=["btolc_conc.cc"], flags=["-iquote", "@R/BTreeOLC", "-DCHILD"], mode="sched", cases=20000),
  "google_seq": dict(repo=["GoogleBTree"], src=[["google_seq.cc", "-DPART=%d" % i] for i in range(5)], flags=["-iquote", "@R/GoogleBTree", "-w"], cases=90000),
  "google_multi": dict(repo=["GoogleBTree"], src=[["google_seq.cc", "-DPART=%d" % i] for i in range(5)], flags=["-iquote", "@R/GoogleBTree", "-w", "-DMULTI"], cases=90000),
  "hot_seq": dict(repo=["HOT"], src=["hot_seq.cc"], flags=HOT, libs=["-ltbb", "-lpthread"], cases=20000),
  "hot_scan": dict(repo=["HOT"], src=["hot_seq.cc"], flags=HOT + ["-DSCANS"], libs=["-ltbb", "-lpthread"], cases=20000),
  "hot_conc": dict(repo=["HOT"], src=["hot_conc.cc"], flags=HOT, libs=["-ltbb", "-lpthread", "-ldl"], mode="sched", cases=10000),
  "wh_seq": dict(repo=["wormhole"], src=["wh_seq.cc"], repo_src=["@R/wormhole/kv.c", "@R/wormhole/lib.c", "@R/wormhole/wh.c"], flags=WH, libs=WHL, cases=12000),
  "wh_iter": dict(repo=["wormhole"], src=["wh_seq.cc"], repo_src=["@R/wormhole/kv.c", "@R/wormhole/lib.c", "@R/wormhole/wh.c"], flags=WH + ["-DITERS"], libs=WHL, cases=12000),
  "wh_conc": dict(repo=["wormhole"], src=["wh_conc.cc"], repo_src=["@R/wormhole/kv.c", "@R/wormhole/lib.c", "@R/wormhole/wh.c"], flags=WH, libs=WHL + ["-ldl"], mode="sched", cases=8000),
  "wh_util": dict(repo=["wormhole"], src=["wh_util.cc"], repo_src=["@R/wormhole/kv.c", "@R/wormhole/lib.c"], flags=WH, libs=WHL, cases=60000),
  "wh_lock": dict(repo=["wormhole"], src=["wh_lock.cc"], repo_src=["@R/wormhole/lib.c"], flags=WH, libs=WHL + ["-ldl"], mode="sched", cases=50000),
  "wh_rcu": dict(repo=["wormhole"], src=["wh_rcu.cc"], repo_src=["@R/wormhole/lib.c"], flags=WH, libs=WHL + ["-ldl"], mode="sched", cases=50000),
  "mt_seq": dict(repo=["MassTree"], src=["mt_seq.cc", "mt_globals.cc"], repo_src=MTK, flags=MT, libs=["-lpthread", "-lnuma"], cases=32000),
  "mt_scan": dict(repo=["MassTree"], src=["mt_seq.cc", "mt_globals.cc"], repo_src=MTK, flags=MT + ["-DSCANS"], libs=["-lpthread", "-lnuma"], cases=15000),
  "mt_conc": dict(repo=["MassTree"], src=["mt_conc.cc", "mt_globals.cc"], repo_src=MTK, flags=[f for f in MT if "FORCE" not in f] + ["-DENABLE_PRECONDITIONS=0"], libs=["-lpthread", "-lnuma", "-ldl"], mode="sched", cases=8000),
  "mt_wrap": dict(repo=["MassTree"], src=["mt_wrap.cc", "mt_globals.cc"], repo_src=MTK, flags=[f for f in MT if "FORCE" not in f] + ["-DENABLE_PRECONDITIONS=0"], libs=["-lpthread", "-lnuma", "-ldl", "-ltbb"], mode="sched", cases=8000),
  "wh_wrap": dict(repo=["wormhole"], src=["wh_wrap.cc"], repo_src=["@R/wormhole/kv.c", "@R/wormhole/lib.c", "@R/wormhole/wh.c"], flags=WH + ["-iquote", "@V/shim/util"], libs=WHL + ["-ldl"], mode="sched", cases=8000),
  "mt_json": dict(repo=["MassTree"], src=["mt_json.cc"], repo_src=MTJ, flags=MT, cases=60000),
  "mt_str": dict(repo=["MassTree"], src=["mt_str.cc"], repo_src=MTJ, flags=MT, cases=500000),
  "mt_pack": dict(repo=["MassTree"], src=["mt_pack.cc"], repo_src=MTJ + mtsrc("msgpack"), flags=MT, cases=150000),
  "stx_seq": dict(repo=["STX"], src=[["stx_seq.cc", "-DPART=%d" % i] for i in range(4)], repo_src=TLX("die/core"), flags=STX, cases=60000),
  "stx_multi": dict(repo=["STX"], src=[["stx_seq.cc", "-DPART=%d" % i] for i in range(4)], repo_src=TLX("die/core"), flags=STX + ["-DMULTI"], cases=30000),
  "stx_heap": dict(repo=["STX"], src=[["stx_heap.cc", "-DPART=%d" % i] for i in range(3)], flags=STX, cases=300000),
  "stx_misc": dict(repo=["STX"], src=["stx_misc.cc"], flags=STX, cases=1200000),
  "stx_digest": dict(repo=["STX"], src=["stx_digest.cc"], repo_src=TLX("digest/md5", "digest/sha1", "digest/sha256", "digest/sha512", "string/base64", "string/bitdump", "string/hexdump"), flags=STX, libs=["-lpthread", "-ldl", "-lcrypto"], cases=1200000),
  "stx_string": dict(repo=["STX"], src=["stx_string.cc"], repo_src=TLX("string/appendline", "string/base64", "string/bitdump", "string/compare_icase", "string/contains", "string/contains_word", "string/ends_with", "string/equal_icase", "string/erase_all", "string/escape_html", "string/escape_uri", "string/expand_environment_variables", "string/extract_between", "string/format_si_iec_units", "string/hexdump", "string/index_of", "string/join", "string/join_quoted", "string/less_icase", "string/pad", "string/parse_si_iec_units", "string/replace", "string/split", "string/split_quoted", "string/split_words", "string/ssprintf", "string/starts_with", "string/to_lower", "string/to_upper", "string/trim", "string/union_words", "string/word_wrap"), flags=STX, cases=600000),
  "stx_strsort": dict(repo=["STX"], src=[["stx_strsort.cc", "-DPART=%d" % i] for i in range(8)], repo_src=TLX("thread_pool", "multi_timer", "logger/core", "die/core"), flags=STX, cases=60000),
  "stx_merge": dict(repo=["STX"], src=["stx_merge.cc"], repo_src=TLX("algorithm/parallel_multiway_merge"), flags=STX, cases=200000),
  "blink_lock": dict(repo=["BLinkTree"], src=["blink_lock.cc"], flags=["-iquote", "@R/BLinkTree"], mode="sched", cases=80000),
}
FAMS = ["mcs", "omcs", "opread", "mcsrw", "omcs_id", "rw_writer", "rw_reader", "stdrw"]
for i, n in enumerate(FAMS):
  TARGETS["oql_lock_" + n] = dict(repo=["OptiQL"], src=["oql_lock.cc"], flags=["-iquote", "@R/OptiQL", "-DFAM=%d" % i, "-DFNAME=" + n, "-w"], libs=["-lpthread", "-ldl", "-lnuma"], mode="sched", cases=70000 if n == "mcsrw" else 20000)
# FBTree needs headers of a submodule that is not part of the repository: shim/util stands in for it
def FB(cfg, *more): return ["-I@V/shim/util", "-iquote", "@R/FBTree", "-DAVX2_ENABLE", "-DSSE2_ENABLE", "-Wno-overflow"] + (["-DFB_CFG=%d" % cfg, "-include", "@V/shim/fb_config.h"] if cfg else []) + list(more)
for cfg in range(4):
  for kind in ("int", "str"):
    st = ["-DSTR"] if kind == "str" else []
    TARGETS["fb_%s_%d" % (kind, cfg)] = dict(repo=["FBTree"], src=["fb_seq.cc", "fb_shim.cc"], flags=FB(cfg, *st), cases=14000)
    TARGETS["fb_%s_scan_%d" % (kind, cfg)] = dict(repo=["FBTree"], src=["fb_seq.cc", "fb_shim.cc"], flags=FB(cfg, "-DSCANS", *st), cases=10000)
    TARGETS["fb_%s_conc_%d" % (kind, cfg)] = dict(repo=["FBTree"], src=["fb_conc.cc", "fb_shim.cc"], flags=FB(cfg, "-DFB_THREADS", *st), mode="sched", cases=1800)
PROPS = {
  "F01": dict(targets=["fb_int_0", "fb_int_1", "fb_int_3"]),
  "F02": dict(targets=["fb_str_0", "fb_str_1", "fb_str_2", "fb_str_3"]),
  "F03": dict(targets=["fb_int_scan_0", "fb_int_scan_1", "fb_str_scan_0", "fb_str_scan_1"]),
  "F04": dict(targets=["fb_int_conc_0", "fb_int_conc_1", "fb_str_conc_0", "fb_str_conc_1", "fb_str_conc_2"]),
  "S01": dict(targets=["stx_seq"]), "S02": dict(targets=["stx_multi"]), "S03": dict(targets=["stx_heap"]), "S04": dict(targets=["stx_misc"]), "S05": dict(targets=["stx_merge"]), "S06": dict(targets=["stx_digest"]), "S07": dict(targets=["stx_strsort"]), "S08": dict(targets=["stx_string"]), "M07": dict(targets=["mt_wrap"]), "W07": dict(targets=["wh_wrap"]), "X01": dict(targets=["fast_plain", "fast_vec"]),
  "W06": dict(targets=["wh_rcu"]),
  "M01": dict(targets=["mt_seq"]),
  "M03": dict(targets=["mt_conc"]),
  "M04": dict(targets=["mt_json"]),
  "M06": dict(targets=["mt_str"]),
  "M05": dict(targets=["mt_pack"]),
  "M02": dict(targets=["mt_scan"]),
  "W05": dict(targets=["wh_lock"]),
  "L04": dict(targets=["blink_lock"]),
  "O04": dict(targets=["oql_lock_" + n for n in FAMS]),
  "W04": dict(targets=["wh_util"]),
  "W03": dict(targets=["wh_conc"]),
  "W01": dict(targets=["wh_seq"]),
  "W02": dict(targets=["wh_iter"]),
  "H01": dict(targets=["hot_seq"]),
  "H02": dict(targets=["hot_scan"]),
  "H03": dict(targets=["hot_conc"]),
  "G01": dict(targets=["google_seq"]),
  "G02": dict(targets=["google_multi"]),
  "A01": dict(targets=["art_seq"]),
  "A02": dict(targets=["art_rng"]),
  "A03": dict(targets=["art_conc"]),
  "L01": dict(targets=["blink_seq"]),
  "L02": dict(targets=["blink_scan"]),
  "L03": dict(targets=["blink_conc"]),
  "T01": dict(targets=["btolc_seq", "btolc_child_seq"]),
  "T02": dict(targets=["btolc_conc", "btolc_child_conc"]),
  "O01": dict(targets=["oql_seq"]),
  "O02": dict(targets=["oql_rng"]),
  "O03": dict(targets=["oql_conc"]),
}
