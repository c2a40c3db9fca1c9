"""Jobs of every property: what is encoded and within which bounds."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ASSUME = [
    "cbmc 6.11 and its SAT back end decide the generated formulas correctly",
    "goto-cc's reading of the C sources (LP64, little endian, Linux defaults of pomp_config.h) "
    "agrees with gcc's; every counterexample and witness is replayed on a gcc build",
    "logging (POMP_LOG*) is compiled to nothing",
]
CUSTOM = {}
CODEC = ["pomp_encoder.c", "pomp_decoder.c", "pomp_msg.c", "pomp_buffer.c"]
META, _J = {}, {}


def prop(pid, bounds, outside, assume=()):
    META[pid] = {"bounds": bounds, "outside": outside, "assume": list(assume)}
    _J[pid] = []
    def job(name, harness, entry, src, tier="both", **kw):
        _J[pid].append(dict(name="%s_%s" % (pid, name), harness=harness, entry=entry, src=src, tier=tier, **kw))
    return job


def jobs(pid, tier):
    return [dict(j) for j in _J.get(pid, []) if j["tier"] in ("both", tier)]


def known(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2].strip())
    return out


TYPES = ["", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "str", "buf", "f32", "f64"]
HDR = 12
STEP64 = ["VP_STEP=64", "VP_LADDER=2"]

j = prop("C01", "one argument of each type with every value (every message id), strings up to 4 and buffers up to 4 bytes of any content, after any "
         "already written bytes; the size prefix of 16 lengths up to 70000 (around each limit); a sequence of 5 arguments with each allocation failing",
         "the full content of strings and buffers longer than 4 bytes (first and last byte, size prefix and total are checked)")
for t in range(1, 13):
    j(TYPES[t], "h_encode.c", "h_encode", CODEC, defs=STEP64 + ["TYPE=%d" % t], unwind=13,
      unwindset={"vp_memcpy": 14}, cost=3 if t in (5, 6, 7, 8, 9, 10) else 1)
for t in (9, 10):
    for n in (126, 127, 128, 129, 255, 256, 1000, 16382, 16383, 16384, 32768, 65533, 65534, 65535, 65536, 70000):
        j("size_%s%d" % (TYPES[t], n), "h_encode.c", "h_size", CODEC, defs=["VP_STEP=4096", "VP_EXACT", "VP_STRLEN", "VP_SPARSE=12", "SIZES", "BIG=70000", "TYPE=%d" % t, "AT=%d" % n],
          unwind=16, checks=False, tier="both" if n in (127, 128, 16383, 65534 + t - 9, 70000) else "thorough")
j("nomem", "h_encode.c", "h_nomem", CODEC, defs=["VP_STEP=8", "VP_EXACT", "VP_MEMSET", "VP_STRLEN", "NOMEM"], unwind=16, fs=64, checks=False,
  unwindset={"vp_memcpy": 16, "vp_realloc": 70, "vp_memset": 70})

j = prop("C02", "every value of each of the 12 value types followed by any second argument, strings and buffers up to 4 bytes; decoding with "
         "each of the 12 other readers",
         "strings and buffers longer than 4 bytes; sequences of more than two arguments (the decoder keeps no state but its position)")
for t in range(1, 13):
    d = ["VP_STEP=64", "VP_LADDER=1", "TYPE=%d" % t, "NSTR=4"]
    j(TYPES[t], "h_rt.c", "h_rt", CODEC, defs=d, unwind=13,
      unwindset={"vp_memcpy": 14}, cost=3 if t in (5, 6, 7, 8, 9, 10) else 1)
    j(TYPES[t] + "_cross", "h_rt.c", "h_rt", CODEC, defs=d + ["CROSS"], unwind=13,
      unwindset={"vp_memcpy": 14}, cost=3 if t in (5, 6, 7, 8, 9, 10) else 1)

j = prop("C03", "every payload of up to 13 bytes for 32/64-bit integers, 8 for strings and buffers, 7 for the others, 4 for a generic walk "
         "over all readers; any content", "longer payloads (sizes that need more than 3 length bytes to be satisfied)")
for t in range(1, 14):
    if t in (5, 6, 7, 8):
        rng = ((0, 4), (6, 6), (11, 11), (12, 12), (13, 13))
    elif t in (9, 10):
        rng = ((0, 5), (6, 6), (8, 8))
    else:
        rng = ((0, 11 if t == 12 else 7),)
    for lo, hi in rng:
        j("%s_%d" % ((TYPES + ["fd"])[t], hi), "h_decode.c", "h_decode", CODEC, unwind=hi + 2, shift=True,
          unwindset={"one": 14, "vp_memcpy": HDR + 15, "ref_vi": 15},
          defs=["TYPE=%d" % t, "LMIN=%d" % lo, "LMAX=%d" % hi] + (["REACH_GOOD"] if t < 13 else []))
for l in (0, 1, 2, 3, 4):
    j("walk_%d" % l, "h_decode.c", "h_walk", CODEC, unwind=l + 2, defs=["WALK", "LMIN=%d" % l, "LMAX=%d" % l], shift=True, unwindset={"h_walk": 14, "vp_memcpy": 18})

j = prop("C04", "every conversion with every value, writing and reading; strings and buffers up to 3 bytes; every format of up to 4 "
         "characters that is not a conversion; a failure after 0 to 16 strings were read",
         "formats of more than 4 unsupported characters; several different conversions in one format (covered pairwise with a string)")
SPECS = [("hhd", "signed char", "i8", "%hd"), ("hhi", "signed char", "i8", "%hhu"), ("hhu", "unsigned char", "u8", "%u"),
         ("hd", "short", "i16", "%hu"), ("hi", "short", "i16", "%d"), ("hu", "unsigned short", "u16", "%hd"),
         ("d", "int", "i32", "%u"), ("i", "int", "i32", "%lld"), ("u", "unsigned int", "u32", "%d"),
         ("ld", "long", "i64", "%lu"), ("li", "long", "i64", "%d"), ("lu", "unsigned long", "u64", "%ld"),
         ("lld", "long long", "i64", "%llu"), ("lli", "long long", "i64", "%f"), ("llu", "unsigned long long", "u64", "%lf")]
FSPECS = [(c, "float", "f32", "%lf", 32) for c in "fFeEgG"] + [("l" + c, "double", "f64", "%f", 64) for c in "fFeEgG"]
for sp, vt, nm, other in SPECS:
    j("spec_" + sp, "h_fmt.c", "h_fmt_one", CODEC, unwind=13, unwindset={"vp_memcpy": 14, "same": 26},
      defs=["VP_STEP=64", "VP_LADDER=1", 'SPEC="%%%s"' % sp, "VT=%s" % vt, "NAME(x)=x##%s" % nm, 'OTHER="%s"' % other,
            "PT=" + (vt if vt.replace("unsigned ", "") in ("long", "long long", "unsigned int") else "unsigned int" if "unsigned" in vt else "int")])
for sp, vt, nm, other, w in FSPECS:
    j("spec_" + sp, "h_fmt.c", "h_fmt_one", CODEC, unwind=13, unwindset={"vp_memcpy": 14, "same": 26},
      defs=["VP_STEP=64", "VP_LADDER=1", 'SPEC="%%%s"' % sp, "VT=%s" % vt, "NAME(x)=x##%s" % nm, 'OTHER="%s"' % other, "FLT=%d" % w, "PT=double"])
FM = ["VP_STEP=64", "VP_LADDER=1", "VP_SMALL=4"]
FX = dict(unwind=13, unwindset={"vp_memcpy": 14, "same": 34}, fs=True)
for n in (0, 1, 3):
    j("buf%d" % n, "h_fmt.c", "h_fmt_buf", CODEC, defs=FM + ["FIXLEN=%d" % n], **FX)
for n, m in ((0, 0), (0, 3), (2, 1), (3, 0)):
    j("str%d%d" % (n, m), "h_fmt.c", "h_fmt_str", CODEC, defs=FM + ["VP_STRLEN", "FIXLEN=%d" % n, "FIXLEN2=%d" % m], **FX)
for w in range(11):
    j("strerr%d" % w, "h_fmt.c", "h_fmt_strerr", CODEC, unwind=13, unwindset={"vp_memcpy": 26, "same": 34}, fs=True, defs=FM + ["WHICH=%d" % w])
j("many", "h_fmt.c", "h_fmt_many", CODEC, unwind=19, unwindset={"vp_memcpy": 65}, fs=True, defs=FM)
for wr in ("wr", "rd"):
    for pct, f1, f2, l in ((0, 0, 0, 3), (1, 0, 0, 4), (1, "'l'", 0, 4), (1, "'h'", 0, 4), (1, "'l'", "'l'", 4), (1, "'h'", "'h'", 4)):
        nm = "".join(x.strip("'") for x in (f1, f2) if x)
        j("bad_%s_%s%s" % (wr, "pct" if pct else "lit", nm), "h_fmt.c", "h_fmt_bad", CODEC, unwind=8,
          unreached=["pomp_encoder_write_%s" % x if wr == "wr" else "pomp_decoder_read_" + {"buf": "cbuf"}.get(x, x) for x in TYPES[1:] + ["fd"]], unwindset={"vp_memcpy": 14},
          defs=FM + ["PCT=%d" % pct, "FLEN=%d" % l, "FLAG(i)=((i)==1?(%s):(i)==2?(%s):0)" % (f1, f2)] + (["WR"] if wr == "wr" else []))

PROT = ["pomp_prot.c"] + CODEC
j = prop("C05", "two messages with payloads of 1 and 0, 0 and 2 bytes (any content, any id), cut at every two "
         "positions, messages destroyed or given back to the parser; deeper: payloads 3+1 and 5+4",
         "longer payloads; more than two cuts inside one parse (each cut pair starts from the state an uncut prefix leaves)")
PU = dict(unwind=10, fs=256, checks=False, unwindset={"h_cuts": 50, "feed": 4, "got": 50, "setup": 50, "vp_memcpy": 50, "vp_memset": 50})
for la, lb, keep, tier in ((1, 0, 0, "both"), (0, 2, 1, "both"), (3, 1, 0, "thorough"), (5, 4, 1, "thorough")):
    n = 24 + la + lb
    k = 0
    while k <= n:
        k2 = k
        while k2 < n and sum(n - x + 1 for x in range(k, k2 + 1)) < 45:
            k2 += 1
        j("cuts%d%d_%d" % (la, lb, k), "h_prot.c", "h_cuts", PROT, tier=tier, defs=["VP_STEP=64", "VP_LADDER=1", "VP_MEMSET", "CUTS",
          "LA=%d" % la, "LB=%d" % lb, "KLO=%d" % k, "KHI=%d" % k2, "KEEP=%d" % keep], **PU)
        k = k2 + 1

j = prop("C06", "junk of every kind listed in the statement (up to 3 free bytes) before one message with a 1-byte payload; any 14 "
         "bytes cut at every position; any single allocation failure",
         "longer junk; payloads longer than 2 bytes; message sizes between 65 and 1024 bytes")
GU = dict(cbmc=["--paths", "lifo"], checks=False, unwind=10, fs=64, unwindset={"h_garbage": 14, "h_any": 16, "feed_raw": 4, "vp_memcpy": 20, "vp_memset": 70})
GD = ["VP_STEP=64", "VP_LADDER=1", "VP_MEMSET", "VP_BIGFAIL"]
for g in range(4):
    for cut in (0, 1, 2):
        j("junk%d_%d" % (g, cut), "h_prot.c", "h_garbage", PROT, defs=GD + ["GARBAGE=%d" % g, "CUT=%d" % (cut + g), "JUNK=1"] + (["FIXID=1"] if g else []), **GU)
for n, sz in enumerate([str(x) for x in range(12)] + ["1025", "0x1000c", "0x0c000000u", "0x80000000u", "0xffffffffu"]):
    j("size%d" % n, "h_prot.c", "h_garbage", PROT, defs=GD + ["GARBAGE=4", "SIZE=" + sz, "CUT=%d" % (12 if n % 2 else 5)], **GU)
for g in range(3):
    j("nomem%d" % g, "h_prot.c", "h_garbage", PROT, defs=GD + ["GARBAGE=%d" % (6 + g)], **GU)

j = prop("C08", "any single operation from any state of a buffer (any length and content, capacity 0, 4 or 8 with allocation steps of 4 bytes), "
         "any 64-bit position, length and capacity argument, any reference count, failing allocation; sequences follow by induction over this state",
         "contents above 19 bytes; POMP_BUFFER_ALLOC_STEP is compiled as 4 instead of 1024")
BD = ["VP_STEP=4", "VP_LADDER=4", "VP_BIGFAIL", "VP_SMALL=8", "VP_BYTECOPY"]
BU = dict(unwind=19, unwindset={"vp_memcpy": 18})
for op, nm in ((0, "write"), (1, "append"), (2, "read"), (3, "size"), (4, "appbuf")):
    for cap in (0, 4, 8):
        if op == 2 and cap == 0:
            continue
        j("%s%d" % (nm, cap), "h_buf.c", "h_" + nm, ["pomp_buffer.c"], defs=BD + ["OP=%d" % op, "CAP=%d" % cap], **BU)
j("new", "h_buf.c", "h_new", ["pomp_buffer.c"], defs=BD + ["OP=5"], **BU)

j = prop("C09", "1 to 5 descriptors per message, with and without other arguments in between; each single failing dup or allocation "
         "in a write or a copy; release by clear, destroy or last buffer reference",
         "descriptors whose bytes the application overwrites or truncates through the raw buffer calls; more than one failure")
FDD = ["VP_SYS", "VP_EXACT", "VP_STEP=64", "VP_LADDER=1", "VP_MEMSET"]
FDU = dict(unwind=8, fs=64, lib=["vp_sys.c"], unwindset={"vp_realloc": 66, "vp_memset": 80, "vp_memcpy": 70, "vp_open_count": 48})
for n in (1, 4, 5):
    j("write%d" % n, "h_fd.c", "h_fd", CODEC, defs=FDD + ["NFDS=%d" % n] + (["WFAILS"] if n > 4 else []) + (["GAPS"] if n == 4 else []), **FDU)
for n, d in ((2, ["SHARE", "FMT"]), (4, ["SHARE", "NEG"]), (3, ["GAPS", "FMT"])):
    j("share%d" % n, "h_fd.c", "h_fd", CODEC, defs=FDD + ["NFDS=%d" % n] + d, **FDU)
for f in range(4):
    j("dupfail%d" % f, "h_fd.c", "h_fd", CODEC, defs=FDD + ["NFDS=4", "GAPS", "FAIL=%d" % f, "WFAILS"], **FDU)
    j("copydup%d" % f, "h_fd.c", "h_fd", CODEC, defs=FDD + ["NFDS=4", "CFAIL=%d" % f, "CFAILS"], **FDU)
j("nomem0", "h_fd.c", "h_fd", CODEC, defs=FDD + ["NFDS=1", "AFAIL=0", "WFAILS"], **FDU)
for f in range(1, 3):
    j("nomem%d" % f, "h_fd.c", "h_fd", CODEC, defs=[x.replace("=64", "=16") for x in FDD if "LADDER" not in x] + ["NFDS=4", "GAPS", "AFAIL=%d" % f, "WFAILS", "VP_LADDER=4"], **FDU)
for f in range(3):
    j("copymem%d" % f, "h_fd.c", "h_fd", CODEC, defs=FDD + ["NFDS=3", "CAFAIL=%d" % f, "CFAILS", "SHARE"], **FDU)

j = prop("C07", "every sequence of 4 calls among init, write, finish, clear, pomp_msg_write, copy (the last one possibly with a "
         "failing allocation), any ids and values; buffers of 0 to 14 bytes with any content; deeper: sequences of 5",
         "longer sequences; longer buffers")
LD = ["VP_STEP=64", "VP_LADDER=1", "VP_EXACT", "VP_MEMSET"]
LU = dict(unwind=16, fs=64, checks=False, unwindset={"vp_realloc": 66, "vp_memset": 80, "vp_memcpy": 70, "h_life": 200})
for k in range(0, 2592, 108):
    j("life%d" % k, "h_msg.c", "h_life", CODEC, defs=LD + ["LEN=4", "SLO=%d" % k, "SHI=%d" % (k + 108)], **LU)
for n in (0, 8, 11, 12, 13, 14):
    j("frombuf%d" % n, "h_msg.c", "h_frombuf", CODEC, defs=LD + ["BLEN=%d" % n], cost=3, cbmc=["--paths", "lifo"], **LU)

LOOP = ["pomp_loop.c", "pomp_evt.c", "pomp_watchdog.c"]
j = prop("C15", "any operation with any masks from every ordered registration of up to 3 descriptors (two in one hash bucket), with the system call or the "
         "allocation failing; one round with every order of every ready subset, any masks, and a callback doing any operation (quick: some of the states and orders); deeper: all of them, two acting callbacks. epoll and poll",
         "more than 16 descriptors ready at once; a descriptor number closed and registered again within one round; Windows")
ED = ["VP_SYS", "VP_EXACT", "VP_MEMSET"]
EU = dict(unwind=20, fs=256, checks=False, lib=["vp_sys.c"], unwindset={"vp_memset": 260, "pomp_loop_destroy": 130, "vp_realloc": 70,
          "pomp_loop_poll_do_wait_and_process": 130, "pomp_loop_linux_do_destroy": 130})
QMAP = {"epoll": (0, 1, 4, 6, 10, 13), "poll": (4, 7, 10, 15)}
QDISP = {"epoll": (3, 6, 7, 10, 11, 14), "poll": (3, 8)}
for im, dd in (("epoll", []), ("poll", ["POLLIMPL"])):
    for s in range(16):
        j("map_%s%d" % (im, s), "h_loop.c", "h_map", LOOP, tier="both" if s in QMAP[im] else "thorough",
          defs=ED + dd + ["MAP", "SLO=%d" % s, "SHI=%d" % (s + 1)], **EU)
    for o in range(15):
        for two in (0, 1):
            j("disp%s_%s%d" % ("2" if two else "", im, o), "h_loop.c", "h_disp", LOOP, tier="both" if not two and o in QDISP[im] else "thorough",
              defs=ED + dd + ["DISP", "OLO=%d" % o, "OHI=%d" % (o + 1), "STATE=%d" % (10 + o % 6)] + (["TWO"] if two else []), **EU)
    j("misc_%s" % im, "h_loop.c", "h_misc", LOOP, defs=ED + dd + ["MISC"], **EU)
