"""What every check explores: one symbolic-execution job per harness, configuration and parameter set."""


def J(h, cfg="OFF", t=60, tt=None, defs=(), labels=(), tiers=("quick", "thorough"), nd=False, audit=5, args=(), **p):
    return dict(h=h, cfg=cfg, t=t, tt=tt or t * 4, defs=list(defs), labels=list(labels), tiers=tiers, nd=nd, audit=audit, args=list(args), p=p)


Q = ("quick",)
TH = ("thorough",)
PROPS = {}


def P(pid, bounds, jobs, **kw):
    PROPS[pid] = dict(bounds=bounds, jobs=jobs, **kw)


def FW(code, ty="uint32_t", **kw):
    kw.setdefault("labels", ["decoded"])
    return J("fec_word", defs=["-DCODE=%d" % code, "-DTY=%s" % ty], **kw)


def FN(ty, **kw):
    kw.setdefault("labels", ["decoded"])
    return J("fec_word", defs=["-DCODE=7", "-DTY=%s" % ty, "-DNOINIT=int"], **kw)


def FB(code, ty="uint32_t", **kw):
    kw.setdefault("labels", ["refused"] if kw.get("fewer") else ["decoded"])
    return J("fec_blocks", defs=["-DCODE=%d" % code, "-DTY=%s" % ty], **kw)


def FC(**kw):
    kw.setdefault("labels", [["decoded"], ["rebuilt"], ["refused"], ["metadata full"], ["bad metadata accepted"]][kw.get("what", 0)])
    kw.setdefault("nd", True)
    return J("c_api", **kw)


# ---------------------------------------------------------------- erasure codes
P("P01", "one symbolic word per fragment (word interface: every word; block interface: one word position of the block, chosen freely), k<=4 data and m<=3 parity fragments, word sizes 1 and 2, blocks of up to 8 words, packets of 2..8 words; every choice of k survivors (6..8 of them spread evenly where there are more)", [
    FW(1, k=3, m=2, ws=1),
    FW(1, "uint16_t", k=3, m=2, ws=1, cfg="AVX"),
    FW(1, k=3, m=2, ws=2, subsets=6, t=90),
    FW(1, k=2, m=2, ws=2, offset=7),
    FB(1, k=2, m=1, ws=1, anypos=1, words=6),
    FB(1, k=2, m=2, ws=2, anypos=1, words=7, subsets=3),
    FB(1, k=2, m=2, ws=2, anypos=1, words=7, subsets=3, cfg="AVX"),
    FB(1, k=3, m=2, ws=2, words=7, pkt=4, subsets=4, cfg="SSE"),
    FB(1, "uint16_t", k=3, m=2, ws=1, words=7, pkt=4, subsets=4, cfg="AVX"),
    FB(1, k=3, m=2, ws=2, words=7, pkt=4, anypos=1, tiers=TH, t=200),
    FB(1, k=3, m=3, ws=2, words=9, pkt=4, subsets=8, tiers=TH, t=200, cfg="AVX"),
    FB(1, k=4, m=2, ws=1, words=5, pkt=2, tiers=TH, t=150, cfg="AVX"),
    FW(1, k=5, m=3, ws=1, subsets=12, tiers=TH, t=150),
    FW(1, k=4, m=4, ws=2, subsets=12, tiers=TH, t=150),
])
P("P02", "one symbolic word position per data fragment, k<=4, m<=3, word sizes 1 and 2, blocks of up to 7 words, packets of 4 words", [
    FB(1, k=2, m=1, ws=2, sys=1, anypos=1, words=6),
    FB(1, k=3, m=2, ws=2, sys=1, words=7),
    FB(1, k=3, m=2, ws=2, sys=1, words=7, cfg="AVX"),
    FB(1, k=3, m=2, ws=1, sys=1, words=7, cfg="AVX"),
    FB(1, "uint16_t", k=2, m=2, ws=1, sys=1, words=6, anypos=1, cfg="SSE"),
    FB(1, k=4, m=2, ws=2, sys=1, words=6, subsets=6),
    FB(1, k=2, m=3, ws=2, sys=1, words=6),
    FB(1, k=3, m=3, ws=2, sys=1, words=9, anypos=1, tiers=TH, t=200, cfg="AVX"),
    FB(1, k=4, m=4, ws=1, sys=1, words=5, subsets=16, tiers=TH, t=200, cfg="AVX"),
    FB(1, k=5, m=3, ws=2, sys=1, words=5, subsets=16, tiers=TH, t=200),
])
GF2 = "every data word symbolic over its whole range; all survivor sets of the (k,m) listed in the jobs; word sizes 1 and 2 bytes"
P("P03", GF2, [
    FW(2, k=3, m=2, ws=1), FW(2, k=3, m=2, ws=2), FW(2, k=4, m=3, ws=1), FW(2, k=2, m=4, ws=1), FW(2, k=1, m=2, ws=2), FW(2, "uint64_t", k=3, m=2, ws=1),
    FW(2, k=5, m=3, ws=1, t=100), FW(2, k=5, m=3, ws=2, subsets=10, t=100),
    FW(2, k=6, m=4, ws=1, subsets=60, tiers=TH, t=150), FW(2, k=8, m=3, ws=2, subsets=20, tiers=TH, t=200)])
P("P04", GF2, [
    FW(3, k=3, m=2, ws=1), FW(3, k=3, m=2, ws=2), FW(3, k=4, m=3, ws=1), FW(3, k=2, m=4, ws=1), FW(3, k=1, m=2, ws=2), FW(3, "uint64_t", k=3, m=2, ws=1),
    FW(3, k=5, m=3, ws=1, t=100), FW(3, k=5, m=3, ws=2, subsets=10, t=100),
    FW(3, k=6, m=4, ws=1, subsets=60, tiers=TH, t=150), FW(3, k=8, m=3, ws=2, subsets=20, tiers=TH, t=200)])
P("P05", GF2, [
    FW(4, k=3, m=2, ws=1), FW(4, k=3, m=2, ws=2), FW(4, k=2, m=1, ws=1), FW(4, "uint64_t", k=3, m=3, ws=1), FW(4, k=5, m=3, ws=1, subsets=20, t=100),
    FW(4, k=6, m=4, ws=1, subsets=60, tiers=TH, t=150), FW(4, k=5, m=3, ws=2, tiers=TH, t=200)])
P("P06", GF2, [
    FW(5, k=3, m=2, ws=1), FW(5, k=3, m=2, ws=2), FW(5, k=2, m=1, ws=1), FW(5, "uint64_t", k=3, m=3, ws=1), FW(5, k=5, m=3, ws=1, subsets=20, t=100),
    FW(5, k=6, m=4, ws=1, subsets=60, tiers=TH, t=150), FW(5, k=5, m=3, ws=2, tiers=TH, t=200)])
P("P07", "every data word symbolic over its whole range, word size 1 (field of 257 elements) and 2 (65537), k<=4, m<=3; word size 4 needs 64-bit arithmetic modulo a 32-bit prime and is outside", [
    FW(6, k=3, m=2, ws=1), FW(6, k=2, m=2, ws=1), FW(6, k=2, m=2, ws=2), FW(6, k=3, m=2, ws=2, subsets=5), FW(6, "uint64_t", k=2, m=1, ws=1),
    FW(6, k=4, m=3, ws=1, subsets=12, tiers=TH, t=150), FW(6, k=4, m=2, ws=2, tiers=TH, t=150)])
P("P08", "every data word symbolic, word size 2 (one subfield element per word), k<=3, m<=2, blocks of up to 6 words; two and three elements per word through the word interface only, four only through the field operations (P15)", [
    FN("uint64_t", k=2, m=1, ws=4), FN("uint64_t", k=2, m=2, ws=4, subsets=4), FN("__uint128_t", k=2, m=1, ws=4), FN("__uint128_t", k=2, m=1, ws=6), FN("__uint128_t", k=2, m=1, ws=6, cfg="AVX"),
    FN("__uint128_t", k=3, m=2, ws=4, subsets=6, tiers=TH, t=200), FN("__uint128_t", k=2, m=2, ws=6, subsets=6, cfg="AVX", tiers=TH, t=200),
    FW(7, k=2, m=1, ws=2), FW(7, k=2, m=2, ws=2), FW(7, k=3, m=1, ws=2), FB(7, k=2, m=1, ws=2, words=6), FB(7, k=2, m=1, ws=2, words=5, anypos=1, pkt=2),
    FW(7, "uint64_t", k=2, m=1, ws=2), FB(7, k=2, m=2, ws=2, words=7, pkt=2, tiers=TH, t=200), FW(7, k=3, m=2, ws=2, tiers=TH, t=200)])
P("P09", "every set of k-1 (and k-2) survivors for the (k,m) of the jobs; any data", [
    FB(1, k=3, m=2, ws=2, words=5, fewer=1), FB(1, k=3, m=2, ws=2, words=5, fewer=1, sys=1), FB(1, k=3, m=2, ws=1, words=5, fewer=2, sys=1), FB(7, k=2, m=2, ws=2, words=5, fewer=1),
    FB(1, k=3, m=2, ws=2, words=5, fewer=2), FC(k=2, m=2, what=2), FC(k=2, m=2, what=2, sys=0), FC(k=3, m=1, what=2, ws=1), FB(1, k=4, m=3, ws=1, words=5, fewer=1, sys=1, cfg="AVX", subsets=20)])
P("P10", "one symbolic word position of the block per data fragment, k<=4, m<=3 (one job: k=12, m=6), word sizes 1 and 2, blocks of up to 15 words, and blocks of 1030 and 2050 words with symbolic words next to a packet boundary", [
    FC(k=2, m=1, ws=1, words=1030, pos=1027, marks=400, cfg="AVX"), FC(k=2, m=2, ws=2, sys=0, words=2050, pos=1023, nsym=2, nfrag=1, marks=400, subsets=2, cfg="AVX"), FC(k=12, m=6, ws=1, nfrag=1, subsets=2, cfg="AVX"),
    FC(k=2, m=2, ws=2), FC(k=2, m=2, ws=2, sys=0), FC(k=3, m=1, ws=2), FC(k=3, m=1, ws=2, sys=0), FC(k=2, m=2, ws=1, cfg="AVX"), FC(k=2, m=2, ws=1, sys=0, cfg="SSE"),
    FC(k=2, m=2, ws=2, encwant=1), FC(k=2, m=2, ws=2, sys=0, encwant=1), FC(k=2, m=1, ws=2, keep=3), FC(k=2, m=2, ws=2, anypos=1, words=4, subsets=3, cfg="AVX"),
    FC(k=3, m=3, ws=2, words=5, subsets=10, tiers=TH, t=200), FC(k=4, m=2, ws=1, words=5, subsets=10, tiers=TH, t=200, cfg="AVX"), FC(k=3, m=2, sys=0, words=6, anypos=1, tiers=TH, t=200)])
P("P11", "one symbolic word position of the block per data fragment, k<=3, m<=2, every lost fragment as destination, word sizes 1 and 2, blocks of 2 to 4 words and (one job) of 1030 words", [
    FC(k=2, m=2, ws=2, words=1030, pos=1023, nsym=2, nfrag=1, marks=400, subsets=2, what=1, cfg="AVX"),
    FC(k=2, m=2, ws=2, what=1), FC(k=2, m=2, ws=2, what=1, sys=0), FC(k=3, m=1, ws=2, what=1), FC(k=2, m=2, ws=1, what=1, cfg="AVX"), FC(k=2, m=2, ws=2, what=1, cfg="SSE"),
    FC(k=2, m=2, ws=2, what=1, encwant=0, anypos=1, words=4, subsets=3), FC(k=3, m=2, ws=1, what=1, words=3, subsets=4, tiers=TH, t=200), FC(k=4, m=1, ws=2, what=1, tiers=TH, t=200), FC(k=2, m=3, ws=2, what=1, sys=0, tiers=TH, t=200)])


def PR(what, **kw):
    return J("props", labels=[["refused", "round trip"], ["accepted", "rejected"], ["looked up"], ["sorted"]][what], what=what, **kw)


P("P12", "up to 4 (thorough 6) markers at any 32-bit locations, areas of 0 to 8 (10) dwords, every content of an area", [
    PR(0), PR(1), PR(2), PR(3), FC(k=2, m=1, ws=2, sys=0, what=3, words=14), FC(k=2, m=1, ws=2, sys=0, what=3, words=15),
    PR(0, n=6, tiers=TH), PR(1, n=6, tiers=TH), PR(2, n=6, tiers=TH)])


# ---------------------------------------------------------------- fields
def GP(p, what, ty="uint32_t", **kw):
    return J("gf", labels=[["ops"], ["inv"], ["exp"], ["log"], ["order"], ["roots"], ["residue"]][what], defs=["-DTY=" + ty], p=p, what=what, **kw)


def GX(n, what, ty="uint32_t", **kw):
    return J("gf", labels=[["ops"], ["inv"], ["root"], ["log"], ["exp"]][what], defs=["-DTY=" + ty], ext=1, n=n, what=what, **kw)


def NF(what, ty, cfg="OFF", **kw):
    return J("nf4", labels=[["add"], ["mul"], ["inv"], ["pack"], ["roots"]][what], defs=["-DTY=" + ty], cfg=cfg, what=what, **kw)


P("P13", "moduli 3, 17, 31, 257, 65521, 65537, 4294967291 and (64-bit words, no product) 4294991873; every element (pair of elements) symbolic; logarithms for moduli 17 and 31; exponents 0..16 and next to the order; root and code-length requests up to 300", [
    GP(257, 0), GP(65537, 0), GP(65537, 0, cfg="AVX"), GP(31, 0), GP(3, 0), GP(4294967291, 0), GP(65521, 0, "uint16_t"), GP(4294991873, 0, "uint64_t", mul=0),
    GP(257, 1), GP(65537, 1), GP(17, 1), GP(257, 2), GP(65537, 2), GP(17, 3), GP(31, 3), GP(257, 4), GP(31, 4), GP(65537, 4), GP(257, 5), GP(31, 5), GP(65537, 5, N=300), GP(17, 6), GP(31, 6),
    GP(31, 1, "__uint128_t"), GP(257, 0, "__uint128_t"), GP(65537, 2, "__uint128_t"), GP(31, 4, "__uint128_t"), GP(257, 1, "__uint128_t", tiers=TH, t=100),
    GP(97, 4, tiers=TH), GP(97, 1, tiers=TH), GP(193, 5, tiers=TH), GP(61, 3, tiers=TH, bases=12), GP(61, 6, tiers=TH), GP(65537, 5, N=2000, tiers=TH)])
P("P14", "fields of 2^2, 2^3, 2^4, 2^8, 2^16, 2^32, 2^64 elements; products: one factor symbolic, the other any element (n<=8) or one of n+6 constants spanning the bits; inverses: every element (n<=16), every element with one non-zero byte (n=32, 64); logarithms and orders: n<=8; words exactly as wide as a field of up to 16 bits are outside", [
    GX(2, 0), GX(3, 0), GX(4, 0), GX(8, 0), GX(16, 0), GX(32, 0, "uint64_t"), GX(64, 0, "uint64_t"), GX(8, 0, "uint64_t"),
    GX(4, 1), GX(8, 1), GX(16, 1), GX(4, 2), GX(8, 2), GX(16, 2, E=100), GX(4, 3), GX(8, 3), GX(4, 4), GX(8, 4), GX(16, 4),
    GX(64, 1, "uint64_t", t=100), GX(32, 1, "uint64_t", t=150, tiers=TH), GX(32, 2, "uint64_t", E=60, tiers=TH), GX(64, 2, "uint64_t", E=60, tiers=TH)])
P("P15", "groups of 1, 2 and 4 elements in words of 32, 64 and 128 bits, every element symbolic; scalar and AVX builds; exponents and roots as listed in the harness; the brute-force root search of the base class is skipped", [
    NF(w, t, c) for w in range(5) for t, c in (("uint64_t", "OFF"), ("__uint128_t", "OFF"), ("__uint128_t", "AVX"))] + [
    NF(w, "uint32_t") for w in (0, 1, 3)] + [NF(w, "__uint128_t", n=3) for w in (0, 1, 3)] + [NF(w, "__uint128_t", "SSE", tiers=TH) for w in range(5)])


def KE(what, cfg="AVX", ty="uint32_t", p=65537, **kw):
    return J("kern", labels=[["neg"], ["mul"], ["add"], ["sub"], ["coef"], ["lists"]][what], defs=["-DTY=" + ty], cfg=cfg, what=what, p=p, **kw)


P("P16", "buffers of 9, 19, 43 (83 for 16-bit words) elements plus a guard, a window of 3 symbolic elements at every position; the second operand is symbolic for sums, differences (and, modulo 257, products), and runs over 50 values (special values, powers of two, fillers) elsewhere; moduli 257, 65537 and foreign ones; OFF, SSE and AVX builds; multiplying a buffer by p-1 directly is outside (documented precondition of the kernel)", [
    KE(w, c, t, p, **kw) for w in range(6) for c, t, p, kw in (("AVX", "uint32_t", 65537, {}), ("SSE", "uint16_t", 257, {"len": 19 if w != 5 else 9}), ("AVX", "uint16_t", 257, {"len": 35, "w": 2}), ("SSE", "uint32_t", 65537, {"len": 9}))] + [
    KE(w, "OFF", **({"len": 9})) for w in range(6)] + [
    KE(4, len=43, consts=50), KE(4, ty="uint16_t", p=257, len=83, consts=50), KE(4, "SSE", len=43, consts=50), KE(1, consts=50), KE(1, ty="uint16_t", p=257, consts=48), KE(1, swap=1), KE(3, swap=1), KE(2, both=1), KE(3, both=1),
    KE(1, "SSE", "uint16_t", 257, both=1, w=1, len=9), KE(1, "AVX", "uint16_t", 257, both=1, w=1, len=17, tiers=TH, t=150),
    KE(0, p=257), KE(1, p=97, len=9), KE(2, p=4294967291, len=9), KE(3, p=4294967291, len=9), KE(4, p=193, len=9), KE(2, ty="uint16_t", p=65521, len=9), KE(4, ty="uint16_t", p=193, len=9), KE(0, "SSE", p=257, len=9), KE(1, "SSE", "uint64_t", 65537, len=5),
] + [KE(w, c, t, p, len=n, consts=50, tiers=TH) for w in (1, 2, 3) for c, t, p in (("AVX", "uint32_t", 65537), ("SSE", "uint32_t", 65537), ("AVX", "uint16_t", 257)) for n in (43, 67)])


# ---------------------------------------------------------------- transforms
def FT(kind, n, cfg="OFF", ty="uint32_t", **kw):
    return J("fft", labels=["buffers" if kw.get("pkt") else "vector"], defs=["-DTY=" + ty] + (["-DEXT"] if kw.get("ext") else []), cfg=cfg, kind=kind, n=n, **kw)


P("P17", "moduli 257 and 65537, lengths 1 to 64 (every declared and actual input length up to 16), all elements symbolic (Vector interface) or one symbolic position per buffer (Buffers interface, packets of 1 to 17 elements); scalar, SSE, AVX builds", [
    FT(0, 1), FT(0, 2, anylen=1), FT(0, 4, anylen=1), FT(0, 8, anylen=1), FT(0, 16, anylen=1, rounds=1, t=100), FT(0, 32), FT(0, 64), FT(0, 16, ty="uint64_t"), FT(0, 32, p=257), FT(0, 16, ty="uint16_t", p=257), FT(0, 16, p=97),
    FT(0, 2, pkt=2, anylen=1, iin=1), FT(0, 4, pkt=2, anylen=1, iin=1, rounds=1), FT(0, 8, pkt=1, anylen=1, iin=1, rounds=1, t=100), FT(0, 8, "AVX", pkt=11), FT(0, 8, "SSE", pkt=7), FT(0, 8, "AVX", "uint16_t", p=257, pkt=19), FT(0, 8, "SSE", "uint16_t", p=257, pkt=9, anylen=1, rounds=1), FT(0, 8, "AVX", p=257, pkt=9),
    FT(0, 16, "AVX", "uint16_t", p=257, pkt=17, rounds=1), FT(0, 16, "AVX", data=5, **{"in": 3}, pkt=9), FT(0, 16, "SSE", data=8, **{"in": 7}, pkt=5), FT(0, 8, "AVX", pkt=8, anylen=1, rounds=1, t=100), FT(0, 32, "AVX", pkt=9, rounds=1, data=8, t=100), FT(0, 4, "AVX", pkt=9, anylen=1, iin=1, rounds=1),
    FT(0, 8, "AVX", pkt=9, anylen=1, iin=1, rounds=1, tiers=TH, t=200), FT(0, 16, pkt=1, anylen=1, iin=1, rounds=1, tiers=TH, t=200), FT(0, 128, tiers=TH, t=100), FT(0, 64, "AVX", pkt=9, rounds=1, data=16, t=200, tiers=TH), FT(0, 16, "SSE", pkt=5, anylen=1, rounds=1, t=200, tiers=TH)])
P("P18", "the transforms of sizes 2, n = 1 value, Cooley-Tukey, Good-Thomas, by definition and the one built on bit matrices, for lengths up to 64 (prime fields of 29 to 65537 elements) and up to 85 (fields of 2^8, 2^16 elements), every element symbolic; Buffers interface where implemented", [
    FT(1, 2), FT(1, 2, pkt=3), FT(1, 2, "AVX", pkt=9), FT(1, 2, p=257, pkt=2), FT(2, 4), FT(2, 4, pkt=3), FT(2, 5, p=31), FT(2, 8, "AVX", pkt=9), FT(2, 6, ext=8, pkt=2),
    FT(3, 2), FT(3, 3, p=31), FT(3, 4), FT(3, 6, p=61), FT(3, 7, p=29), FT(3, 9, p=37), FT(3, 12, p=97), FT(3, 16), FT(3, 18, p=37), FT(3, 30, p=61), FT(3, 60, p=61), FT(3, 64), FT(3, 3, ext=8), FT(3, 5, ext=8), FT(3, 15, ext=8), FT(3, 51, ext=8), FT(3, 15, ext=4), FT(3, 17, ext=16, t=90), FT(3, 15, ty="uint64_t", ext=8),
    FT(4, 2), FT(4, 6, p=61), FT(4, 12, p=61), FT(4, 15, p=31), FT(4, 30, p=31), FT(4, 60, p=61), FT(4, 16, p=97), FT(4, 15, ext=8), FT(4, 51, ext=8), FT(4, 10, ty="uint64_t", p=31),
    FT(5, 8), FT(5, 7, p=29), FT(5, 15, ext=8), FT(5, 8, pkt=3), FT(5, 8, "AVX", pkt=9, rounds=1), FT(5, 15, ext=8, pkt=2), FT(5, 5, ext=4, pkt=2), FT(5, 12, p=37, pkt=2),
    FT(6, 2), FT(6, 4), FT(6, 16), FT(6, 32), FT(6, 16, ty="uint64_t"), FT(6, 8, p=257), FT(6, 8, p=17),
    FT(3, 85, ty="uint64_t", ext=8, tiers=TH, t=150), FT(3, 51, ext=16, tiers=TH, t=200), FT(4, 85, ext=8, tiers=TH, t=150), FT(6, 64, tiers=TH), FT(3, 126, p=127, tiers=TH, t=150), FT(4, 126, p=127, tiers=TH, t=150)])


def FA(what=0, **kw):
    ty = kw.pop("ty", "uint32_t")
    return J("fftadd", labels=[["transform"], ["expansion"], ["t2"]][what], defs=["-DTY=" + ty], what=what, **kw)


P("P19", "subspaces of dimension 1 to 6 of fields of 2^4, 2^8, 2^16 elements, default and given bases; the forward transform with every coefficient symbolic, its inverse with all values symbolic for dimension up to 3 and one or two symbolic values at every position beyond; expansions at x^t - x for t up to 9, lengths up to 16", [
    FA(m=1), FA(m=2), FA(m=3, anylen=1), FA(m=4, anylen=1), FA(m=5), FA(m=6), FA(m=3, basis=1), FA(m=4, basis=2), FA(m=4, basis=3), FA(m=4, ext=4), FA(m=4, ext=16), FA(m=4, ty="uint64_t"),
    FA(m=1, mode=1), FA(m=2, mode=1), FA(m=3, mode=1), FA(m=3, mode=1, w=3, anylen=1), FA(m=3, mode=1, w=2, basis=3), FA(m=3, mode=1, w=2, ext=16), FA(m=4, mode=1, w=1), FA(m=5, mode=1, w=1),
    FA(m=1, mode=2), FA(m=2, mode=2), FA(m=3, mode=2), FA(m=3, mode=2, w=2, basis=2), FA(m=4, mode=2, w=1), FA(m=5, mode=2, w=1), FA(m=4, mode=2, w=1, ext=4),
    FA(1, m=3), FA(1, m=4, T=9), FA(2, m=4), FA(1, m=5, T=17, tiers=TH), FA(m=6, mode=1, w=1, tiers=TH, t=150), FA(m=7, tiers=TH, t=150), FA(m=8, tiers=TH, t=200)])


def AR(what, ty="uint32_t", **kw):
    return J("arith", labels=[["sqrt"], ["pow2"], ["gcd"], ["exp"], ["expmod"], ["jacobi"], ["factors"], ["divisors"], ["crt"], ["ss"]][what], defs=["-DTY=" + ty], what=what, **kw)


P("P20", "square roots of every number up to 2^24 (2^16 - 1 for 16-bit words), powers of two up to 2^30, greatest common divisors of numbers up to 200, factorisations, divisors and code lengths of numbers up to 200 (16-bit: 300), modular exponentiation for moduli 1, 97, 65537 and 2^32 - 5, Jacobi symbols, Chinese remainders and primality by Solovay-Strassen for the small moduli of the harness", [
    AR(0, max=1048575), AR(0, "uint64_t", max=1048575), AR(0, max=16777215, t=90), AR(0, "uint16_t", max=65535), AR(1), AR(2, N=50), AR(2, N=200), AR(2, "uint64_t", N=50), AR(3),
    AR(4, m=97, B=300), AR(4, m=65537, B=65536), AR(4, "uint64_t", m=65537, B=150000), AR(4, m=4294967291, E=8), AR(4, m=1, B=100), AR(5), AR(6, N=200), AR(6, "uint16_t", N=300), AR(7, N=60, L=20), AR(7, "uint64_t", N=60, L=20), AR(8), AR(9, p=97), AR(9, p=31),
    AR(7, N=200, tiers=TH, t=120), AR(8, "uint64_t", tiers=TH, t=150), AR(2, N=600, tiers=TH, t=150), AR(6, N=1000, tiers=TH, t=150)])


# ---------------------------------------------------------------- containers, polynomials, matrices
def VE(what, ty="uint32_t", cfg="OFF", **kw):
    return J("vec", labels=[["arithmetic"], ["copies"], ["views"], ["buffers"], ["packing"]][what], defs=["-DTY=" + ty], cfg=cfg, what=what, **kw)


def PM(what, ext=0, ty="uint32_t", **kw):
    if ext:
        kw["ext"] = ext
    return J("polymat", labels=[["eval"], ["point"], ["mul"], ["plus"], ["matvec"], ["inverse", "refused"]][what], defs=["-DTY=" + ty] + (["-DEXT"] if ext else []), what=what, **kw)


P("P21", "vectors of up to 8 elements, lists of up to 6 buffers of up to 5 elements, every element symbolic, every offset, length and permutation of the harness; words of 1 to 16 bytes packed into elements of 32, 64 and 128 bits", [
    VE(0), VE(0, cfg="AVX"), VE(0, "uint64_t"), VE(0, cfg="SSE"), VE(1), VE(1, "uint64_t"), VE(2), VE(2, "uint64_t"), VE(3), VE(3, "uint64_t"), VE(3, cfg="AVX"),
    VE(4), VE(4, "uint64_t"), VE(4, "__uint128_t"), VE(4, cfg="AVX"), VE(3, "__uint128_t", tiers=TH), VE(1, "__uint128_t", tiers=TH)])
P("P22", "polynomials of degree up to 6 and matrices of up to 6 rows and columns over prime fields (7 to 65537) and GF(2^4), GF(2^8), GF(2^16): evaluation, derivative, product by X+c and matrix times vector with every coefficient symbolic; products of polynomials with both factors symbolic up to 4 coefficients; inverses of matrices of up to 4 rows with one symbolic entry at every place in fixed surroundings", [
    PM(0, p=257, n=6), PM(0, p=65537, n=6), PM(0, ext=8, n=6), PM(1, p=257, n=6), PM(1, p=65537, n=6), PM(1, ext=8, n=6), PM(3, p=257, n=6), PM(3, p=65537, n=6), PM(3, ext=8, n=6),
    PM(4, p=257, n=6), PM(4, p=65537, n=6), PM(4, ext=8, n=6), PM(0, ext=16, n=5), PM(3, ext=16, n=5), PM(4, ext=16, n=5),
    PM(2, p=257, n=3), PM(2, p=65537, n=3), PM(2, p=31, n=4), PM(2, ext=8, n=3), PM(2, ext=4, n=3), PM(2, ext=16, n=4), PM(2, ty="uint64_t", p=65537, n=3),
    PM(5, p=17, n=2), PM(5, p=31, n=2), PM(5, p=17, n=3, salts=1), PM(5, p=257, n=2, salts=1), PM(5, p=17, n=4, low=1), PM(5, p=7, n=3), PM(5, ext=8, n=4), PM(5, ext=4, n=4), PM(5, ext=16, n=2),
    PM(5, ext=8, n=5, tiers=TH, t=100), PM(5, p=31, n=4, low=1, salts=6, tiers=TH, t=150)])


# ---------------------------------------------------------------- streams, histories, hostile marks
def ST(code, ty="uint32_t", **kw):
    kw.setdefault("labels", ["refused"] if kw.get("fewer") else ["same"] if kw.get("compare") else ["decoded"])
    return J("streams", defs=["-DCODE=%d" % code, "-DTY=" + ty], **kw)


P("P23", "one (thorough: two) symbolic word position per data stream, streams of 1 to 9 words (also multiples of the packet size), packets of 2 to 8 words (another size for decoding), k<=3, m<=2, every set of survivors, any one stream not wanted; vertical interface for the codes that implement it (Fermat field, grouped), horizontal one for all codes; words of 1 and 2 bytes; stream lengths are multiples of the word size", [
    ST(1, cfg="AVX", k=2, m=2, ws=2, sys=0, vert=1, words=6, pkt=3, pkt2=2, anywords=1, subsets=3),
    ST(1, cfg="AVX", k=2, m=2, ws=2, sys=1, vert=1, words=6, pkt=3, pkt2=4, anywords=1, subsets=3),
    ST(1, cfg="SSE", k=3, m=1, ws=2, sys=1, vert=1, words=6, pkt=2, pkt2=4, anypos=1),
    ST(1, "uint16_t", cfg="AVX", k=3, m=2, ws=1, sys=1, vert=1, words=9, pkt=8, pkt2=3, wantall=1, wantmax=2),
    ST(1, k=2, m=1, ws=2, sys=0, vert=1, words=5, pkt=3, pkt2=2), ST(1, cfg="AVX", k=3, m=2, ws=2, sys=1, vert=1, words=5, fewer=1), ST(1, cfg="AVX", k=2, m=2, ws=1, sys=0, vert=1, words=6, pkt=3, pkt2=4, anywords=1),
    ST(7, cfg="AVX", k=2, m=1, ws=2, vert=1, words=6, pkt=3, pkt2=2, anywords=1, t=100), ST(7, k=2, m=1, ws=2, vert=0, words=3, nsym=2, t=100),
    ST(1, k=3, m=2, ws=1, sys=0, vert=0, words=5), ST(1, k=2, m=1, ws=2, sys=0, vert=0, words=4, anywords=1), ST(2, k=3, m=2, ws=2, vert=0, words=4, nsym=4, wantmax=3), ST(3, k=3, m=2, ws=1, vert=0, words=5, wantall=1, wantmax=3),
    ST(4, k=3, m=2, ws=1, vert=0, words=5, anywords=1), ST(5, k=3, m=2, ws=2, vert=0, words=3), ST(6, k=2, m=2, ws=1, vert=0, words=5), ST(6, k=2, m=1, ws=2, vert=0, words=4, anypos=1),
    ST(4, k=3, m=2, ws=2, vert=0, words=5, fewer=1), ST(2, k=3, m=2, ws=2, vert=0, words=5, fewer=1),
    # the systematic Fermat-field code has no encoding of single words: known finding F22
    ST(1, k=2, m=1, ws=1, sys=1, vert=0, words=2, labels=[]),
    ST(1, cfg="AVX", k=3, m=2, ws=2, sys=0, vert=1, words=5, pkt=3, nsym=2, tiers=TH, t=200), ST(1, cfg="AVX", k=3, m=2, ws=2, sys=1, vert=1, words=5, pkt=4, pkt2=2, nsym=2, tiers=TH, t=200), ST(6, k=3, m=2, ws=2, vert=0, words=3, tiers=TH, t=150), ST(2, k=4, m=3, ws=2, vert=0, words=4, nsym=4, tiers=TH, t=150)])
P("P24", "one symbolic word position per data block (among fixed ones, some of them with out-of-range symbols), streams and blocks of up to 17 words, every packet size from 1 to 9 (17), against packets of 3, 4 or 8 words; the interfaces (word by word, packet by packet, whole blocks) as far as the code implements them; word sizes 1 and 2", [
    ST(1, cfg="AVX", k=3, m=2, ws=2, sys=1, vert=1, words=7, pkt=3, compare=1, howmin=1, hows=2, others=9, anywords=1, t=100),
    ST(1, "uint16_t", cfg="AVX", k=3, m=2, ws=1, sys=0, vert=0, words=17, pkt=3, compare=1, howmin=1, hows=2, others=17),
    ST(1, cfg="AVX", k=2, m=2, ws=2, sys=0, vert=0, words=5, pkt=3, compare=1, howmin=0, hows=2, others=9, nsym=2),
    ST(1, cfg="SSE", k=3, m=3, ws=2, sys=0, vert=2, words=6, pkt=4, compare=1, howmin=0, hows=2, others=7, anypos=1, t=100),
    ST(1, cfg="AVX", k=4, m=3, ws=2, sys=1, vert=1, words=9, pkt=8, compare=1, howmin=1, hows=2, others=9),
    ST(1, k=2, m=2, ws=2, sys=1, vert=2, words=7, pkt=2, compare=1, howmin=1, hows=2, others=8, nsym=2),
    ST(7, cfg="AVX", k=2, m=2, ws=2, sys=0, vert=0, words=6, pkt=8, compare=1, howmin=0, hows=2, others=7), ST(7, k=3, m=2, ws=2, sys=0, vert=1, words=5, pkt=2, compare=1, howmin=0, hows=2, others=6),
    ST(1, "uint64_t", cfg="AVX", k=2, m=2, ws=2, sys=0, vert=1, words=6, pkt=3, compare=1, howmin=0, hows=2, others=9), ST(1, "uint16_t", cfg="SSE", k=2, m=2, ws=1, sys=1, vert=1, words=19, pkt=16, compare=1, howmin=1, hows=2, others=19),
    ST(1, cfg="AVX", k=2, m=2, ws=2, sys=1, vert=1, words=4, pkt=3, compare=1, howmin=1, hows=2, others=7, nsym=4, tiers=TH, t=200), ST(1, cfg="AVX", k=5, m=4, ws=2, sys=1, vert=1, words=9, pkt=8, compare=1, howmin=1, hows=2, others=9, tiers=TH, t=200)])
HM = dict(labels=["hostile marks survived"], words=5, pkt=4)
P("P25", "one surviving fragment with one or two marks at any 64-bit location and of any 32-bit kind beside its own ones (or, through the C interface, with any header, any count up to 3 and any location next to the ends of the packet); marks in reverse order; k<=3, m<=2, packets of 4 words (C interface: 1024)", [
    FB(1, k=2, m=1, ws=2, sys=0, hostile=2, nsym=0, **HM), FB(1, k=2, m=1, ws=2, sys=1, hostile=2, nsym=0, **HM), FB(1, k=2, m=1, ws=1, sys=0, hostile=1, nsym=1, cfg="AVX", **HM), FB(7, k=2, m=1, ws=2, hostile=1, nsym=0, **HM),
    FB(7, "uint64_t", k=2, m=1, ws=4, hostile=1, nsym=0, cfg="AVX", **HM), FB(1, k=3, m=2, ws=2, sys=1, hostile=1, nsym=0, cfg="SSE", **HM),
    FB(1, k=2, m=2, ws=2, sys=0, rev=1, words=7, pkt=4, subsets=4), FB(1, k=2, m=2, ws=2, sys=1, rev=1, words=7, pkt=4, subsets=4), FB(7, k=2, m=1, ws=2, rev=1, words=5, pkt=4),
    FC(k=2, m=1, ws=2, sys=0, what=4, words=3, nsym=0, max=1, locs=1), FC(k=2, m=1, ws=2, sys=1, what=4, words=3, nsym=0, max=2, locs=1), FC(k=2, m=1, ws=2, sys=1, what=4, words=10, nsym=0, max=3, locs=1, rec=1),
    FB(7, k=2, m=1, ws=2, hostile=2, nsym=0, tiers=TH, t=200, **HM), FC(k=2, m=1, ws=2, sys=0, what=4, words=3, nsym=0, max=3, locs=2, tiers=TH, t=200), FB(1, k=3, m=2, ws=2, sys=0, hostile=2, nsym=0, tiers=TH, t=200, **HM)])
P("P26", "one object doing one (thorough: two) of: encoding other data of 3, 5 or 7 words, encoding and decoding them from one of up to 4 survivor sets, decoding from too few - through any of its interfaces - and then encoding and decoding data with one symbolic word position, for every survivor set; k<=3, m<=2, packets of 3 and 4 words", [
    ST(1, k=2, m=1, ws=2, sys=1, vert=1, words=3, history=1, howmin=1, hows=2, pkt=3), ST(1, cfg="AVX", k=3, m=2, ws=2, sys=1, vert=2, words=3, history=1, howmin=2, hows=2, pkt=4, subsets=4, wantmax=0, t=100),
    ST(1, k=2, m=1, ws=1, sys=0, vert=0, words=3, history=1, hows=2, pkt=3), ST(1, cfg="AVX", k=2, m=2, ws=1, sys=0, vert=1, words=5, history=1, howmin=1, hows=2, pkt=4), ST(1, k=2, m=1, ws=2, sys=0, vert=2, words=3, history=1, howmin=0, hows=1, pkt=3, wantmax=0, t=100),
    ST(7, cfg="AVX", k=2, m=1, ws=2, sys=0, vert=1, words=3, history=1, howmin=1, hows=1, pkt=4, wantmax=0, t=100), ST(7, k=2, m=1, ws=2, vert=0, words=2, history=1, howmin=0, hows=0, wantmax=0, t=100),
    ST(2, k=3, m=2, ws=1, vert=0, words=3, history=1, hows=0), ST(3, k=3, m=2, ws=1, vert=0, words=3, history=1, hows=0), ST(4, k=3, m=2, ws=1, vert=0, words=3, history=1, hows=0), ST(5, k=3, m=2, ws=1, vert=0, words=3, history=1, hows=0), ST(6, k=2, m=2, ws=1, vert=0, words=3, history=1, hows=0),
    ST(1, cfg="AVX", k=2, m=2, ws=1, sys=1, vert=2, words=5, history=2, howmin=1, hows=2, pkt=4, subsets=2, tiers=TH, t=200), ST(3, k=3, m=2, ws=1, vert=0, words=3, history=2, hows=0, tiers=TH, t=150), ST(6, k=2, m=2, ws=2, vert=0, words=3, history=1, hows=0, tiers=TH, t=150)])


def TX(what=0, **kw):
    return J("proptext", labels=[["read back"], ["decimal"]][what], what=what, **kw)


P("P27", "lists of up to 3 marks, each number within 100 to 100000 values next to 0, 2^32 or the greatest one of its type; comments and blank lines between them; decimal output of 128-bit numbers within 10 values of each end of the signed and unsigned ranges; the decimal conversion of 64-bit numbers by the C++ library is replaced by a model", [
    TX(n=1, range=9999), TX(n=2, range=999, gaps=3), TX(n=3, range=99), TX(n=1, range=99999, t=100), TX(1, range=9), TX(n=2, range=9999, tiers=TH, t=150), TX(n=3, range=999, tiers=TH, t=200), TX(1, range=30, tiers=TH, t=200)])


# ---------------------------------------------------------------- sizes
def RF(code, **kw):
    return J("fec_word", defs=["-DCODE=%d" % code, "-DTY=uint32_t", "-DREFUSE"], labels=["refused"], **kw)


P("P28", "codes of 1 to 200 data and up to 256 fragments (the whole field for word size 1), up to 90 fragments for word size 2; one to three symbolic data words among fixed ones at chosen places, 1 to 4 sets of survivors (first, last, spread); refusals at the first size that does not fit, with assertions enabled", [
    FW(1, k=60, m=60, ws=1, subsets=2, nsym=1, t=90), FW(1, k=4, m=252, ws=1, subsets=2, nsym=1, t=90), FW(1, k=16, m=16, ws=2, subsets=2, nsym=1), FW(1, k=1, m=255, ws=1, subsets=3),
    FW(6, k=60, m=60, ws=1, subsets=2, nsym=1, t=90), FW(6, k=20, m=12, ws=2, subsets=2, nsym=1), FW(7, k=8, m=8, ws=2, subsets=2, nsym=1),
    FW(2, k=4, m=252, ws=1, subsets=3), FW(2, k=60, m=60, ws=1, subsets=3, nsym=3), FW(3, k=60, m=196, ws=1, subsets=3, nsym=2), FW(2, k=60, m=30, ws=2, subsets=2, nsym=2, t=90), FW(3, k=20, m=12, ws=1, subsets=3),
    FW(4, k=127, m=128, ws=1, subsets=4, nsym=2), FW(4, k=4, m=251, ws=1, subsets=3), FW(4, k=20, m=10, ws=2, subsets=2, nsym=3, t=90),
    FW(5, k=128, m=128, ws=1, subsets=3, nsym=2), FW(5, k=200, m=56, ws=1, subsets=3, nsym=1, t=90), FW(5, k=4, m=252, ws=1, subsets=3), FW(5, k=20, m=12, ws=2, subsets=2, nsym=1, t=90)] + [
    FW(c, k=1, m=1, ws=2 if c == 7 else 1) for c in range(1, 8)] + [
    FB(1, k=60, m=60, ws=1, subsets=2, nfrag=1, words=5, sys=1, pkt=8, cfg="AVX", t=90), FB(1, "uint16_t", k=40, m=40, ws=1, subsets=2, nfrag=1, words=3, sys=1, pkt=16, cfg="AVX"), FB(1, k=20, m=12, ws=2, subsets=2, nfrag=1, words=3, sys=0, pkt=8, cfg="AVX", t=90),
    FB(1, k=20, m=12, ws=2, subsets=2, nfrag=1, words=3, sys=1, pkt=8, cfg="SSE"), FB(7, k=8, m=4, ws=2, subsets=2, nfrag=1, words=3, pkt=4),
    RF(1, k=129, m=100, ws=1), RF(1, k=4, m=253, ws=1), RF(1, k=4, m=20, ws=4), RF(2, k=4, m=253, ws=1), RF(3, k=4, m=253, ws=1), RF(4, k=4, m=252, ws=1), RF(4, k=128, m=100, ws=1), RF(5, k=4, m=253, ws=1), RF(6, k=4, m=253, ws=1), RF(7, k=40000, m=30000, ws=2),
    FW(1, k=128, m=128, ws=1, subsets=1, nsym=1, tiers=TH, t=150), FW(6, k=128, m=128, ws=1, subsets=1, nsym=1, tiers=TH, t=150), FW(2, k=100, m=20, ws=1, subsets=4, nsym=2, tiers=TH, t=120), FW(3, k=100, m=156, ws=1, subsets=3, nsym=2, tiers=TH, t=120),
    FW(4, k=60, m=30, ws=1, subsets=3, tiers=TH, t=120), FW(5, k=20, m=12, ws=2, subsets=3, nsym=2, tiers=TH, t=120), FW(1, k=100, m=50, ws=1, subsets=3, nsym=1, tiers=TH, t=200)])
