"""Which harness decides what, within which bounds.  Imported by sxcheck.py."""
Q, T = ("quick", "thorough"), ("thorough",)
EUC, MAN, CHE, COS, SOR = range(5)
MN = ["euc", "man", "che", "cos", "sor"]

def job(name, src, seconds=600, tiers=Q, reach=("end",), args=(), **kw):
    opts = {k: kw.pop(k) for k in ("threads", "heap", "mem", "weight", "cli", "py") if k in kw}
    return dict(name=name, src=src, seconds=seconds, tiers=tiers, reach=list(reach), args=list(args), defs=kw, **opts)
def grid(lo, hi, s): return dict(GLO=lo, GHI=hi, GS=s)

PROPS = {}

# ---------------------------------------------------------------- C01
J = []
for m in (EUC, MAN, CHE):
    for n in (1, 2, 4, 6): J.append(job("value-%s-n%d" % (MN[m], n), "c01_pointwise.cpp", METRIC=m, LN=n, OX=n % 3, OY=(n + 1) % 3, **grid(-32, 32, 3)))
for m in (COS, SOR):
    for n in (1, 2, 3): J.append(job("value-%s-n%d" % (MN[m], n), "c01_pointwise.cpp", METRIC=m, LN=n, OX=1, OY=2, **grid(-3, 3, 1)))
for m in range(5):
    J.append(job("api-%s" % MN[m], "c01_api.cpp", METRIC=m, LENS=32, reach=["end", "refused"], **grid(-3, 3, 1)))
PROPS["C01"] = dict(jobs=J, bounds="series of 1..6 values k/8 with |k|<=32 (cosine, sorensen: 1..3 values k/2 with |k|<=3), offsets 0..2", assumptions=[])

# ---------------------------------------------------------------- C02
J = []
for m in (EUC, MAN, CHE):
    for a, b in ((1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 4), (4, 4)):
        J.append(job("opt-%s-%dx%d" % (MN[m], a, b), "c02_warped.cpp", METRIC=m, LA=a, LB=b, SYM=1, SELF=1, **grid(-8, 8, 2)))
    J.append(job("mono-%s-3x3" % MN[m], "c02_monotone.cpp", METRIC=m, LA=3, LB=3, **grid(-4, 4, 1)))
    J.append(job("mono-%s-4x3" % MN[m], "c02_monotone.cpp", METRIC=m, LA=4, LB=3, **grid(-4, 4, 1)))
    J.append(job("opt-%s-5x5" % MN[m], "c02_warped.cpp", METRIC=m, LA=5, LB=5, **grid(-8, 8, 2)))
    J.append(job("ratio-%s-2x3" % MN[m], "c02_warped.cpp", METRIC=m, LA=2, LB=3, ANYRATIO=1, **grid(-8, 8, 2)))
PROPS["C02"] = dict(jobs=J, bounds="lengths 1..5, values k/4 with |k|<=8, ratios k/32 in [0,1]", assumptions=[])

# ---------------------------------------------------------------- C03
J = []
for m in (EUC, MAN, CHE):
    for a, b in ((1, 1), (1, 3), (2, 3), (3, 2), (3, 3)): J.append(job("path-%s-%dx%d" % (MN[m], a, b), "c03_matching.cpp", METRIC=m, LA=a, LB=b, **grid(-4, 4, 1)))
    J.append(job("path-%s-4x3" % MN[m], "c03_matching.cpp", METRIC=m, LA=4, LB=3, **grid(-4, 4, 1)))
    J.append(job("api-%s" % MN[m], "c03_api.cpp", METRIC=m, LENS=33, reach=["end", "apart"], **grid(-2, 2, 1)))
for m in (COS, SOR):
    for a, b in ((2, 2), (2, 3)): J.append(job("path-%s-%dx%d" % (MN[m], a, b), "c03_matching.cpp", METRIC=m, LA=a, LB=b, **grid(-1, 2, 0)))
PROPS["C03"] = dict(jobs=J, bounds="lengths 1..4, values k/2 with |k|<=4 (cosine, sorensen: lengths 2..3, values -1..2), every band", assumptions=[])

# ---------------------------------------------------------------- C04
J = []
R4 = ["limit", "equal"]
for m in (EUC, MAN, CHE):
    for n in (1, 2, 3, 4): J.append(job("point-%s-n%d" % (MN[m], n), "c04_abandon.cpp", METRIC=m, KIND=0, LA=n, LB=n, LIM=40, LIMS=3, reach=R4, **grid(-8, 8, 2)))
    for a, b in ((1, 1), (2, 2), (2, 3), (3, 3)): J.append(job("warp-%s-%dx%d" % (MN[m], a, b), "c04_abandon.cpp", METRIC=m, KIND=1, LA=a, LB=b, LIM=24, LIMS=3, reach=R4, **grid(-6, 6, 2)))
for a, b in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3)):
    J.append(job("accel-%dx%d" % (a, b), "c04_abandon.cpp", METRIC=EUC, KIND=2, LA=a, LB=b, LIM=16, LIMS=4, reach=R4, **(grid(-4, 4, 1) if a + b < 6 else grid(-2, 2, 1))))
J.append(job("accel-3x3-wide", "c04_abandon.cpp", seconds=1500, tiers=T, METRIC=EUC, KIND=2, LA=3, LB=3, LIM=16, LIMS=4, reach=R4, **grid(-4, 4, 1)))
PROPS["C04"] = dict(jobs=J, bounds="lengths 1..4, values k/4 (|k|<=8), limits k/8, equal to the distance, and infinite; every band", assumptions=[])

# ---------------------------------------------------------------- C05
J = []
for w, n in ((0, "kim"), (1, "keogh"), (2, "cross"), (3, "accel")):
    for a, b in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4)):
        g = grid(-4, 4, 1) if w in (0, 3) or a + b < 6 else grid(-2, 2, 1) if a + b < 8 else grid(-1, 1, 0)
        J.append(job("%s-%dx%d" % (n, a, b), "c05_bounds.cpp", WHAT=w, LA=a, LB=b, **g))
    if w in (1, 2): J.append(job("%s-3x3-wide" % n, "c05_bounds.cpp", seconds=1500, tiers=T, WHAT=w, LA=3, LB=3, **grid(-4, 4, 1)))
PROPS["C05"] = dict(jobs=J, bounds="lengths 1..4, values k/2 with |k|<=4, limits k/8 up to 2 and infinite, every band", assumptions=[])

# ---------------------------------------------------------------- C06
J = [job("window-n%d" % n, "c06_envelope.cpp", OPS=0, LN=n, MODE=7, **grid(-8, 8, 2)) for n in (1, 2, 3, 4, 5)]
J += [job("history-n%d-%d" % (n, k), "c06_envelope.cpp", OPS=k, LN=n, MODE=7, **grid(-4, 4, 1)) for n, k in ((1, 3), (2, 2), (3, 2))]
PROPS["C06"] = dict(jobs=J, bounds="1..5 values k/4 with |k|<=8, every band; histories of up to 3 operations", assumptions=[])

# ---------------------------------------------------------------- C07, C08
J7, J8 = [], []
for m in (EUC, MAN, CHE, SOR):
    for lens, whole in ((33, 0), (32, 0), (23, 0), (222, 1), (132, 1), (4, 0)):
        g = grid(-4, 4, 1) if m != SOR else grid(0, 3, 0)
        J7.append(job("%s-%d-%d" % (MN[m], lens, whole), "c07_partition.cpp", METRIC=m, LENS=lens, WHOLE=whole, REGROUP=int(lens == 32), **g))
        if m != SOR: J8.append(job("%s-%d-%d" % (MN[m], lens, whole), "c08_threshold.cpp", METRIC=m, LENS=lens, WHOLE=whole, THI=20, **g))
PROPS["C07"] = dict(jobs=J7, bounds="up to 3 series and 4 values per series", assumptions=[])
PROPS["C08"] = dict(jobs=J8, bounds="up to 3 series and 4 values per series", assumptions=[])

# ---------------------------------------------------------------- C09
J = []
for m in (EUC, MAN, CHE): J.append(job("%s-3-2" % MN[m], "c09_threads.cpp", threads=1, METRIC=m, LENS=3, QLEN=2, MODE=1, TH=0.5, WHOLE=0, REGROUP=0, THREADS=2, **grid(-1, 1, 1)))
J += [job("man-32-2", "c09_threads.cpp", threads=1, METRIC=MAN, LENS=32, QLEN=2, MODE=1, TH=0.75, WHOLE=0, REGROUP=1, THREADS=2, reach=["end", "several"], **grid(0, 1, 0)),
      job("man-22-whole", "c09_threads.cpp", threads=1, METRIC=MAN, LENS=22, QLEN=2, MODE=1, TH=1, WHOLE=1, REGROUP=0, THREADS=3, **grid(-1, 1, 1)),
      job("man-2-3", "c09_threads.cpp", threads=1, METRIC=MAN, LENS=2, QLEN=2, MODE=1, TH=1, WHOLE=0, REGROUP=0, THREADS=3, **grid(-1, 1, 1)),
      job("man-1-2", "c09_threads.cpp", threads=1, METRIC=MAN, LENS=1, QLEN=2, MODE=1, TH=1, WHOLE=0, REGROUP=0, THREADS=2, **grid(-1, 1, 1)),
      job("man-4-2", "c09_threads.cpp", 3000, T, threads=1, mem=24, METRIC=MAN, LENS=4, QLEN=2, MODE=1, TH=0.75, WHOLE=0, REGROUP=0, THREADS=2, **grid(0, 1, 0)),
      job("man-3-3", "c09_threads.cpp", 3000, T, threads=1, mem=24, METRIC=MAN, LENS=3, QLEN=2, MODE=1, TH=0.5, WHOLE=0, REGROUP=0, THREADS=3, **grid(0, 0, 0)),
      job("races", "c09_threads.cpp", threads=1, METRIC=EUC, LENS=3, QLEN=2, MODE=1, TH=0.5, WHOLE=0, REGROUP=0, THREADS=2, SX_PREEMPT=1, args=["--preempt", "1"], **grid(0, 0, 0))]
PROPS["C09"] = dict(jobs=J, bounds="every interleaving of the synchronisation operations of 2 workers with 1..3 lengths or 3 workers with one length, series of 1..4 values, up to two series", assumptions=["accesses between synchronisation operations are not interleaved; that this loses nothing is what the race check shows, which looks at one history per reached state and at every history with one preemption", "condition variables do not wake spuriously"])
# ---------------------------------------------------------------- C10
J = []
for m in (EUC, MAN, CHE):
    gr = grid(-2, 2, 1) if m == CHE else grid(-1, 1, 1)
    J.append(job("%s-22" % MN[m], "c10_best.cpp", METRIC=m, LENS=22, QLENS=2, THI=8, RATIO=1.0, WHOLE=0, MODE=1, **grid(-2, 2, 1)))
    J.append(job("%s-32" % MN[m], "c10_best.cpp", METRIC=m, LENS=32, QLENS=2, THI=8, RATIO=0.5, WHOLE=0, MODE=1, **gr))
    J.append(job("%s-3-th0" % MN[m], "c10_best.cpp", METRIC=m, LENS=3, QLENS=3, THI=0, RATIO=1.0, WHOLE=0, MODE=1, **gr))
    if m != CHE:
        J.append(job("%s-32-wide" % MN[m], "c10_best.cpp", 1500, T, METRIC=m, LENS=32, QLENS=2, THI=8, RATIO=0.5, WHOLE=0, MODE=1, **grid(-2, 2, 1)))
        J.append(job("%s-3-th0-wide" % MN[m], "c10_best.cpp", 1500, T, METRIC=m, LENS=3, QLENS=3, THI=0, RATIO=1.0, WHOLE=0, MODE=1, **grid(-2, 2, 1)))
    J.append(job("%s-23" % MN[m], "c10_best.cpp", METRIC=m, LENS=23, QLENS=2, THI=8, RATIO=0.5, WHOLE=0, MODE=1, **grid(-1, 1, 1)))
    J.append(job("%s-4-th16" % MN[m], "c10_best.cpp", METRIC=m, LENS=4, QLENS=3, THI=1, TH=16, RATIO=0.5, WHOLE=0, MODE=1, **(grid(0, 1, 0) if m == EUC else grid(0, 2, 0))))
    for t in (0.5, 16): J.append(job("%s-4-th%g-wide" % (MN[m], t), "c10_best.cpp", 1500, T, METRIC=m, LENS=4, QLENS=3, THI=1, TH=t, RATIO=0.5, WHOLE=0, MODE=1, **grid(0, 2, 0)))
PROPS["C10"] = dict(jobs=J, bounds="2 series of 2, of 3 and 2, or 1 of 3 values k/2 with |k|<=2 (euclidean, manhattan mostly |k|<=1), queries of 2 and 3 with every start and end, thresholds k/4 up to 2 and 0; 1 series of 4 values 0..2 (euclidean 0..1) with a query of 3 and one group per length", assumptions=[])
# ---------------------------------------------------------------- C11 C12
J, J2 = [], []
for m in (EUC, MAN, CHE):
    J.append(job("%s-22" % MN[m], "c11_kbest.cpp", METRIC=m, LENS=22, QLEN=2, THI=8, THFIX=0, RATIO=1.0, WHOLE=0, MODE=1, KLO=-1, KHI=4, FULL=0, reach=["end", "exact", "budget", "refused"], **grid(-2, 2, 1)))
    J.append(job("%s-3" % MN[m], "c11_kbest.cpp", METRIC=m, LENS=3, QLEN=2, THI=8, THFIX=0, RATIO=1.0, WHOLE=0, MODE=1, KLO=1, KHI=4, FULL=1, **grid(-2, 2, 1)))
    J2.append(job("%s-22-full" % MN[m], "c11_kbest.cpp", METRIC=m, LENS=22, QLEN=3, THI=8, THFIX=0, RATIO=0.5, WHOLE=0, MODE=1, KLO=1, KHI=4, FULL=1, reach=["end", "exact"], **grid(-2, 2, 1)))
    J2.append(job("%s-222-whole" % MN[m], "c11_kbest.cpp", METRIC=m, LENS=222, QLEN=2, THI=4, THFIX=0, RATIO=1.0, WHOLE=1, MODE=1, KLO=1, KHI=2 if m == EUC else 3, FULL=0, reach=["end", "budget"] + ["exact"] * (m != EUC), **(grid(0, 1, 0) if m == EUC else grid(-1, 1, 1))))
    J2.append(job("%s-3-budget" % MN[m], "c11_kbest.cpp", METRIC=m, LENS=3, QLEN=2, THI=8, THFIX=0, RATIO=1.0, WHOLE=0, MODE=1, KLO=1, KHI=3, FULL=0, reach=["end", "exact", "budget"], **grid(-1, 1, 1)))
    for th in (16, 0):
        J.append(job("%s-33-th%d" % (MN[m], th), "c11_kbest.cpp", METRIC=m, LENS=33, QLEN=2, THI=0, THFIX=th, RATIO=1.0, WHOLE=0, MODE=1, KLO=1, KHI=3, FULL=1, reach=["end", "exact"], **grid(0, 1, 0)))
        J2.append(job("%s-33-th%d-budget" % (MN[m], th), "c11_kbest.cpp", METRIC=m, LENS=33, QLEN=2, THI=0, THFIX=th, RATIO=1.0, WHOLE=0, MODE=1, KLO=1, KHI=3, FULL=0, reach=["end", "budget"], **grid(0, 1, 0)))
J.append(job("man-32", "c11_kbest.cpp", 1500, T, METRIC=MAN, LENS=32, QLEN=2, THI=8, THFIX=0, RATIO=1.0, WHOLE=0, MODE=1, KLO=1, KHI=5, FULL=0, **grid(-1, 1, 1)))
J2.append(job("man-32-budget", "c11_kbest.cpp", 1500, T, METRIC=MAN, LENS=32, QLEN=2, THI=8, THFIX=0, RATIO=1.0, WHOLE=0, MODE=1, KLO=1, KHI=4, FULL=0, **grid(-1, 1, 1)))
PROPS["C11"] = dict(jobs=J, bounds="2 series of 2 values or 1 of 3, query of 2, values k/2 with |k|<=2, thresholds k/4 up to 2, k and examined candidates -1..5; 2 series of 3 values 0 or 1 with thresholds 0 and 16, k 1..3", assumptions=[])
PROPS["C12"] = dict(jobs=J2, bounds="up to 3 series of 2 values or 1 of 3, queries of 2 and 3, thresholds k/4 up to 2, every k and budget up to one more than exist; 2 series of 3 values 0 or 1 with thresholds 0 and 16, k 1..3", assumptions=["the budget clause is decided for k equal to the number of examined candidates"])
# ---------------------------------------------------------------- C13
J = []
for m in (EUC, MAN, CHE):
    J.append(job("%s-22" % MN[m], "c13_brute.cpp", METRIC=m, LENS=22, QLEN=2, QS=-1, RATIO=1.0, MODE=1, KLO=-1, KHI=4, reach=["end", "refused"], **grid(-2, 2, 1)))
    J.append(job("%s-32" % MN[m], "c13_brute.cpp", METRIC=m, LENS=32, QLEN=3, QS=1, RATIO=1.0, MODE=1, KLO=1, KHI=4, **(grid(-2, 2, 1) if m == CHE else grid(-1, 1, 1))))
    J.append(job("%s-3-half" % MN[m], "c13_brute.cpp", METRIC=m, LENS=3, QLEN=3, QS=-1, RATIO=0.5, MODE=1, KLO=1, KHI=4, **grid(-2, 2, 1)))
PROPS["C13"] = dict(jobs=J, bounds="2 series of 2 and 3 values k/2 with |k|<=2, query of 2 and 3, k -1..5", assumptions=[])
# ---------------------------------------------------------------- C14
PROPS["C14"] = dict(jobs=[
    job("32", "c14_normalise.cpp", TIMES=1, LENS=32, MODE=7, **grid(-4, 4, 1)),
    job("131", "c14_normalise.cpp", TIMES=1, LENS=131, MODE=7, **grid(-4, 4, 1)),
    job("1", "c14_normalise.cpp", TIMES=2, LENS=1, MODE=7, **grid(-8, 8, 2)),
    job("twice", "c14_normalise.cpp", TIMES=2, LENS=22, MODE=7, **grid(-2, 2, 1)),
    job("grouped", "c14_normalise.cpp", TIMES=1, LENS=32, MODE=1, GROUPED=1, **grid(-2, 2, 1)),
    job("33", "c14_normalise.cpp", 1500, T, TIMES=1, LENS=333, MODE=7, **grid(-4, 4, 1)),
    ], bounds="1..3 series of 1..3 values k/2 with |k|<=4", assumptions=[])
# ---------------------------------------------------------------- C15
PROPS["C15"] = dict(jobs=[
    job("plain", "c15_load.cpp", FLO=0, MOST=3, ROWS=2, BAD=0, SKLO=-1, SKHI=2, NAMES=0, reach=["end", "refused"]),
    job("names", "c15_load.cpp", FLO=0, MOST=3, ROWS=2, BAD=0, SKLO=0, SKHI=2, NAMES=1),
    job("three", "c15_load.cpp", FLO=1, MOST=2, ROWS=3, BAD=0, SKLO=0, SKHI=1, NAMES=0)] +
    [job("bad%d-%d" % (b, n), "c15_load.cpp", FLO=1, MOST=2, ROWS=2, BAD=b, SKLO=0, SKHI=1, NAMES=n, reach=["end"] + (["refused"] if b < 3 else [])) for b in (1, 2, 3) for n in (0, 1)] + [
    job("text", "c15_text.cpp", LN=4, MODE=0, reach=["end", "refused"]),
    job("text5", "c15_text.cpp", 3000, T, LN=5, MODE=0, reach=["end", "refused"]),
    job("reload", "c15_reload.cpp", STEPS=2),
    job("reload3", "c15_reload.cpp", 600, T, STEPS=3),
    ], bounds="tables of up to 3 rows of up to 3 fields with symbolic values, row limits 0..rows+1, skipped columns -1..2, three separator spellings, one bad field anywhere; every text of up to 4 characters with codes 9..126 except the letters e, x, i, n in either case", assumptions=["numbers written by the harness are recognised by their value, short decimals character by character"])
# ---------------------------------------------------------------- C16
PROPS["C16"] = dict(jobs=[job("n%d%d%s" % (a, b, "-norm" if n else ""), "c16_save.cpp", LENA=a, LENB=b, **({"NORM": 1} if n else {})) for a, b, n in ((1, 1, 0), (2, 1, 0), (1, 3, 0), (2, 1, 1), (2, 2, 0))],
    bounds="2 series of 1..3 values from eleven doubles that need up to 17 digits, separators blank, comma, semicolon, with and without names, saved and loaded twice", assumptions=[])
# ---------------------------------------------------------------- C17 C18
for p, f in (("C17", 0), ("C18", 1)):
    J = []
    for m in (EUC, MAN, CHE):
        J.append(job("%s-22" % MN[m], "c17_restore.cpp", FORMAT=f, METRIC=m, LENS=22, THI=8, THS=2, **(grid(-1, 1, 1) if m == EUC else grid(-2, 2, 1))))
        J.append(job("%s-3" % MN[m], "c17_restore.cpp", FORMAT=f, METRIC=m, LENS=3, THI=8, THS=2, **grid(-1, 1, 1)))
    J.append(job("man-32", "c17_restore.cpp", FORMAT=f, METRIC=MAN, LENS=32, THI=4, THS=3, args=["--fix", "before#0=1"], **grid(-1, 1, 0)))
    PROPS[p] = dict(jobs=J, bounds="2 series of 2 values, 1 of 3, 2 of 3 and 2, values k/2 with |k|<=2, thresholds k/4 up to 2, both grouping modes, empty or differently grouped target, two save/load rounds", assumptions=["the compressed archive is modelled as a tape of the serialised members (zlib and the archive library are trusted)"] if f == 0 else [])
# ---------------------------------------------------------------- C19
PROPS["C19"] = dict(jobs=[job("from%d-%d" % (k, j), "c19_incompatible.cpp", args=["--fix", "from#0=%d" % k, "--fix", "before#0=%d" % j], weight=k, reach=["end", "fits"], **grid(0, 1, 0)) for k in range(6) for j in range(3)],
    bounds="source and target of shapes 2, 3, 2+2, 3+2, 2+3, 3+3, target ungrouped, grouped, grouped whole, both formats, missing file, other version", assumptions=[])
# ---------------------------------------------------------------- C20 C21
PROPS["C20"] = dict(jobs=[
    job("43", "c20_paa.cpp", LENS=43, BHI=5, STEPS=1, reach=["end", "refused", "range"]),
    job("7", "c20_paa.cpp", LENS=7, BHI=8, STEPS=1, reach=["end", "refused", "range"], **grid(-2, 2, 1)),
    job("again", "c20_paa.cpp", LENS=52, BHI=4, STEPS=2, reach=["end", "refused", "range"], **grid(-4, 4, 1))],
    bounds="series of 2..7 values, blocks of -1..8, every start and end around the legal range, regenerated with another block size", assumptions=[])
J = []
for m in (EUC, MAN, CHE):
    J.append(job("%s-22" % MN[m], "c21_paasearch.cpp", METRIC=m, LENS=22, QLEN=3, BHI=3, MODE=1, KLO=0, KHI=3, RATIO=1.0, reach=["end", "refused"], **grid(-2, 2, 1)))
    J.append(job("%s-3" % MN[m], "c21_paasearch.cpp", METRIC=m, LENS=3, QLEN=3, BHI=3, MODE=1, KLO=1, KHI=4, RATIO=0.5, **grid(-2, 2, 1)))
J.append(job("man-seq", "c21_paasearch.cpp", METRIC=MAN, LENS=3, QLEN=2, BHI=2, MODE=1, SEQ=1, KLO=1, KHI=2, RATIO=0.5, **grid(-2, 2, 1)))
J.append(job("man-32", "c21_paasearch.cpp", 1500, T, METRIC=MAN, LENS=32, QLEN=3, BHI=3, MODE=1, KLO=1, KHI=3, RATIO=1.0, **grid(-1, 1, 1)))
PROPS["C21"] = dict(jobs=J, bounds="2 series of 2 values or 1 of 3, query of 2 and 3, blocks 1..3, k 0..4, prepare/unload/reload before", assumptions=[])
# ---------------------------------------------------------------- C22 .. C27
PROPS["C22"] = dict(jobs=[job("steps2", "c22_registry.cpp", STEPS=2, **grid(-1, 1, 1)), job("steps3", "c22_registry.cpp", STEPS=3, **grid(-1, 1, 1)), job("steps4", "c22_registry.cpp", 1500, T, STEPS=4, **grid(-1, 1, 0))],
    bounds="every sequence of 3 (thorough 4) of load, bad load, missing file, unload, group, prepare, normalise, unload-all over two names, symbolic values", assumptions=[])
PROPS["C23"] = dict(jobs=[job("32-half", "c23_range.cpp", LENS=32, RATIO=0.5, **grid(-1, 1, 1)), job("2-none", "c23_range.cpp", LENS=2, RATIO=0.1, **grid(-1, 1, 1)), job("4-narrow", "c23_range.cpp", LENS=4, RATIO=0.3, **grid(-1, 1, 0)), job("232-whole", "c23_range.cpp", LENS=232, RATIO=1.0, **grid(0, 1, 0))],
    bounds="1..3 series of 2..4 values, every 32-bit integer as series, start, end or position, ungrouped, grouped, grouped whole, prepared or not", assumptions=["queries of a single value are not judged"])
PROPS["C24"] = dict(jobs=[job("n2", "c24_values.cpp", LN=2, **grid(-9, 9, 3)), job("n3", "c24_values.cpp", LN=3, **grid(-9, 9, 3)), job("n5", "c24_values.cpp", LN=5, **grid(-9, 9, 3))],
    bounds="series of 1..5 values k/8 with |k|<=9, owning, referring to a whole array, referring to a part", assumptions=[])
PROPS["C25"] = dict(jobs=[job("22-2", "c25_refused.cpp", LENS=22, STEPS=2, **grid(-1, 1, 1)), job("3-2", "c25_refused.cpp", LENS=3, STEPS=2, **grid(-1, 1, 1)), job("2-3", "c25_refused.cpp", LENS=2, STEPS=3, **grid(-1, 1, 1))],
    bounds="1 or 2 series of 2 or 3 values, every sequence of 2 or 3 requests of six kinds", assumptions=[])
PROPS["C26"] = dict(jobs=[job(str(l), "c26_clock.cpp", LENS=l, **grid(-1, 1, g)) for l, g in ((1, 1), (2, 1), (22, 1), (3, 1), (32, 1), (212, 1), (4, 0))],
    bounds="1..3 series of 1..4 values, every clock reading from 0 to 4*10^18 ns at every time it is consulted", assumptions=[])
J = [job("pairs", "c27_repeat.cpp", heap=1, LENS=2, QLEN=2, MODE=1, STEPS=2, OPS=-1, **grid(-1, 1, 1))]
for o in range(6): J.append(job("op%d" % o, "c27_repeat.cpp", heap=1, LENS=3, QLEN=2, MODE=1, STEPS=2, OPS=o, **grid(-1, 1, 1)))
for m in range(5):
    J += [job("limit-%s-%d" % (MN[m], o), "c27_memory.cpp", heap=1, METRIC=m, OP=o, LENS=3, QLEN=2, RATIO=1.0, MODE=1, **grid(-1, 1, 1)) for o in (0, 1, 3)]
J += [job("%s-%s" % (n, MN[m]), "c27_memory.cpp", heap=1, METRIC=m, OP=o, LENS=l, QLEN=2, RATIO=1.0, MODE=1, **grid(-1, 1, 1)) for n, o, m, l in (("bounds", 2, EUC, 3), ("groups", 4, EUC, 22), ("groups", 4, SOR, 2), ("blocks", 5, MAN, 3), ("datasets", 6, MAN, 22), ("files", 7, CHE, 22))]
J += [job("damaged-%d" % k, "c32_damaged.cpp", heap=1, HEAP=1, LENS=22, WHOLE=0, TH=1, KIND=k, CUTS=0, reach=["refused"], **grid(0, 1, 0)) for k in range(3)]
J += [job("unreadable-%d" % k, "c33_faults.cpp", heap=1, HEAP=1, LENS=22, WHOLE=0, TH=1, WHAT=k, READ=1, STEPS=12, reach=["reported"], **grid(0, 1, 0)) for k in range(3)]
PROPS["C27"] = dict(jobs=J, bounds="1 series of 2 or 3 values, query of 2, two rounds of six kinds of computation, each repeated three times, band changed in between; abandoned distances, matchings, searches, group files and datasets of every metric, each three times", assumptions=[])

# ---------------------------------------------------------------- C28
J = []
for i, c in enumerate(("load", "save", "distance", "group", "saveGroups", "loadGroups", "normalize", "sim", "ksim", "ksimBF", "print", "unload", "list")):
    J.append(job("args-" + c, "c28_args.cpp", cli=1, CMD=i, reach=["end", "arguments"] + (["refused"] if c in ("distance", "loadGroups", "sim", "print", "unload") else []), **dict(grid(0, 2, 1), **(dict(FIXED=1) if c in ("group", "saveGroups", "loadGroups", "sim", "ksim", "ksimBF", "list") else {}))))
PROPS["C28"] = dict(jobs=J, bounds="two datasets of two short series with values k/2 (0<=k<=2); each command with every number of arguments from one too few to one too many and small numbers in every position", assumptions=[])

# ---------------------------------------------------------------- C29
J = [job("line-%d" % 4, "c29_prompt.cpp", cli=1, KIND=0, LN=4, MODE=1, reach=["end", "left"], **grid(0, 1, 1))]
for i, c in enumerate(("load", "save", "unload", "list", "timer", "distance", "group", "saveGroups", "loadGroups", "normalize", "sim", "ksim", "ksimBF", "print", "help", "nothing")):
    lo, hi, free = {"load": (0, 5, 2), "distance": (7, 9, 1), "sim": (2, 6, 3), "ksim": (3, 7, 3), "ksimBF": (3, 6, 3), "print": (2, 4, 3)}.get(c, (0, 3, 3))
    J.append(job("words-" + c, "c29_prompt.cpp", cli=1, KIND=1, WORD=i, NLO=lo, NHI=hi, FREE=free, GROUPED=int(c in ("saveGroups", "sim", "ksim")), MODE=1, reach=["error"] + ([] if c in ("load", "distance", "nothing", "loadGroups", "help", "list") else ["end"]), **grid(0, 1, 1)))
J.append(job("end", "c29_prompt.cpp", cli=1, KIND=2, MODE=1, reach=["end", "left"], **grid(0, 1, 1)))
J.append(job("timer", "c29_prompt.cpp", cli=1, KIND=3, MODE=1, **grid(0, 1, 1)))
PROPS["C29"] = dict(jobs=J, bounds="any line of up to 4 printable characters; each command with 0..9 arguments, the first three of them a loaded name, an unknown name, small, negative, non-numeric or too large; end of input with up to four answers to the confirmation", assumptions=[])

# ---------------------------------------------------------------- C30
J = []
for i, c in enumerate(("loadDataset", "unloadDataset", "saveDataset", "normalize", "getTimeSeries", "group", "saveGroups", "saveGroupsSize", "loadGroups", "distance", "getMatching", "sim", "ksim", "ksimbf", "ksimpaa", "getAllDistances", "setWarpingBandRatio", "unknown")):
    J.append(job(c, "c30_python.cpp", py=1, FN=i, reach=([] if c == "unknown" else ["end"]) + (["refused"] if c not in ("saveDataset", "ksim", "ksimbf", "ksimpaa", "getAllDistances", "setWarpingBandRatio") else []), **dict(grid(0, 2, 1), **(dict(FIXED=1) if c in ("group", "saveGroups", "saveGroupsSize", "loadGroups", "getMatching", "sim", "ksim", "ksimbf", "ksimpaa", "unknown") else {}))))
PROPS["C30"] = dict(jobs=J, bounds="two datasets of two short series with values k/2 (0<=k<=2); each function with every number of optional arguments, given by position or by name from any of them on, and small numbers in every position", assumptions=["Boost.Python is the model in /verif/pystub: its objects, conversions and rules for argument names and defaults"])

# ---------------------------------------------------------------- larger cases, most values fixed
def wide(p, name, src, seconds=600, tiers=Q, **kw): PROPS[p]["jobs"].append(job("wide-" + name, src, seconds, tiers, **kw))
for m in (EUC, MAN, CHE):
    n = MN[m]
    wide("C02", n + "-9x9", "c02_warped.cpp", METRIC=m, LA=9, LB=9, SYM=1, SELF=1, WIDE=9, **grid(-8, 8, 2))
    wide("C02", n + "-12x8", "c02_warped.cpp", METRIC=m, LA=12, LB=8, SYM=1, SELF=1, WIDE=10, **grid(-8, 8, 2))
    wide("C03", n + "-8x8", "c03_matching.cpp", METRIC=m, LA=8, LB=8, WIDE=8, **grid(-4, 4, 1))
    wide("C03", n + "-9x6", "c03_matching.cpp", METRIC=m, LA=9, LB=6, WIDE=8, **grid(-4, 4, 1))
    wide("C04", n + "-8", "c04_abandon.cpp", METRIC=m, KIND=0, LA=8, LB=8, LIM=40, LIMS=3, WIDE=6, reach=R4, **grid(-8, 8, 2))
    wide("C04", n + "-8x7", "c04_abandon.cpp", METRIC=m, KIND=1, LA=8, LB=7, LIM=24, LIMS=3, WIDE=6, reach=R4, **grid(-6, 6, 2))
wide("C04", "accel-8x7", "c04_abandon.cpp", METRIC=EUC, KIND=2, LA=8, LB=7, LIM=16, LIMS=4, WIDE=8, reach=R4, **grid(-4, 4, 1))
for w, n in ((0, "kim"), (1, "keogh"), (2, "cross"), (3, "accel")):
    wide("C05", n + "-8x7", "c05_bounds.cpp", WHAT=w, LA=8, LB=7, WIDE=8, **grid(-4, 4, 1))
    wide("C05", n + "-7x9", "c05_bounds.cpp", WHAT=w, LA=7, LB=9, WIDE=8, **grid(-4, 4, 1))
wide("C06", "12", "c06_envelope.cpp", OPS=0, LN=12, MODE=7, WIDE=4, **grid(-8, 8, 2))
wide("C06", "history-8", "c06_envelope.cpp", OPS=2, LN=8, MODE=7, WIDE=8, **grid(-4, 4, 1))
for m in (EUC, MAN, CHE):
    n = MN[m]
    wide("C07", n + "-867", "c07_partition.cpp", METRIC=m, LENS=867, WHOLE=0, REGROUP=1, WIDE=20, **grid(-4, 4, 1))
    wide("C08", n + "-867", "c08_threshold.cpp", METRIC=m, LENS=867, WHOLE=0, THI=16, WIDE=20, **grid(-4, 4, 1))
    wide("C10", n + "-76", "c10_best.cpp", METRIC=m, LENS=76, QLENS=5, THI=1, TH=1.5, RATIO=0.5, WHOLE=0, MODE=1, WIDE=30, **grid(-4, 4, 1))
    wide("C10", n + "-65-th0", "c10_best.cpp", METRIC=m, LENS=65, QLENS=4, THI=0, RATIO=0.3, WHOLE=0, MODE=1, WIDE=25, **grid(-2, 2, 1))
    wide("C11", n + "-65", "c11_kbest.cpp", METRIC=m, LENS=65, QLEN=4, THI=0, THFIX=1.5, RATIO=0.5, WHOLE=0, MODE=1, KLO=1, KHI=9, FULL=1, reach=["end", "exact"], WIDE=25, **grid(-2, 2, 1))
    wide("C12", n + "-65", "c11_kbest.cpp", METRIC=m, LENS=65, QLEN=4, THI=0, THFIX=3, RATIO=0.5, WHOLE=0, MODE=1, KLO=1, KHI=9, FULL=0, reach=["end", "budget"], WIDE=25, **grid(-1, 1, 1))
    wide("C13", n + "-65", "c13_brute.cpp", METRIC=m, LENS=65, QLEN=5, QS=1, RATIO=0.5, MODE=1, KLO=1, KHI=8, WIDE=25, **grid(-1, 1, 1))
    wide("C17", n + "-65", "c17_restore.cpp", FORMAT=0, METRIC=m, LENS=65, THI=4, THS=1, WIDE=25, **grid(-2, 2, 1))
    wide("C18", n + "-65", "c17_restore.cpp", FORMAT=1, METRIC=m, LENS=65, THI=4, THS=1, WIDE=25, **grid(-2, 2, 1))
    wide("C21", n + "-65", "c21_paasearch.cpp", METRIC=m, LENS=65, QLEN=5, BHI=4, MODE=1, KLO=1, KHI=6, RATIO=0.5, WIDE=25, **grid(-2, 2, 1))
for i, m, t in ((0, EUC, 3), (0, MAN, 3), (0, CHE, 6), (1, CHE, 3), (1, EUC, 2), (2, CHE, 0.5), (2, MAN, 0)):
    for k in (2, 3) if i < 2 else (3, 4): wide("C12", "%s-shapes%d-k%d" % (MN[m], i, k), "c11_kbest.cpp", METRIC=m, SHAPES=i, THI=0, THFIX=t, RATIO=0.5, WHOLE=1, MODE=1, KLO=k, KHI=k, FULL=0, reach=["end", "budget"], **grid(0, 4, 0))
wide("C14", "6547", "c14_normalise.cpp", TIMES=1, LENS=6547, MODE=7, WIDE=16, **grid(-13, 13, 1))
wide("C20", "95", "c20_paa.cpp", LENS=95, BHI=10, STEPS=2, reach=["end", "refused", "range"], WIDE=5, **grid(-4, 4, 1))
wide("C23", "54", "c23_range.cpp", LENS=54, RATIO=0.5, WIDE=99, **grid(-1, 1, 1))
wide("C26", "65", "c26_clock.cpp", LENS=65, WIDE=18, **grid(-2, 2, 1))
wide("C01", "api", "c01_api.cpp", METRIC=MAN, LENS=75, reach=["end", "refused"], WIDE=9, **grid(-3, 3, 1))
wide("C03", "api", "c03_api.cpp", METRIC=EUC, LENS=65, reach=["end", "apart"], WIDE=9, **grid(-2, 2, 1))
wide("C09", "333", "c09_threads.cpp", threads=1, METRIC=MAN, LENS=333, QLEN=2, MODE=1, TH=0.75, WHOLE=0, REGROUP=1, THREADS=2, WIDE=99, **grid(0, 1, 0))
wide("C09", "44", "c09_threads.cpp", 1500, T, threads=1, METRIC=EUC, LENS=44, QLEN=2, MODE=1, TH=0.75, WHOLE=0, REGROUP=0, THREADS=2, WIDE=99, **grid(0, 1, 0))
wide("C24", "9", "c24_values.cpp", LN=9, WIDE=3, **grid(-9, 9, 3))
wide("C25", "54", "c25_refused.cpp", LENS=54, STEPS=2, WIDE=9, **grid(-1, 1, 1))
wide("C27", "op", "c27_repeat.cpp", heap=1, LENS=54, QLEN=4, MODE=1, STEPS=2, OPS=-1, WIDE=99, **grid(-1, 1, 1))
WIDE_TEXT = {"C01": "two series of 7 and 5", "C02": "lengths 9x9 and 12x8", "C03": "lengths 8x8, 9x6 and 6x5", "C04": "lengths 8x8 and 8x7", "C05": "lengths 8x7 and 7x9", "C06": "12 values, histories on 8",
    "C07": "three series of 8, 6 and 7", "C08": "three series of 8, 6 and 7", "C09": "three series of 3 (thorough: two of 4)", "C10": "two series of 7 and 6, query of 5", "C11": "two series of 6 and 5, query of 4, k 1..9",
    "C12": "two series of 6 and 5, query of 4, k and budget 1..9, and five or six whole series of 4 in every order", "C13": "two series of 6 and 5, query of 5, k 1..8", "C14": "four series of 4..7", "C17": "two series of 6 and 5", "C18": "two series of 6 and 5", "C20": "series of 9 and 5, blocks up to 10",
    "C21": "two series of 6 and 5, query of 5, blocks up to 4, k 1..6", "C23": "two series of 5 and 4", "C24": "9 values", "C25": "two series of 5 and 4", "C26": "two series of 6 and 5", "C27": "two series of 5 and 4, query of 4"}
for p, t in WIDE_TEXT.items(): PROPS[p]["bounds"] += "; with all but at most six of the data values fixed also " + t

# ---------------------------------------------------------------- C32
J = [job("cut-%d%s" % (l, "-whole" if w else ""), "c32_damaged.cpp", LENS=l, WHOLE=w, TH=1, KIND=0, reach=["end", "refused"], **grid(0, 1, 0)) for l, w in ((22, 0), (3, 0), (32, 0), (22, 1))]
J += [job("entry-%d%s" % (l, "-whole" if w else ""), "c32_damaged.cpp", LENS=l, WHOLE=w, TH=1, KIND=1, reach=["end", "refused", "value"], **grid(0, 1, 0)) for l, w in ((22, 0), (3, 0), (32, 0), (22, 1))]
J += [job("compressed-%d" % l, "c32_damaged.cpp", LENS=l, WHOLE=0, TH=1, KIND=2, CUTS=0, reach=["refused"], **grid(0, 1, 0)) for l in (22, 32)]
J += [job("compressed-large", "c32_damaged.cpp", WHOLE=0, TH=100, KIND=2, CUTS=12, BIG=50, WIDE=40, reach=["refused"], **grid(0, 1, 0))]
PROPS["C32"] = dict(jobs=J,
    bounds="datasets of 2 series of up to 3 values; text files cut after any number of entries, any one entry replaced by any of -1..4, 1000000, 2147483647, a number out of range or a word; compressed files cut at 17 places",
    assumptions=["cuts fall between entries of the text format (a number cut in half is another number)", "a damaged compressed file is noticed by the archive or compression library, as a cut one is"])
# ---------------------------------------------------------------- C33
J = []
for w, r in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1), (3, 0)):
    nm = "%s-%s" % (("dataset", "groups", "text-groups", "sizes")[w], "read" if r else "write"); full = ["complete"] if w < 3 else []
    for l in (22, 32): J.append(job("%s-%d" % (nm, l), "c33_faults.cpp", LENS=l, WHOLE=w == 2 and l == 32 and 1 or 0, TH=1, WHAT=w, READ=r, STEPS=24, reach=["end", "reported"] + full, **grid(0, 1, 0)))
PROPS["C33"] = dict(jobs=J,
    bounds="one dataset of series of 3 and 2 values; a disk with room for 0/24, 1/24, ... 24/24 and 25/24 of the file; a read error at any of these places",
    assumptions=["an output stream notices a full disk when it is flushed or closed", "an input stream notices an unreadable position when it gets there"])
# ---------------------------------------------------------------- C31
J = [job("%dx%d" % (w, t), "c31_pool.cpp", threads=1, WORKERS=w, TASKS=t) for w, t in ((1, 2), (1, 3), (2, 1), (3, 1))]
J += [job("2x2-%s-%s" % ("last" if e else "first", "throws%d" % b if b + 1 else "returns"), "c31_pool.cpp", threads=1, WORKERS=2, TASKS=2, args=["--fix", "destroyed_first#0=%d" % e, "--fix", "fails#0=%d" % b]) for e in (0, 1) for b in (-1, 0, 1)]
J += [job("nested-%d" % e, "c31_pool.cpp", threads=1, WORKERS=1, TASKS=1, NESTED=1, args=["--fix", "destroyed_first#0=%d" % e]) for e in (0, 1)]
J += [job("races", "c31_pool.cpp", threads=1, WORKERS=2, TASKS=2, SX_PREEMPT=1, args=["--preempt", "1"]), job("2x3", "c31_pool.cpp", 3000, T, threads=1, mem=24, WORKERS=2, TASKS=3, args=["--fix", "fails#0=-1"]), job("races-3", "c31_pool.cpp", threads=1, WORKERS=2, TASKS=3, SX_PREEMPT=1, args=["--preempt", "1"]), job("races-nested", "c31_pool.cpp", threads=1, WORKERS=2, TASKS=1, NESTED=1, SX_PREEMPT=1, args=["--preempt", "1"])]
PROPS["C31"] = dict(jobs=J,
    bounds="every interleaving of the synchronisation operations of 1 worker with 1..3 tasks, 2 workers with 1 or 2 (3 tasks: with at most one preemption) and 3 workers with 1, any one of which may throw, results asked for before or after the pool is gone, a task that hands on another one", assumptions=["accesses between synchronisation operations are not interleaved; that this loses nothing is what the race check shows, which looks at one history per reached state and at every history with one preemption", "condition variables do not wake spuriously"])
