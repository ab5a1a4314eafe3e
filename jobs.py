"""Which generated groups decide which property, and how many cases per tier."""
import os, sys
from check import Job, SIZES, HERE, REPO

POOL = os.path.join(HERE, "data", "pool_@SIZE@.txt")

def P(reps=None, backend="fast", threads=False, san=""):
    return {"lib": ("poik", dict(backend=backend, reps=reps, threads=threads, san=san))}

T = dict(quick=1, thorough=30)

def c01(t):
    J = []
    n = dict(quick={434: 16, 503: 12, 610: 4, 751: 3}, thorough={434: 400, 503: 300, 610: 120, 751: 90})[t]
    for s in SIZES:
        J.append(Job("poik", "honest_small", s, n[s], P(2, threads=True), chunk=max(1, n[s] // 6), variant="t", cost=s / 200))
        J.append(Job("poik", "honest_small", s, (n[s] + 1) // 2, P(1, "generic"), chunk=max(1, n[s] // 6), variant="g", cost=s / 200))
    for s, q, th in ((434, 2, 40), (503, 1, 24), (610, 0, 10), (751, 0, 8)):
        if q or t != "quick": J.append(Job("poik", "honest_full", s, q if t == "quick" else th, P(None, threads=True), chunk=1, variant="full", cost=s / 8))
    return J

def c02(t):
    J = []
    n = dict(quick={434: 99, 503: 66, 610: 33, 751: 33}, thorough={434: 4000, 503: 2500, 610: 1200, 751: 900})[t]
    for s in SIZES:
        J.append(Job("poik", "chain_flaw", s, n[s], P(1, threads=True), chunk=max(1, n[s] // 10), variant="t", cost=s / 300))
        J.append(Job("poik", "chain_flaw", s, n[s] // 9, P(1, "generic"), chunk=max(1, n[s] // 10), variant="g", cost=s / 300))
        J.append(Job("poik", "chain_honest", s, n[s] // 4, P(1, threads=True), chunk=max(1, n[s] // 10), variant="t", cost=s / 300))
    return J

def c03(t):
    J = []
    n = dict(quick={434: 56, 503: 42, 610: 28, 751: 14}, thorough={434: 3000, 503: 2000, 610: 900, 751: 600})[t]
    f = dict(quick={434: 3, 503: 2, 610: 1, 751: 1}, thorough={434: 160, 503: 120, 610: 60, 751: 40})[t]
    off = {434: 2, 503: 5, 610: 8, 751: 12}
    for s in SIZES:
        A = dict(pool=POOL)
        for reps in (1, 2, 6, 11):
            k = n[s] // (1 if reps <= 2 else 2 if t == "thorough" else 4)
            J.append(Job("poik", "splice_small", s, k, P(reps, threads=reps != 2), chunk=max(1, k // 3), variant="r%d" % reps, cost=s * reps / 800, args=dict(A, off=off[s] * reps)))
            if reps <= 2: J.append(Job("poik", "tag_memory", s, n[s] // 4, P(reps, threads=reps != 2), cost=s * reps / 500, variant="r%d" % reps, args=A))
            if reps <= 6: J.append(Job("poik", "challenge_digit", s, n[s] // (2 * reps), P(reps), cost=s * reps / 500, variant="r%d" % reps, args=A))
        J.append(Job("poik", "splice_full", s, f[s], P(None, threads=True), chunk=1, variant="full", cost=s / 10, args=dict(A, off=off[s])))
    J.append(Job("poik", "challenge_digit", 434, 4 if t == "quick" else 100, P(1, "generic"), cost=2, variant="g", args=dict(pool=POOL)))
    J.append(Job("poik", "splice_small", 503, 8 if t == "quick" else 200, P(1, "generic"), cost=2, variant="g", args=dict(pool=POOL)))
    return J

def c04(t):
    J = []
    n = dict(quick={434: 135, 503: 99, 610: 63, 751: 45}, thorough={434: 2000, 503: 1500, 610: 800, 751: 500})[t]
    for s in SIZES:
        J.append(Job("poik", "curve_check", s, n[s], P(1, threads=True), chunk=9, variant="t", cost=s / 200))
        J.append(Job("poik", "curve_check_many", s, n[s] // 4, P(1), chunk=max(1, n[s] // 12), cost=s / 200))
    J.append(Job("poik", "curve_check_many", 434, 2 if t == "quick" else 100, P(1, "generic"), cost=9, variant="g"))
    return J

def c05(t):
    J = []
    m = 1 if t == "quick" else 25
    for s, k in zip(SIZES, (16, 12, 6, 5)):
        J.append(Job("poik", "leak_fresh", s, k * m, P(6), chunk=1, cost=s / 100))
    for s, k in zip(SIZES, (8, 5, 2, 2)):
        J.append(Job("poik", "leak_bottom", s, k * m, P(2), chunk=1, cost=s / 50))
    J.append(Job("poik", "leak_directions", 434, 1 * (m if m < 4 else 4), P(11, threads=True), chunk=1, cost=30, args=dict(steps=0)))
    J.append(Job("poik", "leak_fresh", 434, 1 * m, P(None, threads=True), chunk=1, cost=20, variant="full"))
    if t != "quick":
        for s in SIZES: J.append(Job("poik", "leak_directions", s, 3, P(11, threads=True), chunk=1, cost=30, args=dict(steps=7), variant="all"))
    return J

def c06(t):
    J = []
    n = dict(quick={434: 150, 503: 100, 610: 60, 751: 40}, thorough={434: 2000, 503: 1500, 610: 900, 751: 600})[t]
    for s in SIZES:
        J.append(Job("poik", "secret_walk", s, n[s], P(1), chunk=max(1, n[s] // 6), cost=s / 400))
        J.append(Job("poik", "secret_entropy", s, max(2, n[s] // 15), P(1), chunk=1 if t == "quick" else 10, cost=s / 60))
        J.append(Job("poik", "secret_directions", s, max(1, n[s] // 30), P(1), chunk=1, cost=s / 40))
    return J

def c07(t):
    J = []
    m = 1 if t == "quick" else 30
    for s in SIZES:
        for reps in (1, 3):
            L = P(reps, san="asan"); v = "r%d" % reps
            J += [Job("text", "text_roundtrip", s, 60 * m, L, san="asan", variant=v), Job("text", "text_mutate", s, 500 * m, L, san="asan", variant=v, chunk=250),
                  Job("text", "text_random", s, 300 * m, L, san="asan", variant=v), Job("text", "text_write_fault", s, 40 * m, L, san="asan", variant=v), Job("text", "text_truncate", s, 3 * m, L, san="asan", variant=v)]
        J += [Job("text", "text_roundtrip", s, 3 * m, P(None, san="asan"), san="asan", variant="full"), Job("text", "text_mutate", s, 16 * m, P(None, san="asan"), san="asan", variant="full")]
    return J

def c08(t):
    J = []
    m = 1 if t == "quick" else 20
    for s, k in zip(SIZES, (3, 2, 1, 1)):
        for reps in ((2,) if s > 503 else (1, 3)):
            T = dict(tools={"prove": ("prove", dict(reps=reps)), "verify": ("verify", dict(reps=reps))}, args=dict(reps=reps, pool=POOL), variant="r%d" % reps)
            J += [Job("cli", "cli_verify", s, 26 * k * m, chunk=13, cost=s / 400, **T), Job("cli", "cli_prove", s, 9 * k * m, chunk=9, cost=s / 200, **T), Job("cli", "cli_fault", s, 24 * k * m, chunk=16, cost=s / 200, **T)]
    return J

def c09(t):
    def P(reps, threads=True, san=""):
        return {"lib": ("poik", dict(reps=reps, threads=True, san=san, extra=("-Dsysconf=vg_sysconf", "-Dpthread_create=vg_pthread_create")))}
    J = []
    m = 1 if t == "quick" else 15
    for th in (1, 2, 3, 8, 17, 64):
        for s in ((434,) if th not in (3, 17) else (503,) if th == 3 else (434, 610, 751)):
            A = dict(pool=POOL, threads=th)
            for reps in (5, 19) if s == 434 else (7,):
                J.append(Job("threads", "thr_verify", s, ((reps + 1) // 2 * m if s == 434 else 2 * m), P(reps, threads=True), chunk=max(1, reps * m // 4), variant="t%dr%d" % (th, reps), args=A, cost=reps * s / 800))
            J.append(Job("threads", "thr_prove", s, 3 * m if s == 434 else m, P(5, threads=True), chunk=max(1, 2 * m), variant="t%d" % th, args=A, cost=s / 80))
    for th in (2, 5):
        A = dict(pool=POOL, threads=th, lockfree=1)
        J.append(Job("threads", "thr_verify", 434, 6 * m, P(3, threads=True, san="tsan"), chunk=max(1, 2 * m), san="tsan", variant="tsan%d" % th, args=A, cost=8))
        J.append(Job("threads", "thr_prove", 434, 2 * m, P(3, threads=True, san="tsan"), chunk=max(1, m), san="tsan", variant="tsan%d" % th, args=A, cost=10))
    # the system entropy source is opened by whichever worker needs it first (one case per process)
    for th in (2, 4, 8): J.append(Job("threads", "thr_first", 434, 1 * m, {"lib": ("poik", dict(reps=4, threads=True, san="tsan", system_entropy=True, extra=("-Dsysconf=vg_sysconf", "-Dpthread_create=vg_pthread_create"))), "gen": ("poik", dict(reps=4))}, chunk=1, san="tsan", variant="tsan%d" % th, args=dict(pool=POOL, threads=th, lockfree=1), cost=10))
    if t != "quick":
        for s in SIZES: J.append(Job("threads", "thr_verify", s, 12, P(None, threads=True), chunk=1, variant="full", args=dict(pool=POOL, threads=8), cost=s / 10))
    return J

def S(backend="fast", san=""):
    return {"sidh": ("sidh", dict(backend=backend, san=san)), "comp": ("comp", dict(backend=backend, san=san))}

def c10(t):
    J = []
    m = 2 if t == "quick" else 40
    for s, k in zip(SIZES, (18, 12, 6, 6)):
        J.append(Job("entropy", "ent_poik", s, k * m, P(3), chunk=max(3, k * m // 3), variant="s", cost=s / 200, args=dict(pool=POOL)))
        J.append(Job("entropy", "ent_poik", s, (k // 2) * m, P(3, threads=True), chunk=max(3, k * m // 6), variant="t", cost=s / 200, args=dict(pool=POOL, threaded=1)))
        J.append(Job("entropy", "ent_kem", s, 8 * m, S(), chunk=8, cost=s / 300))
    J.append(Job("entropy", "ent_source", 434, 400 * m, {"rnd": ("random", dict())}, cost=0.01))
    J.append(Job("entropy", "ent_source", 434, 200 * m, {"rnd": ("random", dict(san="asan"))}, san="asan", cost=0.01, variant="asan"))
    return J

def c11(t):
    J = []
    m = 1 if t == "quick" else 60
    def grp(s, kind, be, n, san=""):
        L = {"lib": (kind, dict(backend=be, san=san, **({"reps": 1} if kind == "poik" else {})))}; v = kind + be + san; C = max(400, n * m // 6); K = dict(variant=v, chunk=C, san=san)
        J.extend([Job("field", "fp_bin", s, n * m, L, **K), Job("field", "fp2_bin", s, n * m, L, **K), Job("field", "fp_un", s, n * m // 2, L, **K), Job("field", "fp2_un", s, n * m // 2, L, **K), Job("field", "fp2_more", s, n * m // 20, L, **K), Job("field", "mp_words", s, n * m // 3, L, **K)])
        if be == "generic": J.append(Job("field", "fp_sub_p4", s, n * m // 6, L, **K))
        if kind == "comp": J.append(Job("field", "order_arith", s, n * m // 4, L, **K))
    for s in SIZES:
        for be in ("fast", "generic"): grp(s, "comp", be, 200000)
        for kind in ("sidh", "poik"):
            for be in ("fast", "generic"): grp(s, kind, be, 4000)
        grp(s, "comp", "generic", 2000, "asan")
    for be in ("mulx", "plain"): grp(751, "sidh", be, 12000)
    return J

def c15(t):
    J = []
    m = 1 if t == "quick" else 40
    for be, san, n in (("fast", "", 3000), ("generic", "", 1000), ("fast", "asan", 600)):
        L = {"lib": ("sidh", dict(backend=be, san=san))}; K = dict(san=san, variant=be + san)
        J += [Job("hash", "shake_oneshot", 434, n * m, L, chunk=max(300, n * m // 8), **K), Job("hash", "shake_blocks", 434, n // 2 * m, L, chunk=max(300, n * m // 8), **K), Job("hash", "shake_every", 434, 16 * min(m, 10), L, chunk=16, **K)]
    J.append(Job("hash", "shake_huge", 434, 4 if t == "quick" else 8, {"lib": ("sidh", dict())}, chunk=1, cost=30, shrink=0))
    return J

BASIS = dict(basis=os.path.join(HERE, "data", "basis.txt"), corner=os.path.join(HERE, "data", "corner_comp.txt"))

def sike_jobs(t, groups, q, th):
    J = []
    n = (q if t == "quick" else th)
    for s in SIZES:
        w = {434: 1.0, 503: 1.5, 610: 3.0, 751: 5.0}[s]
        for g, f in groups:
            k = max(1, int(n * f / w))
            J.append(Job("sike", g, s, k, S(), chunk=max(1, k // 6), variant="f", args=BASIS, cost=w * .1))
            k = max(2, int(n * f / w / 12))
            J.append(Job("sike", g, s, k, S("generic"), chunk=max(1, k // 6), variant="g", args=BASIS, cost=w * .6))
    return J
def c12(t): return sike_jobs(t, (("kex", 1), ("key_range", 4)), 1800, 30000)
def c13(t): return sike_jobs(t, (("kem_plain", 1), ("alter_plain", 3), ("flip_plain", .4)), 400, 15000)
def c14(t): return sike_jobs(t, (("ckex", 1), ("kem_comp", .6), ("alter_comp", 1.5), ("flip_comp", .15)), 500, 9000)

def c16(t):
    J = []
    m = 1 if t == "quick" else 40
    def pair(s, other, n, first="fast"):
        L = {"sidh": ("sidh", dict(backend=first)), "comp": ("comp", dict(backend=first)), "sidh2": ("sidh", dict(backend=other)), "comp2": ("comp", dict(backend=other))}
        w = {434: 1.0, 503: 1.4, 610: 2.6, 751: 4.0}[s]
        for g, f in (("be_kex", 1), ("be_kem", .8), ("be_ckex", .5), ("be_ckem", .4)):
            k = max(3, int(n * f * m / w)); J.append(Job("backend", g, s, k, L, chunk=max(1, k // 6), variant=other, cost=w * .5))
    for s in SIZES: pair(s, "generic", 100)
    for o in ("mulx", "plain"): pair(751, o, 160)
    for s, k in zip(SIZES, (4, 3, 2, 2)):
        L = {"lib": ("poik", dict(backend="fast", reps=1)), "lib2": ("poik", dict(backend="generic", reps=1))}
        J.append(Job("poik", "backend_proofs", s, k * 2 * m, L, chunk=max(1, k * m // 4), variant="b", cost=s / 60))
    return J

def c18(t):
    J = []
    m = 1 if t == "quick" else 40
    for s, w in zip(SIZES, (1.0, 1.4, 2.4, 4.0)):
        for be, f, san in (("fast", 1, "asan"), ("generic", .15, "asan"), ("fast", 1.5, "")):
            L = dict(S(be, san)); L["lib"] = ("poik", dict(backend=be, reps=2, san=san))
            for g, n in (("hist_plain", 120), ("hist_comp", 60), ("hist_poik", 20)):
                k = max(2, int(n * f * m / w)); J.append(Job("pure", g, s, k, L, chunk=max(1, k // 6), san=san, variant=be + san, cost=w * (1 if san else .3)))
    return J

def c17(t):
    J = []
    m = 1 if t == "quick" else 60
    for s, w in zip(SIZES, (1.0, 1.3, 2.2, 3.5)):
        for be, n in (("fast", 448), ("generic", 112)):
            L = {"sidh": ("sidh", dict(backend=be, san="ct"))}
            k = max(28, int(n * m / w)); J.append(Job("ct", "ct_plain", s, k, L, chunk=max(1, k // 6), san="ct", variant=be, cost=w))
        for op in ("kga", "kgb", "aga", "agb", "enc", "dec"):          # all recorded as known findings
            J.append(Job("ct", "ct_comp_" + op, s, 2, {"comp": ("comp", dict(backend="fast", san="ct"))}, san="ct", variant="fast", cost=w, shrink=3))
    return J

import texts
SECOND = dict(extra=("-DVG_SECOND_COPY",))      # a separate copy of the library, for preparing arguments
def c19(t):
    J = []
    m = 1 if t == "quick" else 40
    for s, w in zip(SIZES, (1.0, 1.4, 2.4, 4.0)):
        for be, f, san in (("fast", 1, ""), ("generic", .2, ""), ("fast", .2, "tsan"), ("generic", .1, "tsan")):
            for g, n in (("call_plain", 80), ("call_comp", 40)):
                k = max(2, int(n * f * m / w)); J.append(Job("callers", g, s, k, dict(S(be, san), sidh0=("sidh", SECOND), comp0=("comp", SECOND)), chunk=max(1, k // 4), san=san, variant=be + san, cost=w * (3 if san or be != "fast" else .5), shrink=20))
        for th, san, n in ((False, "", 12), (True, "", 8), (False, "tsan", 2), (True, "tsan", 2)):
            k = max(1, int(n * m / w)); J.append(Job("callers", "call_poik", s, k, {"lib": ("poik", dict(reps=2, threads=th, san=san, extra=("-Dsysconf=vg_sysconf",) if th else ()))}, chunk=max(1, k // 4), san=san, variant=("t" if th else "s") + san, args=dict(pool=POOL, **({"workers": 3} if th else {})), cost=w * 4, shrink=20))
    return J

def c20(t):
    J = []
    m = 1 if t == "quick" else 25
    A = dict(pool=POOL, python=sys.executable or "/usr/bin/python3", runner=os.path.join(HERE, "sage", "run.py"), script=os.path.join(REPO, "sage-impl", "verify.sage"))
    for s, n, w in ((434, 39, 2.0), (503, 13, 3.0), (610, 6, 5.0), (751, 4, 8.0)):
        J.append(Job("sage", "sage_chain", s, n * m, P(1), chunk=max(1, min(n * m // 4, 8)), variant="r1", cost=w * 2, args=dict(A, off={434: 0, 503: 3, 610: 5, 751: 8}[s]), shrink=60))
        J.append(Job("sage", "sage_proof", s, (28 if s == 434 else 8 if s == 503 else 3) * m, P(2), chunk=3 * m, variant="r2", cost=w * 5, args=dict(A, off={434: 0, 503: 3, 610: 10, 751: 0}[s]), shrink=60))
        J.append(Job("sage", "sage_full", s, 3 * (m if s == 434 else (m + 4) // 5) if s == 434 or t != "quick" else 1, P(1), chunk=1, variant="full", cost=w * 15, args=dict(A), shrink=60))
    return J

PROPS = {p: dict(fn=globals()[p.lower()], **d) for p, d in texts.T.items() if p.lower() in globals()}

def jobs(prop, tier):
    return PROPS[prop]["fn"](tier)
