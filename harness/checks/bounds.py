"""C16 sample-count search, C17 radius search, C18 numerical bound -- against specs/Bounds*.tla (big numbers: specs/Big.tla);
C42 tail bounds, C43 closed-form net bounds -- against specs/Tails*.tla."""
import math, os
from fractions import Fraction
import numpy as np
import env
from core import Machinery, guard, pmap, quiet

INV = "SPECIFICATION Spec\nINVARIANTS DoubleRight HalveRight BigRight PiRight\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n"
MC = dict(n=40, r=20, tol=4, variant="ok")
XS = [0, 1, 2, 3, 5, 14, 100, 16383, 16384, 16385, 39999, 65537, 1000003, 2 ** 29]


def limbs(n):
    out = []
    while n > 0:
        out.append(n % 16384)
        n //= 16384
    return out


class Stuck(Exception):
    pass


def whole(o):
    """(outcome, limbs) of a call that returns a count"""
    if o[0] != "ok":
        return (o[1] if o[0] == "raise" else o[0]), []
    try:
        v = o[1]
        n = int(v)
        return ("ok", limbs(n)) if n == v and n >= 0 else ("value %r" % v, [])
    except Exception:
        return "value", []


# ------------------------------------------------------------------------------------------------- C16
def double_job(job):
    peak, cross, succ, shape, never, step = job
    from nonasymptotic import bound
    lev = math.floor(math.log2(1 - succ))       # whole number at or below the allowed level
    calls = [0]

    def f(m):
        calls[0] += 1
        if calls[0] > 30000:
            raise Stuck()
        m = int(m)
        if never == "flat":
            return lev + 1
        if never == "rise":
            return lev + m if shape else m - 10 ** 320
        x = max(m, peak)
        v = lev - (x - cross) // step if x >= cross else lev + 1 + (cross - 1 - x) // step
        if m < peak:
            v -= peak - m
        return float(v) if shape and abs(v) < 2 ** 50 else v
    o = guard(bound.doubling_sample_search_over_log2_prob_bound, f, succ, limit=10)
    out, ans = whole(o)
    return dict(kind="double", out=out, ans=ans, peak=limbs(peak), cross=limbs(cross), never=bool(never), info="%d %d %s" % (peak, cross, succ))


def c16(ctx):
    ctx.tlc("BoundsMC", INV, params=dict(MC, xs=XS, n=ctx.q(40, 120)), label="both searches, every small bound; big numbers")
    ctx.refuted("BoundsMC", INV, params=dict(MC, xs=[0], variant="level"))
    rng = ctx.rng
    jobs = []
    for P in range(1, ctx.q(26, 70)):
        for X in range(1, ctx.q(26, 70)):
            jobs.append((P, X, rng.choice([0.5, 0.99, 0.9, 0.75]), rng.random() < 0.5, None, 1))
    for _ in range(ctx.q(1500, 20000)):
        e = rng.choice([6, 12, 30, 52, 53, 54, 60, 64, 100, 300, 700, 985])
        X = rng.randint(2 ** (e - 1), 2 ** e) + rng.choice([0, 0, 1, -1])
        if rng.random() < 0.3:
            X = 2 ** e + rng.choice([-1, 0, 1])
        t = rng.random()
        P = 1 if t < 0.3 else rng.randint(1, X) if t < 0.6 else X + rng.choice([-1, 0, 1, 2]) if t < 0.8 else min(X * rng.randint(1, 50), 2 ** 986)
        step = rng.choice([1, 1, 1, 7, 2 ** max(1, e // 2)])
        jobs.append((max(P, 1), X, rng.choice([0.5, 0.9, 0.99, 1 - 2 ** -20, 0.1]), rng.random() < 0.5, None, step))
    for nv in ("flat", "rise"):
        jobs += [(1, 1, s, b, nv, 1) for s in (0.5, 0.99) for b in (False, True)]
    jobs += [(1, 2 ** 1100, 0.9, False, None, 1), (2 ** 1010, 5, 0.9, False, None, 1), (1, 2 ** 993, 0.9, False, None, 1), (1, 2 ** 996, 0.9, False, None, 1)]
    tr = pmap(double_job, jobs)
    ctx.cov["bounds_searched"] = len(jobs)
    ctx.validate("BoundsTrace", tr)
    ctx.assumptions.append("up to 2^990 the answer must be exact, beyond 2^1000 the search must overflow; in between either")


# ------------------------------------------------------------------------------------------------- C17
U = 2.0 ** 26


def halve_job(job):
    lb, ub, cross, tol, succ, shape, slope = job        # in units of 2^-26; tol None = default
    from nonasymptotic import bound
    lev = math.log(1 - succ)
    calls = [0]

    def f(r):
        calls[0] += 1
        if calls[0] > 5000:
            raise Stuck()
        x = r - cross / U
        if shape == "lin":
            return lev + slope * x
        if shape == "jump":
            return x - 50 if x <= 0 else x + 50
        return lev + slope * math.expm1(max(-30.0, min(x, 30.0)))
    kw = {} if tol is None else dict(tol=tol / U)
    o = guard(bound.halving_radius_search_over_log_prob_bound, f, lb / U, ub / U, succ, limit=10, **kw)
    t = dict(kind="halve", lb=lb, ub=ub, cross=max(-2 ** 30, min(2 ** 30, cross)), tol=68 if tol is None else tol, out=o[0], ans=0)
    if o[0] == "ok":
        try:
            t["ans"] = int(math.floor(float(o[1]) * U + 0.5))
        except Exception:
            t["out"] = "value"
    return t


def linear_job(job):
    lb, ub, cross, tol, succ, slope = job
    from nonasymptotic import bound
    calls = [0]

    def f(r):
        calls[0] += 1
        if calls[0] > 20000:
            raise Stuck()
        return (1 - succ) + slope * (r - cross / U)
    kw = {} if tol is None else dict(tol=tol / U)
    o = guard(bound.linear_radius_search_over_prob_bound, f, lb / U, ub / U, succ, limit=10, **kw)
    t = dict(kind="linear", lb=lb, ub=ub, cross=cross, tol=68 if tol is None else tol, out=o[1] if o[0] == "raise" else o[0], ans=0)
    if o[0] == "ok":
        try:
            t["ans"] = int(math.floor(float(o[1]) * U + 0.5))
        except Exception:
            t["out"] = "value"
    return t


def c17(ctx):
    ctx.tlc("BoundsMC", INV, params=dict(MC, xs=[0], n=4, r=ctx.q(24, 40), tol=ctx.q(5, 8)), label="radius search, every small bracket")
    rng = ctx.rng
    jobs = []
    for _ in range(ctx.q(6000, 60000)):
        k = rng.choice([2 ** 8, 2 ** 14, 2 ** 20, 2 ** 26, 2 ** 29])
        lb = rng.choice([0, 1, rng.randint(0, k)])
        ub = lb + rng.choice([1, 2, 63, 64, 65, 128, rng.randint(1, k), k])
        t = rng.random()
        cross = rng.randint(lb, ub) if t < 0.7 else lb - rng.randint(0, 50) if t < 0.8 else ub + rng.randint(0, 10 ** 6) if t < 0.9 else rng.choice([lb, ub, ub - 1, lb + 1])
        tol = rng.choice([None, 64, 64, 100, 1024, 2 ** 16])
        if t > 0.98:
            ub = lb - rng.choice([0, 1, 1000]) if rng.random() < 0.5 else lb
        if abs(ub) < 2 ** 30:
            jobs.append((lb, ub, cross, tol, rng.choice([0.5, 0.9, 0.99, 0.999999]), rng.choice(["lin", "exp", "jump"]), rng.choice([1.0, 5.0, 300.0])))
    lin = []
    for _ in range(ctx.q(1500, 10000)):
        given = rng.choice([None, 64, 1024, 2 ** 16, 2 ** 20])
        tol = given or 68
        lb = rng.choice([0, tol, rng.randint(0, 2 ** 24)])
        ub = lb + tol * rng.choice([0, 1, 2, 7, rng.randint(1, 400)]) + rng.choice([0, tol // 3])
        lin.append((lb, ub, rng.choice([rng.randint(lb, ub), rng.randint(lb, ub), lb - 100, ub + 2 * tol + 50, ub]), given, rng.choice([0.5, 0.9, 0.99]), rng.choice([1.0, 20.0])))
    tr = pmap(halve_job, jobs) + pmap(linear_job, lin)
    ctx.cov["linear_scans"] = len(lin)
    ctx.cov["brackets"] = len(jobs)
    ctx.validate("BoundsTrace", tr)
    ctx.assumptions.append("bounds grow strictly; the tolerance is above the floating-point resolution of the bracket (2^-20 against values below 16)")


# ------------------------------------------------------------------------------------------------- C18
TOLS = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (7, 24, 25), (24, 7, 25), None]
FAIL = [(1, 2), (1, 4), (1, 10), (1, 100), (1, 1024), (3, 4), (1, 2 ** 20), (9, 10), (99, 100)]


def numeric_job(job):
    cn, cd, tol, d, vn, vd, fn, fd = job
    from nonasymptotic import bound
    tn, td, h = tol or (1, 0, 1)
    with quiet():
        o = guard(bound.compute_numerical_bound, cn / cd, 1 - fn / fd, vn / vd, d, None if tol is None else tn / td, limit=60)
        rr = guard(bound.compute_connection_radius, cn / cd, tn / td) if tol else None
    base = dict(cn=cn, cd=cd, tn=tn, td=td, h=h)
    if o[0] != "ok" or not isinstance(o[1], tuple) or len(o[1]) != 2:
        return [dict(kind="numeric", out=str(o[:3]), ans=[2], d=d, vn=vn, vd=vd, fn=fn, fd=fd, **base)]
    out, ans = whole(("ok", o[1][0]))
    radii = [float(o[1][1])] + ([float(rr[1])] if rr and rr[0] == "ok" else [])
    okr = (rr is None or rr[0] == "ok") and all(math.isfinite(r) and abs(r) < 20 for r in radii)
    return [dict(kind="numeric", out=out, ans=ans if out == "ok" else [2], d=d, vn=vn, vd=vd, fn=fn, fd=fd, **base),
            dict(kind="rad", out="ok" if okr else "error", ans=[round(r * 10 ** 6) for r in radii] if okr else [], **base)]


def comb_job(job):
    m, v = job
    from nonasymptotic import bound
    out, ans = whole(guard(bound.compute_ss_comb_sum, m, v))
    return dict(kind="comb", out=out, ans=ans, m=limbs(m), v=v)


def chain_job(job):
    what, args = job
    from nonasymptotic import bound
    rs = [guard(bound.compute_numerical_bound, *a, limit=60) for a in args]
    ok = all(r[0] == "ok" for r in rs)
    return dict(kind="chain", what=what, out="ok" if ok else "error", ans=[limbs(int(r[1][0])) for r in rs] if ok else [])


def c18(ctx):
    ctx.tlc("BoundsMC", INV, params=dict(MC, n=6, r=6, tol=2, xs=XS + [rng_x for rng_x in (7, 31, 999, 123456, 2 ** 28 + 3)]), label="big numbers, logarithms, pi")
    rng = ctx.rng
    jobs = []
    for d in range(1, 7):
        for tol in TOLS:
            for _ in range(ctx.q(3, 30)):
                cn, cd = rng.choice([(1, 2), (1, 4), (1, 10), (3, 20), (2, 5), (1, 20), (1, 16)])
                if rng.random() < 0.2:
                    cd = cd * 8
                vn, vd = rng.choice([(1, 1), (1, 2), (3, 1), (40, 1), (7, 4), (100, 1)])
                fn, fd = rng.choice(FAIL)
                jobs.append((cn, cd, tol, d, vn, vd, fn, fd))
    tr = [t for ts in pmap(numeric_job, jobs) for t in ts]
    tr += pmap(comb_job, [(rng.randint(1, 2 ** rng.choice([1, 3, 6, 12, 30, 53, 80, 200])), rng.randint(0, 12)) for _ in range(ctx.q(150, 1500))])
    ch = []
    for _ in range(ctx.q(60, 500)):
        d = rng.randint(1, 6)
        base = [rng.uniform(0.05, 0.5), rng.uniform(0.05, 0.999), rng.uniform(0.5, 20), d, rng.choice([None, rng.uniform(0.01, 5)])]

        def var(i, vals):
            return [tuple(base[:i] + [v] + base[i + 1:]) for v in vals]
        ch.append(("clearance", var(0, sorted((rng.uniform(0.02, 0.6) for _ in range(5)), reverse=True))))
        ch.append(("success probability", var(1, sorted(rng.choice([rng.uniform(0.01, 0.9999), 1 - 2.0 ** -rng.randint(1, 40)]) for _ in range(5)))))
        ch.append(("volume", var(2, sorted(rng.uniform(0.1, 50) for _ in range(5)))))
        ch.append(("tolerance", var(4, [None] + sorted((rng.uniform(0.01, 8) for _ in range(4)), reverse=True))))
    tr += pmap(chain_job, ch)
    from nonasymptotic import bound
    for s in (0.0, 1.0, -0.5, 1.5, -1e-9, 1 + 1e-9, 2, 0, 1):
        for tol in (None, 0.5):
            tr.append(dict(kind="refuse", out=guard(bound.compute_numerical_bound, 0.2, s, 1.0, 2, tol)[0], info=str(s)))
    ctx.cov["bounds_computed"], ctx.cov["chains"] = len(jobs), len(ch)
    ctx.validate("BoundsTrace", tr)
    ctx.assumptions += ["the specification evaluates the inequality to 2^-30; where neighbouring counts differ by less, either is accepted",
                        "exact cases use rational clearances and volumes and tolerances with a rational alpha (Pythagorean)"]


# ------------------------------------------------------------------------------------------------- C42, C43
FAILS = [(1, 2), (1, 4), (1, 10), (1, 100), (1, 1024), (3, 4), (9, 10), (1, 16000)]
TMC = "SPECIFICATION Spec\nINVARIANTS Bounds Corollary Blumer Const\nCHECK_DEADLOCK FALSE\n"
U42 = 2 ** 42


def ball(d):
    return math.pi ** (d / 2) / math.gamma(d / 2 + 1)


def fix42(x):
    """a finite number as sign and limbs, in units of 2^-42"""
    n = int(Fraction(float(x)) * U42)
    return [-1 if n < 0 else 1, limbs(abs(n))]


def measure(r, d, vol):
    """ball of radius r, in units of 2^-20, rounded down"""
    return max(0, min(2 ** 29, int(math.floor(ball(d) * r ** d / vol * 2 ** 20 + 1e-6))))


WHICH = dict(hoeffding="compute_tail_knn_radius_log_prob_hoeffding", mean="compute_tail_knn_radius_log_prob_hoeffding_mean_variant",
             generic="compute_tail_knn_radius_log_prob_chernoff_generic", kl="compute_tail_knn_radius_log_prob_chernoff_kl",
             alone="compute_tail_knn_radius_log_prob_chernoff_kl")


def tail_job(job):
    which, m, k, a, b, d, r, many = job
    from nonasymptotic import bound
    vol = ball(d) * r ** d * 2 ** b / a
    f = getattr(bound, WHICH[which])
    kw = dict(enable_union_bound_factor=False) if which == "alone" else {}
    rs = np.array([r * 0.5, r, r * 1.5]) if many else r
    with quiet():
        o = guard(f, m, k, rs, d, vol, limit=30, **kw)
    t = dict(kind="tail", which=which, m=m, k=k, a=a, b=b, out=o[0], ans=[], info="d=%d r=%s many=%s" % (d, r, many))
    if o[0] == "ok":
        try:
            v = float(np.asarray(o[1]).reshape(-1)[1] if many else o[1])
            if (many and np.shape(o[1]) != (3,)) or not math.isfinite(v):
                t["out"] = "value %r" % (o[1],)
            else:
                t["ans"] = [fix42(v / math.log(2))]
        except Exception:
            t["out"] = "value"
    return t


def cor_job(job):
    m, k, d, vol, fn, fd = job
    from nonasymptotic import bound
    with quiet():
        o = guard(bound.compute_eff_conn_rad_bound, m, k, d, vol, fn / fd, limit=30)
    t = dict(kind="cor", m=m, k=k, fn=fn, fd=fd, out=o[0], a=0, info="d=%d vol=%s" % (d, vol))
    if o[0] == "ok":
        try:
            t["a"] = measure(float(o[1]), d, vol)
        except Exception:
            t["out"] = "value %r" % (o[1],)
    return t


def search_job(job):
    m, k, d, vol, fn, fd, top = job
    from nonasymptotic import bound
    r1 = (vol / ball(d)) ** (1 / d)
    tol, ub = r1 * 2.0 ** -16, r1 * top
    with quiet():
        o = guard(lambda: bound.halving_radius_search_over_log_prob_bound(
            lambda r: bound.compute_tail_knn_radius_log_prob_chernoff_kl(m, k, r, d, vol), 0.0, ub, 1 - fn / fd, tol=tol), limit=30)
    t = dict(kind="search", m=m, k=k, fn=fn, fd=fd, out=o[0], a=0, a2=0, full=False, info="d=%d vol=%s top=%s" % (d, vol, top))
    if o[0] == "ok":
        try:
            r = float(o[1])
            t.update(a=measure(r, d, vol), a2=measure(r + 1.01 * tol, d, vol) + 1, full=r + 1.01 * tol >= ub)
        except Exception:
            t["out"] = "value %r" % (o[1],)
    return t


def net_job(job):
    m, d, vol, fn, fd, corr = job
    from nonasymptotic import bound
    with quiet():
        o = guard(bound.compute_net_radius_from_prob, d, m, fn / fd, vol, *([] if corr is None else [corr]), limit=30)
    c = m if corr is None else -(-m // corr)
    t = dict(kind="net", m=limbs(c), d=d, fn=fn, fd=fd, out=o[0], ans=[], info="n=%d vol=%s corr=%s" % (m, vol, corr))
    if o[0] == "ok":
        try:
            t["ans"] = limbs(int(Fraction(ball(d) * float(o[1]) ** d / vol * c / 2) * U42))
        except Exception:
            t["out"] = "value %r" % (o[1],)
    return t


def blumer_job(job):
    a, b, d, r, fn, fd, tol = job
    from nonasymptotic import bound
    vol = ball(d) * r ** d * 2 ** b / a
    with quiet():
        o = guard(bound.compute_blumer_bound, r, d, fn / fd, vol, limit=30)
        clear = r if tol is None else r * math.sqrt(1 + tol ** 2) / tol
        n = guard(bound.compute_numerical_bound, clear, 1 - fn / fd, vol, d, tol, limit=60)
    t = dict(kind="blumer", d=d, a=a, b=b, fn=fn, fd=fd, out=o[0] if n[0] == "ok" else n[0], ans=[], count=[1], searched=[1], info="r=%s tol=%s" % (r, tol))
    if t["out"] == "ok":
        try:
            v = float(o[1])
            t.update(ans=limbs(int(Fraction(v) * U42)), count=limbs(max(2, math.ceil(v))), searched=limbs(int(n[1][0])))
        except Exception:
            t["out"] = "value %r" % (o[1],)
    return t


def c42(ctx):
    P = dict(m=ctx.q(7, 11), bits=ctx.q([2, 3], [2, 4, 5]), fails=[2, 10, 1000, 16000], vc=2, eps=64, variant="ok")
    ctx.tlc("TailsMC", TMC.replace(" Blumer", ""), params=P, label="the inequalities against the exact binomial tail")
    for v in ("union", "range"):
        ctx.refuted("TailsMC", TMC, params=dict(P, m=5, bits=[2], variant=v))
    rng = ctx.rng
    jobs, cj, sj = [], [], []
    for _ in range(ctx.q(1200, 9000)):
        b = rng.choice([1, 2, 3, 4, 6, 8])
        a = rng.choice([1, 2 ** b - 1, 2 ** b, rng.randint(1, 2 ** b), rng.randint(1, 2 ** b)])
        which = rng.choice(list(WHICH))
        if rng.random() < 0.06:
            a = 2 ** b * 3
        m = rng.choice([2, 3, rng.randint(2, 12), rng.randint(2, 40), rng.choice([100, 500, 3000])])
        kk = (m - 1) * min(a, 2 ** b) / 2 ** b
        k = rng.choice([1, 2, m - 1, m if which in ("kl", "alone") else m - 1, rng.randint(1, m - 1), math.ceil(kk), math.ceil(kk) + 1, math.floor(kk)])
        k = max(1, min(k, m if which in ("kl", "alone") else m - 1))
        d = rng.randint(1, 6)
        jobs.append((which, m, k, max(a, 1), b, d, rng.choice([1.0, 0.5, 0.1, 2.0, rng.uniform(0.05, 3)]), rng.random() < 0.3))
    for _ in range(ctx.q(300, 3000)):
        fn, fd = rng.choice(FAILS)
        m = rng.choice([rng.randint(2, 40), rng.randint(2, 40), rng.randint(41, 20000)])
        k = rng.randint(1, max(1, m - 1)) if rng.random() < 0.7 else max(1, m - 1)
        if k * k >= 2 * k * (math.log(m) - math.log(fn / fd)) * 1.0001:
            cj.append((m, k, rng.randint(1, 6), rng.choice([1.0, 0.2, 5.0, 100.0, 0.01, rng.uniform(0.05, 20)]), fn, fd))
    for _ in range(ctx.q(200, 2000)):
        fn, fd = rng.choice(FAILS)
        m = rng.choice([rng.randint(2, 40), rng.randint(41, 2000)])
        sj.append((m, rng.randint(1, m), rng.randint(1, 6), rng.choice([1.0, 0.2, 5.0, rng.uniform(0.05, 20)]), fn, fd, rng.choice([1.0, 0.5, 1.5])))
    tr = pmap(tail_job, jobs) + pmap(cor_job, cj) + pmap(search_job, sj)
    ctx.cov.update(tail_bounds=len(jobs), corollary_radii=len(cj), searched_radii=len(sj))
    ctx.validate("TailsTrace", tr)
    ctx.assumptions += ["the generic Chernoff form claims nothing below the mean (k < (m-1)p); there only its formula is checked (the radius search relies on its hump)",
                        "Corollary 1 outside its range (fewer neighbours than its square root needs) is out of scope", "logarithms to about 2^-28"]


def c43(ctx):
    P = dict(m=2, bits=ctx.q([2, 5], [2, 5, 7]), fails=[2, 10, 1000], vc=ctx.q(5, 8), eps=64, variant="ok")
    ctx.tlc("TailsMC", TMC, params=P, label="Blumer's count satisfies the Sauer-Shelah inequality")
    ctx.refuted("TailsMC", TMC, params=dict(P, bits=[2], variant="short"))
    rng = ctx.rng
    nj, bj = [], []
    for _ in range(ctx.q(250, 2500)):
        fn, fd = rng.choice(FAILS)
        m = rng.choice([rng.randint(1, 20), rng.randint(2, 10 ** 4), rng.randint(10 ** 4, 10 ** 9)])
        nj.append((m, rng.randint(1, 8), rng.choice([1.0, 0.3, 7.5, 40.0]), fn, fd, rng.choice([None, None, 1, 2, 10])))
    for _ in range(ctx.q(250, 2500)):
        fn, fd = rng.choice(FAILS + [(1, 2 ** 24), (1, 2 ** 30), (1, 2 ** 30)])
        b = rng.choice([1, 3, 6, 10, 14])
        bj.append((rng.choice([1, 2 ** b, rng.randint(1, 2 ** b)]), b, rng.randint(1, 7), rng.choice([1.0, 0.25, rng.uniform(0.05, 2)]), fn, fd, rng.choice([None, 0.75, 1.0])))
    tr = pmap(net_job, nj) + pmap(blumer_job, bj)
    ctx.cov.update(net_radii=len(nj), blumer_counts=len(bj))
    ctx.validate("TailsTrace", tr)
    ctx.assumptions += ["net balls of measure at most the whole environment", "logarithms to about 2^-30"]


def run(ctx):
    env.use("common")
    with quiet():
        import nonasymptotic.bound  # noqa
    {"C16": c16, "C17": c17, "C18": c18, "C42": c42, "C43": c43}[ctx.pid](ctx)
