"""Workload generators shared by the checks."""
import math
from vlib import SF, NI, rundir, level_table, runmany, build, Build, BuildError, REPO, chunks, NPROC
import nuc, evoracle as ev

PROFILES = ["std", "isomer", "noic", "highic", "sparse", "dense", "ladder", "promptonly", "actinide"]
WINDOWS = [-1.0, 0.0, 1e-8, 1e-8, 1e-6, 1e-3, 1e-13, 3e-10]
_D = None


def data():
    global _D
    if _D is None:
        _D = nuc.Data(REPO)
        _D.mc = nuc.MultiChance(_D)
    return _D


def reaction(rng, hi=0.45):
    """one supported reaction: (target, energy)"""
    x = rng.random()
    if x < 0.3:
        return rng.choice(SF), 0.0
    za = rng.choice(NI)
    x = rng.random()
    if x < 0.15:
        e = 2.53e-8
    elif x < 0.2:
        e = 10 ** rng.uniform(-11, -2)
    elif x < 1 - hi:
        e = rng.uniform(0.01, 5.5)
    else:
        y = rng.random()
        if y < 0.3:      # just above (or below) the opening of a fission chance
            t = [t for t in data().mc.thresholds(za) if 0 < t < 19.9] or [6.0]
            e = min(20.0, max(1e-6, rng.choice(t) + rng.choice([1, 1, 1, -1]) * 10 ** rng.uniform(-5, -0.5)))
        elif y < 0.4:
            e = rng.choice([20.0, 20.0, 19.99, 5.0, 10.0, 14.0, 15.0])
        elif y < 0.5:
            e = rng.randrange(1, 200) / 10.0      # tabulated energies
        else:
            e = rng.uniform(5.5, 20.0)
    return za, float("%.7g" % e)


def event_cmds(rng, n, windows=WINDOWS, times=(0.0, 0.0, 1e-9, 3.0), hi=0.45, kind="ev"):
    out = []
    for _ in range(n):
        za, e = reaction(rng, hi)
        out.append("%s %d %.10g %g %g %d" % (kind, za, e, rng.choice(times), rng.choice(windows), rng.randrange(1, 1 << 31)))
    return out


def run_events(ck, b, n, profiles=PROFILES, per=40, **kw):
    """run n events over the level-file profiles; yields (profile, table, command words, record)"""
    jobs, info = [], []
    levseed = 1 + ck.seed % 5
    for i, c in enumerate(chunks(event_cmds(ck.rng, n, **kw), max(1, n // per))):
        p = profiles[i % len(profiles)]
        jobs.append((c, rundir(p, levseed)))
        info.append(p)
    for r, p in zip(runmany(b, jobs), info):
        if not finished(ck, r):
            continue
        tab = level_table(p, levseed)
        for c, e in zip(r.cmds, r.recs):
            yield p, tab, c.split(), e


def finished(ck, r):
    """a supported request must be served: a process that died is a violation"""
    if r.ended and r.rc == 0 and not any(x.get("k") == "garbled" for x in r.recs):
        return True
    k = len(r.recs)
    last = r.cmds[min(k, len(r.cmds) - 1)]
    ck.viol("driver ended with status %s at command '%s': %s" % (r.rc, last, (r.err or "").strip()[-300:]), {"cmds": r.cmds[:k + 1][-3:], "cwd": r.cwd, "stderr": r.err[-3000:]})
    return False


def key(e):
    return (e["za"], round(e["einc"], 6), e["L"][0], e["L"][1], e["L"][7], e["H"][7], e["L"][8], e["H"][8])
