"""C14 (single-fragment decays) and C15 (reference results): comparison with the recorded validated release."""
import gzip
from vlib import *
from work import *
import evoracle as ev, refs, hist, stats
from c_program import prog, fresh

LS = 1                      # level-file seed of the recordings
GOLD = HERE + "/golden/"
PROF = ["std", "highic", "dense", "isomer", "ladder", "sparse"]


def load(name):
    with gzip.open(GOLD + name + ".json.gz", "rt") as f:
        return json.load(f)


def save(name, x):
    # no time stamp in the file: recording twice gives identical bytes
    with open(GOLD + name + ".json.gz", "wb") as raw:
        with gzip.GzipFile("", "wb", 9, raw, 0) as f:
            f.write(json.dumps(x, separators=(",", ":")).encode())


def sig(v, n=8):
    return float("%.*g" % (n, v))


def fview(e):
    return [e["nn"], e["ng"], [sig(x) for x in e["cE"]], [sig(x) for x in e["gc"]]]


def eview(e):
    out = []
    for s in "LH":
        out += [sig(x) for x in e[s]]
        out += [sig(x) for x in e[s + "pre"]] + [sig(x) for x in e[s + "post"]]
    out.append(e["npre"])
    for k in ("cE", "nE", "nu", "nw", "gE", "gu", "gw", "pE", "pu", "pw"):
        out += [sig(x, 6) for x in e[k]]
    out += [sig(x, 6) for x in e["gt"]]
    return out


def near(a, b, rel=1e-5, ab=1e-6):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def frag_rec(rng, n):
    from c_events import fragcmds
    out = []
    for i, c in enumerate(fragcmds(rng, n, lowU=0.35)):
        out.append((PROF[i % len(PROF)] if i % 3 else "std", c))
    return out


def group(items):
    by = {}
    for x in items:
        by.setdefault(x[0], []).append(x)
    jobs = []
    for p, l in by.items():
        for c in chunks(l, max(1, round(3 * NPROC * len(l) / len(items)))):
            jobs.append((p, c))
    return jobs


def run_items(ck, b, items, timeout=800):
    """items: (profile, command, expected) -> (item, record)"""
    jobs = group(items)
    rs = runmany(b, [([x[1] for x in c], rundir(p, LS)) for p, c in jobs], timeout)
    for (p, c), r in zip(jobs, rs):
        if ck is not None and not finished(ck, r):
            continue
        for x, e in zip(c, r.recs):
            yield x, e


def C14(ck):
    ck.rule = "one evaluation per recorded decay; distinct by (nucleus, residue, multiplicities)"
    ck.assume = ["the recording was made on the validated tree (after the repairs listed in known_findings.txt)", "rounding differences below 1e-5 relative are ignored"]
    b = build("opt")
    if not b.has("internal"):
        return events(ck, b, load("events"), decays=True)
    g = load("frags")
    g = g[:ck.thorough(9000, len(g))]
    nb = 0
    for (p, c, want), e in run_items(ck, b, g):
        nn, ng, cE, gE = want
        w = c.split()
        ck.ok("decays", (w[1], w[2], nn, ng))
        ck.counts["neutrons"] = ck.counts.get("neutrons", 0) + e["nn"]; ck.counts["photons"] = ck.counts.get("photons", 0) + e["ng"]
        if (e["nn"], e["ng"]) != (nn, ng):
            ck.viol("'%s' (levels %s) now gives %d neutrons and %d photons, recorded %d and %d" % (c, p, e["nn"], e["ng"], nn, ng), {"cmd": c, "profile": p}); continue
        d = [(x, y) for x, y in zip(e["cE"] + e["gc"], cE + gE) if not near(x, y)]
        if d:
            ck.viol("'%s' (levels %s): energy %.8g, recorded %.8g" % (c, p, d[0][0], d[0][1]), {"cmd": c, "profile": p})
        ck.sample({"decay": c, "levels": p, "neutrons": e["nn"], "photons": e["ng"]})


def events(ck, b, g, decays=False):
    for (p, c, want), e in run_items(ck, b, g):
        got = eview(e)
        w = c.split()
        ck.ok("events", (w[1], w[2], w[5]))
        if len(got) != len(want):
            ck.viol("'%s' (levels %s): other multiplicities than recorded (%s %s)" % (c, p, e["L"], e["H"]), {"cmd": c, "profile": p}); continue
        bad = [i for i, (x, y) in enumerate(zip(got, want)) if not near(x, y)]
        if bad and (not decays or bad[-1] > 30):
            ck.viol("'%s' (levels %s): entry %d is %.8g, recorded %.8g" % (c, p, bad[0], got[bad[0]], want[bad[0]]), {"cmd": c, "profile": p})
        ck.sample({"event": c, "levels": p, "light": e["L"], "heavy": e["H"]})


def main_runs(x, names=None):
    R = [r for r in refs.runs(REPO) if names is None or r[0] in names]
    def one(r):
        n, o, t = r
        d = fresh("std", LS)
        a = []
        for k, v in o.items():
            if k != "-f": a += [k, v]
        rc, so, se = prog(x, a + ["-f", d + "/o"], d)
        got = open(d + "/o.0").read() if os.path.exists(d + "/o.0") else ""
        shutil.rmtree(d)
        return r, rc, got, se
    return pmap(one, R)


def numbers(t):
    return [float(v) for l in t.splitlines() if not l.startswith("#") for v in l.split()]


def C15(ck):
    ck.rule = "one evaluation per event compared with a recorded one; distinct by (reaction, energy, event number)"
    ck.assume = ["the published event files were made with evaluated levels that are not shipped: their scission quantities are compared, the decay with recordings on synthetic levels"]
    b = build("opt"); x = build_main("opt")
    g = load("events")
    events(ck, b, g[:ck.thorough(2400, len(g))])
    g = load("events2")            # a level file that also holds the fissioning nuclei
    events(ck, b, g[:ck.thorough(500, len(g))])
    # published references through the program
    mg = load("main")
    for (n, o, t), rc, got, se in main_runs(x):
        if rc:
            ck.viol("reference run %s: status %d %s" % (n, rc, se[-200:].decode(errors="replace"))); continue
        if "yields" in n:
            a, r = numbers(got), numbers(t)
            ck.ok("published yields lines", (n,), n=len(r) // 9)
            if len(a) != len(r): ck.viol("%s: %d numbers, published %d" % (n, len(a), len(r)))
            else:
                bad = [i for i, (p, q) in enumerate(zip(a, r)) if not near(p, q, 2e-5, 2e-5)]
                if bad: ck.viol("%s: line %d differs from the published file: %g, %g" % (n, bad[0] // 9 + 1, a[bad[0]], r[bad[0]]))
            continue
        try:
            h, E = hist.parse(t); h2, G = hist.parse(got)
        except (hist.Bad, ValueError) as ex:
            ck.viol("reference run %s: %s" % (n, ex)); continue
        if len(E) != len(G): ck.viol("%s: %d events, published %d" % (n, len(G), len(E)))
        for i, (e, q) in enumerate(zip(E, G)):
            ck.ok("published events (scission)", (n, i))
            bad = []
            for s in (0, 1):
                bad += [k for k in ("A", "Z", "J", "P", "U", "KE") if abs(e[s][k] - q[s][k]) > 1.1e-3]
                if not e[2] and max(abs(u - v) for u, v in zip(e[s]["pre"], q[s]["pre"])) > 2.1e-3: bad.append("momentum")
            if len(e[2]) != len(q[2]) or any(abs(u - v) > 1.1e-3 for a, c in zip(e[2], q[2]) for u, v in zip(a, c)): bad.append("pre-fission neutrons")
            if bad: ck.viol("reference run %s event %d: %s differ from the published file" % (n, i, bad))
        if n in mg:
            a, r = numbers(got), mg[n]
            ck.ok("recorded program runs", (n,))
            if len(a) != len(r): ck.viol("reference run %s: %d numbers, recorded %d" % (n, len(a), len(r)))
            else:
                bad = [i for i, (p, q) in enumerate(zip(a, r)) if not near(p, q, 1e-6, 1.1e-3)]
                if bad: ck.viol("reference run %s: number %d is %g, recorded %g" % (n, bad[0], a[bad[0]], r[bad[0]]))
    # averages of the standard reactions on fresh event numbers
    av = load("averages")
    cm = []
    for k, rec in av.items():
        za, e = k.split()
        cm += [("std", "ev %s %s 0 1e-8 %d" % (za, e, ck.rng.randrange(1 << 31)), k) for _ in range(ck.thorough(110, 2000))]
    obs = {}
    for (p, c, k), e in run_items(ck, b, cm):
        obs.setdefault(k, []).append(avgvec(e))
    for k, l in obs.items():
        n = len(l); rec = av[k]
        ck.ok("events for averages", n=n)
        for j, nm in enumerate(AVG):
            m = sum(v[j] for v in l) / n
            s = rec["sd"][j] * math.sqrt(1 / n + 1 / rec["n"]) + 1e-12
            ck.extra.setdefault("averages", {}).setdefault(k, {})[nm] = [round(m, 3), round(rec["mean"][j], 3)]
            if abs(m - rec["mean"][j]) > 6.5 * s:
                ck.viol("%s MeV: average %s is %.3f, validated %.3f +- %.3f" % (k, nm, m, rec["mean"][j], s))


AVG = ["neutrons", "photons", "neutron energy sum", "photon energy sum", "TKE", "light mass", "light excitation", "heavy excitation", "light spin", "heavy spin"]
def avgvec(e):
    return [e["nn"], e["ng"], sum(e["nE"]), sum(e["gE"]), e["L"][2] + e["H"][2], e["L"][0], e["L"][4], e["H"][4], e["L"][5], e["H"][5]]


def record(only=None):
    """make the recordings from the current tree"""
    b = build("opt"); x = build_main("opt")
    class Q:
        rng = random.Random("golden"); seed = 1
        def viol(self, *a): print("FAILED", a); sys.exit(1)
    q = Q()
    items = [(p, c, None) for p, c in frag_rec(q.rng, 40000)]
    res = {id(i): fview(e) for i, e in run_items(q, b, items)}
    save("frags", [[i[0], i[1], res[id(i)]] for i in items])
    rng = random.Random("golden-events")
    items = []
    for k, c in enumerate(event_cmds(rng, 12000, hi=0.55)):
        items.append((PROF[k % len(PROF)], c, None))
    res = {id(i): eview(e) for i, e in run_items(q, b, items)}
    save("events", [[i[0], i[1], res[id(i)]] for i in items])
    record2(q, b)
    save("main", {r[0]: numbers(got) for r, rc, got, se in main_runs(x) if "yields" not in r[0] and rc == 0})
    av = {}
    items = [("std", "ev %d %s 0 1e-8 %d" % (za, e, 10 ** 6 + i), "%d %s" % (za, e)) for za, e in
             [(98252, "0"), (98254, "0"), (94238, "0"), (94240, "0"), (94242, "0"), (94244, "0"), (92233, "2.53e-8"), (92234, "1.0"), (92235, "2.53e-8"), (92235, "14"), (92238, "1.9"), (93237, "5"), (94239, "2.53e-8"), (94239, "8"), (94241, "2.53e-8")] for i in range(2500)]
    acc = {}
    for (p, c, k), e in run_items(q, b, items):
        acc.setdefault(k, []).append(avgvec(e))
    for k, l in acc.items():
        n = len(l); m = [sum(v[j] for v in l) / n for j in range(len(AVG))]
        sd = [math.sqrt(sum((v[j] - m[j]) ** 2 for v in l) / n) for j in range(len(AVG))]
        av[k] = {"n": n, "mean": m, "sd": sd}
    save("averages", av)


def record2(q, b):
    rng = random.Random("golden-events2")
    items = [("actinide", c, None) for c in event_cmds(rng, 2000, hi=0.95)]
    res = {id(i): eview(e) for i, e in run_items(q, b, items)}
    save("events2", [[i[0], i[1], res[id(i)]] for i in items])


if __name__ == "__main__":
    record()
