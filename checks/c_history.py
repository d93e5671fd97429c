"""C07 (history independence), C18 (object lifetime), C19 (C interface)."""
import re, subprocess, filecmp, zlib
from vlib import *
import vlib
from work import *
import evoracle as ev


def strip(e):
    return {k: v for k, v in e.items() if k not in ("k", "slot", "seed", "time", "w")}


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return "%s: %s vs %s" % (k, str(a.get(k))[:120], str(b.get(k))[:120])
    return None


def other(rng, i):
    """a call whose only purpose is to leave state behind"""
    x = rng.random()
    za, e = reaction(rng)
    w = rng.choice(WINDOWS)
    if x < 0.3:
        return ["cev %d %.10g 0 %g %d" % (za, e, w, rng.randrange(1 << 30))]
    if x < 0.5:
        return ["cgm %d %.5f %d" % (rng.choice([40100, 54140, 36092, 60150, 26056, 82208]), rng.uniform(1, 30), rng.randrange(1 << 30))]
    if x < 0.6:
        return ["yields %d %.10g %d %s/yy%d %d" % (za, e, rng.randrange(1, 6), scratch(), i, rng.randrange(1 << 30))]
    if x < 0.7:
        return ["del", "cleanup"]
    if x < 0.75:
        return ["cclean"]
    if x < 0.85:
        return ["new %d %d %.10g 0 %g %d" % (rng.randrange(3), za, e, w, rng.randrange(1 << 30))]
    return ["ev %d %.10g 0 %g %d" % (za, e, w, rng.randrange(1 << 30))]


def cheap(rng, n):
    """decays below the neutron separation energy, over many nuclei, and scissions"""
    l = []
    for _ in range(n):
        Z = rng.randrange(28, 66); A = int(2.45 * Z + rng.randrange(-4, 6))
        l.append("frag %d %d %.9g %.1f %d 10 20 3000 1e-8 %d" % (Z, A, rng.uniform(.3, 4.), rng.randrange(0, 5) + .5 * (A % 2), rng.choice((-1, 1)), rng.randrange(1, 1 << 30)))
        if rng.random() < .25:
            z, e = reaction(rng)
            l.append("ff %d %.9g 1 %d" % (z, e, rng.randrange(1, 1 << 30)))
    return l


def C07(ck):
    ck.rule = "one evaluation per comparison of an event with the same event produced after another history; distinct by event command"
    ck.assume = ["bit-identical doubles (printed with 17 digits) and identical number of random numbers consumed"]
    b = build("opt")
    rng = ck.rng
    prof = ["std", "isomer"]
    n = ck.thorough(320, 6000)
    for p in prof:
        cmds = event_cmds(rng, n // 2) + ["cgm %d %.5f %d" % (rng.choice([40100, 54140, 36092, 62150]), rng.uniform(0.2, 30), rng.randrange(1 << 30)) for _ in range(n // 20)]
        d = rundir(p, 1 + ck.seed % 5)
        ref = {}
        def collect(rs, tag):
            for r in rs:
                if not finished(ck, r):
                    continue
                for c, e in zip(r.cmds, r.recs):
                    if c not in want:
                        continue
                    e = strip(e)
                    if c in ref:
                        x = diff(ref[c][0], e)
                        ck.ok(tag, c)
                        if x:
                            ck.viol("'%s' (levels %s) gives different results after another history (%s, %s): %s" % (c, p, ref[c][1], tag, x), {"cmd": c, "history": r.cmds[:r.cmds.index(c) + 1][-12:]})
                    else:
                        ref[c] = (e, tag)
        want = set(cmds)
        # reference order
        collect(runmany(b, [(c, d) for c in chunks(cmds, NPROC)]), "in order")
        # shuffled, mixed with other calls
        sh = cmds[:]; rng.shuffle(sh)
        jobs = []
        for c in chunks(sh, NPROC):
            l = []
            for i, x in enumerate(c):
                if rng.random() < 0.4:
                    l += other(rng, i)
                l.append(x)
            jobs.append((l, d))
        collect(runmany(b, jobs), "shuffled among other calls")
        # alone in a fresh process, with different heap contents
        some = rng.sample(cmds, ck.thorough(24, 300))
        def alone(c):
            return run1(b, [c], d, env=dict(ENV, MALLOC_PERTURB_=str(1 + zlib.crc32(c.encode()) % 254)))
        collect(pmap(alone, some), "alone in a fresh process")
        # repeated back to back
        collect(runmany(b, [([x for c in ch for x in (c, c)], d) for ch in chunks(some, NPROC)]), "repeated")
        # all of them, and many cheap decays before, in one process
        jobs = []
        for _ in range(ck.thorough(3, 8)):
            l = cmds[:]; rng.shuffle(l)
            if b.has("internal"):
                l = cheap(rng, ck.thorough(1200, 6000)) + l
            jobs.append((l, d))
        collect(runmany(b, jobs), "at the end of a long history")
    # decays of single fragments, in two orders
    if b.has("internal"):
        from c_events import fragcmds
        for p in ("std", "highic", "sparse", "actinide"):
            cmds = fragcmds(rng, ck.thorough(700, 12000))
            d = rundir(p, 1 + ck.seed % 5)
            want, ref = set(cmds), {}
            sh = cmds[:]; rng.shuffle(sh)
            collect(runmany(b, [(c, d) for c in chunks(cmds, NPROC)]), "fragments in order")
            collect(runmany(b, [(c, d) for c in chunks(sh, NPROC)]), "fragments shuffled")
    # a run of the program split into several runs
    exe = build_main("opt")
    for i in range(ck.thorough(4, 24)):
        za, e = reaction(rng)
        d = rundir(prof[i % 2], 1 + ck.seed % 5)
        w = rng.choice([1e-8, -1, 1e-6])
        N = 24
        s0 = rng.choice([1, 1, 1000, 77])
        cut = sorted(rng.sample(range(1, N), 2))
        pieces = [(s0, cut[0]), (s0 + cut[0], cut[1] - cut[0]), (s0 + cut[1], N - cut[1])]
        def prog(a):
            s, m = a
            f = "%s/sp%d-%d-%d" % (scratch(), i, s, m)
            p = subprocess.run([exe, "-i", str(za), "-e", "%.10g" % e, "-n", str(m), "-s", str(s), "-t", "%g" % w, "-f", f, "-d", DATA], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            fs = [x for x in (f, f + ".0") if os.path.exists(x)]
            return p.returncode, open(fs[0]).read().split("\n", 1)[1] if fs else ""
        out = pmap(prog, [(s0, N)] + pieces)
        ck.ok("split program runs", ("split", za, e, s0))
        if any(o[0] for o in out):
            ck.viol("program failed: za %d E %g status %s" % (za, e, [o[0] for o in out]))
        elif out[0][1] != "".join(o[1] for o in out[1:]):
            ck.viol("program run of %d events from %d differs from its pieces %s (target %d, %g MeV, window %g)" % (N, s0, pieces, za, e, w))
        ck.sample({"program": [za, e, w], "pieces": pieces})
    ck.sample({"event": cmds[0]}); ck.sample({"event": cmds[1]})


def lifecycle(rng, n):
    l = []
    for i in range(n):
        x = rng.random()
        za, e = reaction(rng)
        w = rng.choice(WINDOWS)
        k = rng.randrange(4)
        if x < 0.25:
            l.append("new %d %d %.10g 0 %g %d" % (k, za, e, w, rng.randrange(1 << 30)))
        elif x < 0.40:
            l.append("free %d" % k)
        elif x < 0.48:
            l.append("show %d" % k)
        elif x < 0.58:
            l.append("ev %d %.10g 0 %g %d" % (za, e, w, rng.randrange(1 << 30)))
        elif x < 0.66:
            l.append("cev %d %.10g 0 %g %d" % (za, e, w, rng.randrange(1 << 30)))
        elif x < 0.72:
            l.append("cclean")
        elif x < 0.78:
            l.append("gnew %d %d %.5f %d" % (k, rng.choice([40100, 54140, 36092, 60150]), rng.uniform(0.5, 25), rng.randrange(1 << 30)))
        elif x < 0.82:
            l.append("gfree %d" % k)
        elif x < 0.87:
            l.append("cgm %d %.5f %d" % (rng.choice([40100, 54140, 36092, 60150]), rng.uniform(0.5, 25), rng.randrange(1 << 30)))
        elif x < 0.92:
            l.append("%s %d %.10g %d %s/ly%d %d" % (rng.choice(["yields", "cyields"]), za, e, rng.randrange(1, 5), scratch(), rng.randrange(1 << 30), rng.randrange(1 << 30)))
        elif x < 0.96:
            l += ["cleanup"] * rng.choice([1, 1, 2])
        else:
            l.append("del")
    return l


def C18(ck):
    ck.rule = "one evaluation per interface call under AddressSanitizer/LeakSanitizer or per heap-in-use comparison; distinct by call sequence prefix kind"
    rng = ck.rng
    b = build("san")
    d = rundir("std", 1)
    jobs = []
    for i in range(ck.thorough(8, 80)):
        l = lifecycle(rng, ck.thorough(34, 60))
        end = rng.random()
        if end < 0.5:
            l += ["freeall", "del", "cclean", "cleanup"]
        elif end < 0.8:
            l += ["cleanup", "freeall", "cclean", "del"]
        else:
            l += ["freeall", "cclean", "del"]
        jobs.append((l, d))
    for r in runmany(b, jobs):
        done = finished(ck, r)
        seen = {}
        for c, e in zip(r.cmds, r.recs):
            w = c.split()
            ck.ok("calls: " + w[0], (w[0], e.get("za"), e.get("nn"), e.get("ng")))
            # an event keeps its values while other objects come and go
            if w[0] == "new":
                seen[w[1]] = strip(e)
            elif w[0] == "free":
                seen.pop(w[1], None)
            elif w[0] == "freeall":
                seen = {}
            elif w[0] == "show" and w[1] in seen:
                want = {k: v for k, v in seen[w[1]].items() if k not in ("steps", "draws")}
                got = {k: v for k, v in strip(e).items() if k != "none"}
                ck.ok("live event re-read")
                if diff(want, got):
                    ck.viol("event changed while alive: %s" % diff(want, got), {"cmds": r.cmds})
        if done and r.err.strip() and "Sanitizer" in r.err:
            ck.viol("sanitizer report: %s" % r.err[-400:], {"cmds": r.cmds, "stderr": r.err[-4000:]})
        ck.sample({"sequence": r.cmds[:12]})
    # memory in use does not grow with the number of events
    b = build("opt")
    env = {k: v for k, v in ENV.items() if not k.startswith("MALLOC")}
    jobs = []
    reacts = [(z, 0.0) for z in SF] + [(z, e) for z in NI for e in (2.53e-8, 7.0, 18.0)]
    groups = {"events": [], "events through C": [], "yields": [], "cgm": [], "switching": []}
    for z, e in reacts:
        groups["events"].append("ev %d %g 0 1e-8 %d" % (z, e, z))
        groups["events through C"].append("cev %d %g 0 -1 %d" % (z, e, z + 1))
        groups["yields"].append("yields %d %g 3 %s/my %d" % (z, e, scratch(), z))
        groups["cgm"].append("cgm %d %g %d" % (rng.choice([40100, 54140, 36092, 60150]), rng.uniform(1, 25), z))
    for i in range(len(reacts)):
        groups["switching"] += [rng.choice(groups[k]) for k in ("events", "cgm", "events through C")] + (["cleanup"] if i % 9 == 8 else [])
    def mem(g):
        cyc = groups[g]
        N = ck.thorough(10, 40)
        l = []
        for i in range(N):
            l += cyc + ["del", "cclean", "rss"]
        return g, run1(b, l, d, env=env)
    for g, r in pmap(mem, list(groups)):
        if not finished(ck, r):
            continue
        h = [e["heap"] for e in r.recs if e.get("k") == "rss"]
        ck.ok("heap comparisons", (g,), n=len(h) - 1)
        ck.sample({"heap in use after each cycle (bytes)": h, "cycle": g})
        per = len(groups[g])
        grow = [b_ - a_ for a_, b_ in zip(h[4:], h[5:])]   # the first cycles only settle the heap
        if min(grow) > 16 * per * 0.5:
            ck.viol("heap in use grows by at least %d bytes in every cycle of %d calls (%s): %s" % (min(grow), per, g, h))
    # everything the public headers declare can be linked
    links(ck)


def links(ck):
    hdr = open(REPO + "/libcgmf/include/cgmfEvents_capi.h").read()
    hdr = re.sub(r"/\*.*?\*/|//[^\n]*", "", hdr, flags=re.S)
    names = sorted(set(re.findall(r"\b(cgm\w*)\s*\([^;{]*\)\s*;", hdr)))
    src = '#include "cgmfEvents.h"\n#include "cgmfEvents_capi.h"\n#include <cstdio>\nint main(){ volatile unsigned long x=0;\n'
    for n in names:
        src += " x+=(unsigned long)(void*)%s;\n" % n
    src += " x+=(unsigned long)(void*)(int(*)(std::string))checkdatapath; x+=(unsigned long)(void*)(void(*)(std::string))setdatapath; x+=(unsigned long)(void*)(void(*)())cgmf_cleanup;\n"
    src += " x+=(unsigned long)(void*)(void(*)(double(*)(void)))set_rng; cgmEvent *g=x?0:new cgmEvent(); if(g) delete g; return 0; }\n"
    d = scratch() + "/link"
    s, _ = vlib._sources()
    objs = vlib._compile("g++", ["-O0"], [], d, s)
    open(d + "/m.cpp", "w").write(src)
    r = subprocess.run(["g++", "-w", "-std=c++14", "-I" + d, "-I" + REPO + "/libcgmf/include", d + "/m.cpp"] + objs + ["-o", d + "/m"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ck.ok("public functions linked", ("link", len(names)), n=len(names))
    if r.returncode:
        ck.viol("public declarations cannot be linked: %s" % "\n".join(l for l in r.stdout.decode().splitlines() if "undefined" in l or "error" in l)[:500])


def C19(ck):
    ck.rule = "one evaluation per value compared between the two interfaces; distinct by event"
    b = build("opt")
    rng = ck.rng
    n = ck.thorough(900, 20000)
    cmds = event_cmds(rng, n, hi=0.6)
    jobs = []
    for i, c in enumerate(chunks(cmds, 4 * NPROC)):
        l = []
        for x in c:
            y = "c" + x
            l += [x, y] if rng.random() < 0.5 else [y, x]
            if rng.random() < 0.1:
                l.append("cclean")
        jobs.append((l, rundir(["std", "isomer", "promptonly"][i % 3], 1)))
    for r in runmany(b, jobs):
        if not finished(ck, r):
            continue
        byc = {}
        for c, e in zip(r.cmds, r.recs):
            byc[c] = e
        for c in [c for c in r.cmds if c.startswith("ev ")]:
            a, q = byc[c], byc["c" + c]
            nv = 0
            for k in q:
                if k in ("k", "Lpdir", "Hpdir"):
                    continue
                nv += len(q[k]) if isinstance(q[k], list) else 1
                if a.get(k) != q[k]:
                    ck.viol("'%s': C interface says %s=%s, C++ says %s" % (c, k, str(q[k])[:150], str(a.get(k))[:150]), {"cmd": c})
            for s in "LH":
                p = a[s + "post"]; m = ev.norm(p)
                nv += 3
                if any(abs(q[s + "pdir"][k] - p[k] / m) > 1e-9 for k in range(3)):
                    ck.viol("'%s': C interface post-emission direction %s, momentum %s" % (c, q[s + "pdir"], p))
            ck.ok("values", c, n=nv)
        ck.sample({"event": r.cmds[0]})
    # yields through both interfaces
    jobs = []
    for i in range(ck.thorough(8, 60)):
        za, e = reaction(rng)
        fa, fb = "%s/ya%d" % (scratch(), i), "%s/yb%d" % (scratch(), i)
        sd = rng.randrange(1, 1 << 30)
        jobs.append((["yields %d %.10g 40 %s %d" % (za, e, fa, sd), "cyields %d %.10g 40 %s %d" % (za, e, fb, sd)], rundir("std", 1), fa, fb))
    for r, j in zip(runmany(b, [j[:2] for j in jobs]), jobs):
        if finished(ck, r):
            ck.ok("yields files", r.cmds[0])
            if not filecmp.cmp(j[2], j[3], shallow=False) or os.path.getsize(j[2]) == 0:
                ck.viol("'%s': yields files of the two interfaces differ" % r.cmds[0])
    # compound-nucleus decay through both interfaces
    l = []
    for i in range(ck.thorough(60, 600)):
        s = "%d %.6f %d" % (rng.choice([40100, 54140, 36092, 60150, 50124]), rng.uniform(0.3, 30), rng.randrange(1 << 30))
        l += ["cgm " + s, "cgmpp " + s]
    for r in runmany(b, [(x, rundir("std", 1)) for x in [l[i:i + 16] for i in range(0, len(l), 16)]]):
        if finished(ck, r):
            for a, q, c in zip(r.recs[::2], r.recs[1::2], r.cmds[::2]):
                ck.ok("compound decays", c)
                if a != q:
                    ck.viol("'%s': C and C++ decays differ: %s" % (c, diff(a, q)))
