"""C17: sanitizers and memcheck over the library and the program."""
import re, subprocess
from vlib import *
import vlib
from work import *
from c_events import fragcmds
from c_program import prog, fresh

ALLP = PROFILES + ["limits", "unassigned"]
SENV = dict(vlib.ENV, ASAN_OPTIONS=vlib.ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0:strict_string_checks=1:detect_stack_use_after_return=1").replace(":detect_stack_use_after_return=0", ""))
VG = ["valgrind", "-q", "--error-exitcode=77", "--undef-value-errors=yes", "--num-callers=8"]


def report(err):
    """the interesting lines of a sanitizer or memcheck report"""
    l = [x.strip() for x in err.splitlines()]
    k = [x for x in l if "runtime error" in x or "ERROR: AddressSanitizer" in x or re.search(r"uninitialised|Invalid (read|write|free)|Source and dest|bad_alloc|Assertion", x)]
    fr = [re.sub(r"0x[0-9a-f]+", "", x) for x in l if "/repo/" in x or re.search(r"\((\w+\.(cpp|h)):\d+\)", x)]
    return " | ".join((k[:1] + fr[:3]) or l[-3:])


def mixed(rng, n, internal):
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.5: out += event_cmds(rng, 1, hi=0.5)
        elif x < 0.58: out += event_cmds(rng, 1, hi=0.5, kind="cev")
        elif x < 0.64:
            A = rng.randrange(14, 290); Z = max(6, min(112, int(A * rng.uniform(0.38, 0.5))))
            z = 1000 * Z + A
            if all(z - k in data().mass for k in range(13)): out.append("%s %d %.5f %d" % (rng.choice(["cgm", "cgmpp"]), z, 10 ** rng.uniform(-2, 1.9), rng.randrange(1 << 30)))
        elif x < 0.7:
            za, e = reaction(rng, 0.6)
            out.append("%s %d %.8g %d %s/my%d %d" % (rng.choice(["yields", "cyields"]), za, e, rng.choice([1, 3, 60]), scratch(), rng.randrange(1 << 40), rng.randrange(1 << 30)))
        elif x < 0.74: out += event_cmds(rng, 1, hi=1.0)
        elif x < 0.78: out += ["del", "cleanup"]
        elif internal: out += fragcmds(rng, 1, lowU=0.4)
        else: out += event_cmds(rng, 1)
    return out


def rich(rng, n):
    """decays with as many particles as the excitation allows"""
    out = []
    for c in fragcmds(rng, n, lowU=0.0):
        w = c.split()
        w[3] = "%.4f" % rng.uniform(40, 110); w[4] = "%g" % ((int(w[2]) % 2) * 0.5 + rng.choice([0, 5, 15, 25, 35, 45]))
        out.append(" ".join(w))
    return out


def C17(ck):
    ck.rule = "one evaluation per command executed under instrumentation; distinct by (tool, command kind, nucleus, energy)"
    ck.assume = ["AddressSanitizer, UBSan (with bounds and float-cast checks) and memcheck report what they can see on the executed paths"]
    bs = build("san"); bd = build("dbg")
    rng = ck.rng; ls = 1 + ck.seed % 5
    jobs = []
    for i in range(ck.thorough(48, 900)):
        p = ALLP[i % len(ALLP)]
        c = mixed(rng, 16, bs.has("internal"))
        if bs.has("internal") and i % 4 == 0: c += rich(rng, 4)
        if i % 3 == 0: c = ["hostile 1"] + c
        rundir(p, ls)
        jobs.append(("asan+ubsan", p, c))
    light = ["std", "isomer", "noic", "highic", "sparse", "ladder", "promptonly", "unassigned"]
    for i in range(ck.thorough(8, 120)):
        p = light[i % 8] if ck.tier == "quick" else ALLP[i % len(ALLP)]
        c = mixed(rng, ck.thorough(4, 6), bd.has("internal"))
        if bd.has("internal") and i % 4 == 0: c += rich(rng, 1)
        if i % 4 == 0: c = ["hostile 1"] + c
        rundir(p, ls)
        jobs.append(("memcheck", p, c))
    jobs.sort(key=lambda j: j[0] != "memcheck")
    def one(j):
        t0 = time.time()
        r = one_(j)
        if os.environ.get("DBG"): print(j[0], j[1], round(time.time() - t0, 1), len(j[2]))
        return r
    def one_(j):
        tool, p, c = j
        if tool == "memcheck":
            try:
                q = subprocess.run(VG + [bd.path, DATA], input=("\n".join(c) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=rundir(p, ls), env=ENV, timeout=800)
                n = len(q.stdout.splitlines())
                return j, q.returncode, n, q.stderr.decode(errors="replace"), b'"end"' in q.stdout[-40:]
            except subprocess.TimeoutExpired:
                return j, -999, 0, "timeout", False
        r = run1(bs, c, rundir(p, ls), 800, env=SENV)
        return j, r.rc, len(r.recs), r.err, r.ended
    for (tool, p, c), rc, n, err, ended in pmap(one, jobs):
        bad = rc != 0 or not ended or "runtime error" in err or "==ERROR" in err
        for x in c[:n]:
            w = x.split()
            ck.ok(tool + " " + w[0], (tool, w[0], w[1] if len(w) > 1 else "", w[2] if len(w) > 2 else ""))
        if bad:
            last = c[min(n, len(c) - 1)] if rc != 77 else "(" + "; ".join(c[:3]) + " ...)"
            ck.viol("%s: %s at '%s' (levels %s)" % (tool, report(err), last, p), {"tool": tool, "cmds": c[:n + 1], "profile": p, "status": rc, "stderr": err[:3000]})
        else:
            ck.sample({"tool": tool, "levels": p, "commands": len(c), "first": c[0]})
    # the program itself
    xs = build_main("san")
    pj = []
    for i in range(ck.thorough(16, 120)):
        za, e = reaction(rng, 0.6)
        pj.append((za, e, rng.choice([3, 12, -1, -30, -300]), rng.choice(["1e-8", "-1", "0", "1e-3"]), rng.choice(ALLP)))
        rundir(pj[-1][-1], ls)
    def run(q):
        za, e, n, w, p = q
        d = fresh(p, ls)
        r = prog(xs, ["-i", za, "-e", "%.10g" % e, "-n", n, "-t", w, "-s", random.Random(str(q)).randrange(1, 99999)], d, SENV)
        shutil.rmtree(d)
        return q, r
    for q, (rc, so, se) in pmap(run, pj):
        ck.ok("asan+ubsan program runs", ("main",) + q)
        if rc: ck.viol("program %s: status %d, %s" % (q, rc, report(se.decode(errors="replace"))), {"args": q, "stderr": se[:3000].decode(errors="replace")})
