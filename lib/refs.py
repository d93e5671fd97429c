"""The published reference runs in the repository: arguments and recorded files."""
import os, re, glob


def runs(repo):
    out = []
    for d in sorted(glob.glob(repo + "/utils/cgmf/tests/*/")):
        t = open(d + "CMakeLists.txt").read()
        m = re.search(r"set\(args\s+([^)]*)\)", t)
        if not m:
            continue
        a = m.group(1).split()
        o = dict(zip(a[::2], a[1::2]))
        refs = sorted(glob.glob(d + "*.reference"))
        out.append((os.path.basename(d[:-1]), o, "".join(open(r).read() for r in refs)))
    return out
