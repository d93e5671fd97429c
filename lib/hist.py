"""Independent reader of history and yields files (format as documented in doc/ and written by cgmf.x)."""


class Bad(Exception):
    pass


def parse(text):
    """-> header [zaid, einc, window], list of (light, heavy, prefission) with raw numbers"""
    lines = text.split("\n")
    if not lines[-1].strip():
        lines.pop()
    if not lines or not lines[0].startswith("#"):
        raise Bad("no header")
    h = lines[0][1:].split()
    head = [int(h[0]), float(h[1]), float(h[2]) if len(h) > 2 else 0.0]
    ncol = 5 if head[2] < 0 else 4
    pos = 1
    def row(n=None):
        nonlocal pos
        if pos >= len(lines): raise Bad("file ends early (line %d)" % pos)
        r = lines[pos].split(); pos += 1
        if n is not None and len(r) != n: raise Bad("line %d has %d fields, expected %d" % (pos, len(r), n))
        return [float(x) for x in r]
    out = []
    while pos < len(lines):
        ev = []
        for side in "LH":
            r = row(10)
            f = {"A": int(r[0]), "Z": int(r[1]), "U": r[2], "J": r[3], "P": int(r[4]), "KE": r[5], "KEpost": r[6], "nn": int(r[7]), "ng": int(r[8]), "np": int(r[9])}
            m = row(6)
            f["pre"], f["post"] = m[:3], m[3:]
            for k, n, c in (("cm", f["nn"], 4), ("lab", f["nn"], 4), ("g", f["ng"], ncol)):
                x = row(n * c) if n else []
                f[k] = [x[i * c:(i + 1) * c] for i in range(n)]
            ev.append(f)
        if ev[0]["np"] != 0: raise Bad("light fragment with pre-fission neutrons")
        n = ev[1]["np"]
        x = row(4 * n) if n else []
        ev.append([x[4 * i:4 * i + 4] for i in range(n)])
        out.append(tuple(ev))
    return head, out


def parse_yields(text):
    """one line per fragment, light then heavy: Z A KE U J P px py pz"""
    rows = [[float(x) for x in l.split()] for l in text.split("\n") if l.strip() and not l.startswith("#")]
    if any(len(r) != 9 for r in rows): raise Bad("yields line without 9 fields")
    return rows
