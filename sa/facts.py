"""Loading of the facts dumped by the mirx driver."""
import json


class Crate:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.name = d["crate"]
        self.types = d["types"]
        for i, t in enumerate(self.types):
            t["i"] = i
        self.bodies = {int(k): v for k, v in d["bodies"].items()}
        self.roots = d["roots"]
        self.consts = dict((p, i) for p, i in d["consts"])
        self.by_path = {}
        for b in self.bodies.values():
            self.by_path.setdefault(b["path"], []).append(b)

    def ty(self, i):
        return self.types[i]


def show_body(c, b, out=None):
    L = []
    L.append("fn %d %s [%s] kind=%s argc=%d span=%s" % (b["id"], b["name"], b["path"], b["kind"], b["argc"], b["span"]))
    for i, t in enumerate(b["locals"]):
        L.append("  _%d: %s" % (i, c.types[t]["s"]))
    L.append("  names: %s" % b["names"])
    for i, (st, tm, cl) in enumerate(b["blocks"]):
        if cl:
            continue
        L.append("  bb%d:" % i)
        for s in st:
            if s[0] in ("live", "dead"):
                continue
            L.append("    " + short(s[:-1] if s[0] == 'a' else s))
        L.append("    -> " + short(tm))
    return "\n".join(L)


def short(x):
    if isinstance(x, dict):
        if "decl" in x:
            return "<%s inst=%s kind=%s targs=%s path=%s>" % (x["decl"], x.get("inst"), x.get("kind"), x.get("targs"), x.get("path"))
        if x.get("k") == "fn":
            return "FN" + short(x["fn"])
        return json.dumps({k: v for k, v in x.items()})
    if isinstance(x, list):
        return "[" + ", ".join(short(y) for y in x) + "]"
    return str(x)


if __name__ == "__main__":
    import sys
    c = Crate(sys.argv[1])
    for b in c.bodies.values():
        if sys.argv[2] in b["name"]:
            print(show_body(c, b))
