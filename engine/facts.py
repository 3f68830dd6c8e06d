"""Loading of the compiler facts written by the driver."""
import json


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.roots = d["roots"]
        self.types = d["types"]
        self.insts = d["insts"]
        for i in self.insts:
            i.setdefault("locals", [])
            i.setdefault("argc", max(0, len(i["locals"]) - 1))
        self._tn = {}

    def ty(self, i):
        return self.types[i]

    def root(self, name):
        for k, v in self.roots.items():
            if k.split("::")[-1] == name or k.endswith("::" + name) or k == name:
                return self.insts[v]
        return None

    def roots_named(self, name):
        return [(k, self.insts[v]) for k, v in sorted(self.roots.items())
                if k.split("::")[-1] == name]

    def peel(self, ti):
        t = self.types[ti]
        while t["k"] in ("ref", "ptr"):
            ti = t["to"]
            t = self.types[ti]
        return ti

    def typenum(self, ti):
        """Value of a typenum unsigned type, or None."""
        if ti in self._tn:
            return self._tn[ti]
        t = self.types[ti]
        r = None
        if t["k"] == "adt":
            p = t["path"].split("::")[-1]
            if p == "UTerm":
                r = 0
            elif p == "UInt":
                u = self.typenum(t["args"][0])
                b = self.types[t["args"][1]]["path"].split("::")[-1]
                r = None if u is None else 2 * u + (1 if b == "B1" else 0)
        self._tn[ti] = r
        return r

    def is_path(self, ti, *names):
        t = self.types[ti]
        return t["k"] == "adt" and t["path"].split("::")[-1] in names
