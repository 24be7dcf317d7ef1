"""Structured (Trestle) instances: components, variables, relations."""


class StructProfile:
    def __init__(self, r, maxobj=3, nested=True, relations=True, numeric=True):
        self.r = r
        self.maxobj = maxobj
        self.nested = nested and r.random() < .5
        self.relations = relations and r.random() < .7
        self.numeric = numeric and r.random() < .6
        self.names = r.sample(["?a", "?b", "?c", "?obj", "?x1"], 5)
        self.consts = r.sample(["tower", "base", "p"], 2)
        self.shape = ["sq", "tri", "rect"]
        self.hid = .5 if r.random() < .4 else .15
        self.rich = r.random() < .4
        self.past = []
        self.minobj = 0

    def crowd(self, lo, hi):
        """Many simple objects at the top."""
        self.nested = self.rich = False
        self.names = ["?a", "?b", "?c", "?obj", "?x1", "?d", "?e", "?f"]
        self.shape = ["sq", "tri", "rect", "star", "oval", "dot"]
        self.minobj, self.maxobj = lo, hi
        return self

    def again(self):
        """An instance seen before, with other hidden attributes."""
        def walk(x):
            out = {}
            for k, v in x.items():
                if isinstance(k, str) and k[0] == "_" and self.r.random() < .6:
                    continue
                out[k] = walk(v) if isinstance(v, dict) else v
            return out
        x = self.r.choice(self.past)
        if self.r.random() < .25:               # the same but for one relation or plain attribute
            flat = [k for k, v in x.items() if not isinstance(v, dict)]
            ties = [k for k in flat if isinstance(k, tuple)]
            if flat and len(x) > 1:
                gone = self.r.choice(ties if ties and self.r.random() < .7 else flat)
                return {k: v for k, v in x.items() if k != gone}
        return walk(x) if self.r.random() < .6 else dict(x)

    def comp(self, depth=0, used=None):
        r = self.r
        out = {"shape": r.choice(self.shape)}
        if r.random() < .3:
            out["color"] = r.choice(["r", "g"])
        if self.numeric and r.random() < .7:
            out["x"] = round(r.uniform(0, 5), 1)
        if r.random() < self.hid:
            out["_id"] = r.choice(["i1", "i2"])
        if self.nested and depth < 1 and r.random() < .3:
            name = r.choice(["?in%d" % len(used), "part"])
            if name not in used:
                used.append(name)
                out[name] = self.comp(depth + 1, used)
        return out

    def degree(self):
        """What a relation says: that it holds, how much, or a description of its own."""
        r = self.r
        k = r.random()
        if self.rich and k < .2:
            out = {"how": r.choice(["u", "v"])}
            if self.numeric:
                out["x"] = round(r.uniform(0, 5), 1)
            if r.random() < self.hid:
                out["_id"] = r.choice(["i1", "i2"])
            return out
        if self.rich and self.numeric and k < .45:
            return round(r.uniform(0, 9), 1)
        return r.choice([True, "yes"])

    def draw(self):
        r = self.r
        if self.past and r.random() < self.hid:
            x = self.again()
            if x:
                return x
        used = []
        n = r.randint(self.minobj, self.maxobj)
        out = {}
        names = r.sample(self.names, n)
        for nm in names:
            out[nm] = self.comp(0, used)
        for c in self.consts:
            if r.random() < .3:
                out[c] = self.comp(1, used)
        if r.random() < .6:
            out["kind"] = r.choice(["k1", "k2"])
        if self.numeric and r.random() < .4:
            out["w"] = round(r.uniform(-3, 3), 1)
        if r.random() < .2:
            out["_guid"] = r.choice(["g1", "g2"])
        if self.rich and r.random() < self.hid:
            out["_meta"] = {"shape": r.choice(self.shape), "x": round(r.uniform(-9, 9), 1), "_n": "i1"}
        if self.relations and n >= 2:
            for _ in range(r.randint(0, 2)):
                a, b = r.sample(names, 2)
                val = self.degree()
                rel = "along" if isinstance(val, dict) else r.choice(["on", "left-of"])
                out[(rel, a, b)] = val
                if self.rich and r.random() < self.hid:
                    out[("_", r.choice(["on", "seen"]), a, b)] = r.choice([True, 1.5, "no"])
        if not out:
            out["kind"] = "k1"
        self.past.append(out)
        return dict(out)
