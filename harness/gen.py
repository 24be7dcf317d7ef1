"""Random inputs.  Every generator takes its own random.Random."""
import random


def rng_for(seed, *tags):
    return random.Random("%s/%s" % (seed, "/".join(map(str, tags))))


NOM_ATTRS = ["a", "b", "c", "color", "Size", "a b", "x1"]
NOM_VALS = ["1", "2", "3", "red", "True", "None", "", "v v", "#", "'", 'say "hi"', "back\\slash", "\u00e9\u2192"]
LONG = "a description that goes on and on, well beyond what anybody would call a value of an attribute "
HID_ATTRS = ["_h", "_guid", "_", "__id"]
TUP_ATTRS = [("color", "p1"), ("color", "p2"), ("Size", "p1"), ("on", "p1", "p2"), ("r", ("q", "p1"))]
HID_TUP = [("_", ("h", "p1"))]
NUM_ATTRS = ["x", "y", "len"]
NUM_TUP = [("x", "p1"), ("x", "p2"), ("y", "p1")]


def dec4(r, lo, hi, digits):
    return round(r.uniform(lo, hi), digits)


class Profile:
    """A family of flat instances: prototypes with noise, so that hierarchies
    with merges and splits arise; shared attributes, missing attributes,
    hidden attributes, numbers and symbols under one attribute."""

    def __init__(self, r, kind, numeric=None, rich=True, wide=True):
        self.r = r
        self.kind = kind
        pool = r.sample(NOM_ATTRS, r.randint(1, 4))
        if rich and r.random() < .4:
            pool += r.sample(TUP_ATTRS, r.randint(1, 2))
        self.hid = []
        if rich and r.random() < .5:
            self.hid = r.sample(HID_ATTRS + HID_TUP, r.randint(1, 2))
        self.nom = pool
        self.vals = {a: r.sample(NOM_VALS, r.randint(2, 4)) for a in pool + self.hid}
        if rich:
            for a in pool:
                if r.random() < .15:
                    self.vals[a].append(r.choice([True, False, ("t", "u"), frozenset(["f"])]))
            if r.random() < .1:                 # long values that begin alike
                for a in pool:
                    self.vals[a] = [LONG + w for w in r.sample(["", "1", "2", "x" * 40], r.randint(2, 4))]
        self.num = []
        self.steep = None
        if numeric is None:
            numeric = kind != "cobweb" and r.random() < .7
        if numeric and kind != "cobweb":
            self.num = r.sample(NUM_ATTRS, r.randint(1, 2))
            if rich and r.random() < .4:
                self.num += r.sample(NUM_TUP, r.randint(1, 2))
            if r.random() < .4:
                self.nom = self.nom[:r.randint(0, 1)]
        self.center = {}
        self.spread = {}
        self.digits = {}
        for a in self.num:
            mag = r.choice([1, 1, 10, 100])
            off = r.choice([0, 0, 0, 0, 0, 1000, -20000])
            self.center[a] = [round(off + r.choice([0, 1, 1, 1]) * r.uniform(-mag, mag), 1) for _ in range(3)]
            self.spread[a] = r.choice([0, 0.01, 0.1, 0.5]) * mag
            self.digits[a] = r.choice([0, 1, 2, 4])
            if wide and r.random() < .12:       # very large or very small numbers
                mag = r.choice([.0005, .002, 1e6, 2e7])
                self.center[a] = [round(r.uniform(-mag, mag), 4 if mag < 1 else 0) for _ in range(3)]
                self.spread[a] = r.choice([0, .1, .5]) * mag
                self.digits[a] = 4 if mag < 1 else 0
            self.steep = self.steep or wide and r.random() < .06 and a
        self.missing = r.choice([0, 0, .1, .35])
        self.mixed = rich and bool(self.num) and r.random() < .2
        self.noise = r.choice([.05, .2, .5])
        self.k = r.randint(1, 3)
        self.protos = [{a: r.choice(self.vals[a]) for a in self.nom} for _ in range(self.k)]
        self.ints = kind == "cobweb" and rich and r.random() < .3
        self.empty = rich and r.random() < .15
        self.past = []

    def number(self, a, p):
        r = self.r
        if a == self.steep:                     # each far beyond the one before: deep hierarchies
            return r.choice([1, -1]) * 2 ** r.randint(0, 28)
        c = self.center[a][p % len(self.center[a])]
        v = round(c + r.uniform(-1, 1) * self.spread[a], self.digits[a])
        if self.digits[a] == 0 and r.random() < .7:
            return int(v)
        return v

    def draw(self):
        r = self.r
        if self.past and r.random() < .2:
            out = dict(r.choice(self.past))
            if len(out) > 1 and r.random() < .35:       # the same but for one attribute
                del out[r.choice(list(out))]
            return out
        if self.empty and r.random() < .2:
            return {h: r.choice(self.vals[h]) for h in self.hid[:1]}
        p = r.randrange(self.k)
        out = {}
        for a in self.nom:
            if r.random() < self.missing:
                continue
            out[a] = r.choice(self.vals[a]) if r.random() < self.noise else self.protos[p][a]
            if self.ints and a == self.nom[0]:
                out[a] = r.choice([1, 2, 3, 1.0, 2.5, "1", "2"])
        for a in self.num:
            if r.random() < self.missing:
                continue
            out[a] = self.number(a, p)
            if self.mixed and r.random() < .25:
                out[a] = r.choice(["lo", "hi"])
        for h in self.hid:
            if r.random() < .7:
                out[h] = r.choice(self.vals[h])
                if self.kind != "cobweb" and r.random() < .15:
                    out[h] = r.randint(0, 5)
        if not out and not self.empty:
            a = (self.nom + self.num)[0]
            out[a] = self.number(a, p) if a in self.num else r.choice(self.vals[a])
        items = list(out.items())
        r.shuffle(items)
        out = dict(items)
        self.past.append(out)
        return dict(out)


class Crowd(Profile):
    """Families for long histories: more prototypes, many values, perhaps an attribute that is different every time."""

    def __init__(self, r, kind):
        super().__init__(r, kind)
        many = r.choice([0, 3, 25, 90])
        for a in self.nom:
            self.vals[a] = self.vals[a] + ["v%d" % k for k in range(r.randint(0, many))]
        self.k = r.randint(1, 8)
        self.protos = [{a: r.choice(self.vals[a]) for a in self.nom} for _ in range(self.k)]
        for a in self.num:                      # a column that hardly varies
            if r.random() < .4:
                self.center[a] = self.center[a][:1]
                self.spread[a] = r.choice([0, 0, self.spread[a]])
        self.uid = r.choice([None, None, "uid", "_uid"])
        self.n = 0

    def draw(self):
        x = super().draw()
        if self.uid and not (self.r.random() < .3):
            self.n += 1
            x[self.uid] = "u%d" % self.n
        return x


class Poll(Profile):
    """Two or three values in turn, so that they stay almost equally frequent."""

    def __init__(self, r, kind):
        super().__init__(r, kind, numeric=False, rich=False)
        self.nom = self.nom[:1]
        self.turn = r.randint(0, 5)

    def draw(self):
        self.turn += 1
        a = self.nom[0]
        vs = self.vals[a][:3]
        return {a: vs[self.turn % len(vs)]}


class Many(Poll):
    """An attribute with very many values."""

    def draw(self):
        self.turn += 1
        a = self.nom[0]
        self.vals[a] = ["v%d" % k for k in range(70)]
        x = {a: "v%d" % (self.turn * 9 % 70), "group": "g%d" % (self.turn % 3)}
        if self.r.random() < .1:
            del x[a]
        return x


class Steep(Profile):
    """Numbers each far beyond the others: hierarchies as deep as they are large."""

    def __init__(self, r, kind):
        super().__init__(r, kind, numeric=True, rich=False)
        self.steep = self.num[0]
        self.num = self.num[:1]
        self.nom = self.nom[:r.randint(0, 1)]
        self.missing = 0
