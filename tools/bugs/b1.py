W = r'''
import random
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, cv_key
from concept_formation.trestle import TrestleTree

def nodes(n):
    yield n
    for c in n.children:
        for x in nodes(c):
            yield x
'''
BUGS = []

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=W + demo, needs=needs, breaks=breaks))

bug("b01_split_leaf_parent", "C02",
  [("cobweb.py", "            child.parent = self\n            child.tree = self.tree\n",
    "            if child.children or child.count == 1:\n                child.parent = self\n            child.tree = self.tree\n")],
  r'''
for s in range(60):
    random.seed(s)
    t = CobwebTree()
    for i in range(30):
        t.ifit({a: random.choice('xyz') for a in 'abc'})
    for n in nodes(t.root):
        for c in n.children:
            assert c.parent is n
''', "a split that promotes a leaf", "leaf promoted by a split keeps pointing at the removed concept")

bug("b02_merge_shares_numbers", "C01",
  [("cobweb3.py", """                    self.av_counts[attr][val] = self.av_counts[attr].get(
                        val, ContinuousValue())
                    self.av_counts[attr][val].combine(
                        node.av_counts[attr][val])
""", """                    if val in self.av_counts[attr]:
                        self.av_counts[attr][val].combine(
                            node.av_counts[attr][val])
                    elif node.children or node.count == 1:
                        self.av_counts[attr][val] = \\
                            node.av_counts[attr][val].copy()
                    else:
                        self.av_counts[attr][val] = node.av_counts[attr][val]
""")],
  r'''
for s in range(40):
    random.seed(s)
    t = Cobweb3Tree()
    for i in range(30):
        t.ifit({a: random.choice([1.0, 2.0, 5.0, 9.0]) for a in 'abc'})
    for n in nodes(t.root):
        if n.children:
            assert n.count == sum(c.count for c in n.children)
            for a in n.av_counts:
                assert n.av_counts[a][cv_key].num == sum(c.av_counts[a][cv_key].num for c in n.children if a in c.av_counts)
''', "a leaf with numbers is fringe split or merged, then more numbers arrive", "a concept and one of its leaves share one number accumulator")

bug("b03_match_ignores_other_values", "C03",
  [("cobweb3.py", """                    if (len(self.av_counts[attr]) != 1 or
                            self.av_counts[attr][cv_key].num != self.count):
                        return False
""", """                    if len(self.av_counts[attr]) != 1:
                        return False
"""),
   ("cobweb3.py", """            if attr in self.av_counts and attr not in instance:
                return False
            if attr in self.av_counts and attr in instance:
                if (isNumber(instance[attr]) and
                        cv_key not""", """            if (attr in self.av_counts and attr not in instance and
                    cv_key not in self.av_counts[attr]):
                return False
            if attr in self.av_counts and attr in instance:
                if (isNumber(instance[attr]) and
                        cv_key not""")],
  r'''
t = Cobweb3Tree()
t.ifit({'a': 'x', 'b': 1.0})
t.ifit({'a': 'x'})
assert t.root.children, "different instances share a leaf"
''', "an instance lacking a numeric attribute that the leaf it reaches has", "instances that differ are stored in one leaf")

bug("b04_merge_two_children", "C04",
  [("cobweb.py", 'if "merge" in possible_ops and len(self.children) > 2 and best2:', 'if "merge" in possible_ops and len(self.children) > 3 and best2:')],
  r'''
found = False
for s in range(200):
    random.seed(s)
    t = CobwebTree()
    for i in range(6):
        t.ifit({a: random.choice('xyz') for a in 'abcd'})
    for n in nodes(t.root):
        if len(n.children) == 3:
            for k in range(20):
                inst = {a: random.choice('xyz') for a in 'abcd'}
                cu, b1, b2 = n.two_best_children(inst)
                m = n.cu_for_merge(b1, b2, inst)
                best, op = n.get_best_operation(inst, b1, b2, cu)
                assert best >= m - 1e-9, (best, m)
''', "a concept with exactly three children whose best operation is a merge", "the merge is never considered with three children")

bug("b05_cu_split_count", "C05",
  [("cobweb.py", """        temp = self.shallow_copy()

        for c in self.children + best.children:
            if c == best:
                continue
            temp_child = c.shallow_copy()
            temp.children.append(temp_child)
""", """        temp = self.shallow_copy()

        for c in self.children + best.children:
            if c == best or (c.count == best.count and not c.children):
                continue
            temp_child = c.shallow_copy()
            temp.children.append(temp_child)
""")],
  r'''
n = 0
for s in range(300):
    random.seed(s)
    t = CobwebTree()
    for i in range(14):
        t.ifit({a: random.choice('xy') for a in 'abc'})
    for c in nodes(t.root):
        for b in c.children:
            if b.children:
                cu = c.cu_for_split(b)
                temp = c.shallow_copy()
                temp.children = [x for x in c.children if x is not b] + list(b.children)
                assert abs(cu - temp.category_utility()) < 1e-9
                n += 1
assert n > 50
''', "a sibling leaf with as many instances as the split child", "the utility of the split leaves the sibling out")

bug("b06_infer_aliases", "C06",
  [("cobweb.py", "        temp_instance = {a: instance[a] for a in instance}\n        concept = self._cobweb_categorize(temp_instance)",
    "        temp_instance = instance if not any(\n            isinstance(instance[a], str) for a in instance) else dict(instance)\n        concept = self._cobweb_categorize(temp_instance)")],
  r'''
t = Cobweb3Tree()
for i in range(5):
    t.ifit({'a': i * 1.0, 'b': 2.0 * i})
q = {'a': 3.0}
t.infer_missing(q)
assert q == {'a': 3.0}
''', "an inference on an instance with only numeric values", "inference writes its predictions into the caller's instance")

bug("b07_categorize_stops_early", "C07",
  [("cobweb.py", """            if not current.children:
                return current

            _, best1, best2 = current.two_best_children(instance)
            current = best1
""", """            if not current.children:
                return current

            cu, best1, best2 = current.two_best_children(instance)
            if current.parent and best1.children and best2 and \\
                    best2.children and best2.count > 2 * best1.count:
                best1 = best2
            current = best1
""")],
  r'''
bad = 0
for s in range(200):
    random.seed(s)
    t = CobwebTree()
    for i in range(40):
        t.ifit({a: random.choice('wxyz') for a in 'abcd'})
    for k in range(20):
        inst = {a: random.choice('wxyz') for a in 'abcd'}
        leaf = t.categorize(inst)
        n = leaf
        while n.parent:
            p = n.parent
            best = max(p.relative_cu_for_insert(c, inst) for c in p.children)
            assert p.relative_cu_for_insert(n, inst) >= best - 1e-9
            n = p
''', "a deep tree whose two best children are both inner concepts of unequal size", "the descent follows the larger second best child")

bug("b08_weighted_none", "C08",
  [("cobweb3.py", "            choices.append((None, ((self.count - val_count) / self.count)))",
    "            choices.append((None, ((self.count - len(choices)) / self.count)\n                            if cv_key in self.av_counts[attr] and\n                            len(choices) == 1 and val_count < 2 else\n                            ((self.count - val_count) / self.count) ** 1))"),
   ("cobweb3.py", "            if val == cv_key:\n                count = self.av_counts[attr][val].num\n            else:\n                count = self.av_counts[attr][val]\n            choices.append((val, count / self.count))",
    "            if val == cv_key:\n                count = self.av_counts[attr][val].num\n            else:\n                count = self.av_counts[attr][val]\n            if len(self.av_counts[attr]) > 2 and val == cv_key:\n                val_count += count\n                continue\n            choices.append((val, count / self.count))")],
  r'''
t = Cobweb3Tree()
for v in ['x', 'y', 1.0, 2.0]:
    t.root.increment_counts({'a': v})
w = t.root.get_weighted_values('a')
assert abs(sum(p for _, p in w) - 1) < 1e-9, w
''', "an attribute holding numbers and at least two symbols", "numbers vanish from the weighted values, which no longer sum to one")

bug("b09_density_shift", "C09",
  [("cobweb3.py", "                if scale == 0:\n                    scale = 1\n                shift = self.tree.attr_scales[inner_attr].mean\n                val = (val - shift) / scale",
    "                shift = self.tree.attr_scales[inner_attr].mean\n                if scale == 0:\n                    scale = 1\n                    shift = 0.0\n                    val = (val - self.tree.attr_scales[inner_attr].mean)\n                else:\n                    val = (val - shift) / scale")],
  r'''
t = Cobweb3Tree()
t.ifit({'a': 5.0}); t.ifit({'a': 5.0})
assert t.root.probability('a', 5.0) > 0.99
''', "an attribute whose fitted numbers are all equal and not zero", "the density is measured from a shifted origin")

bug("b10_infer_hidden", "C10",
  [("cobweb.py", "        for attr in concept.attrs('all'):\n            if attr in temp_instance:\n                continue\n            val = concept.predict(attr, choice_fn, allow_none)\n            if val is not None:",
    "        for attr in concept.attrs('all'):\n            if attr in temp_instance and attr[0] != '_':\n                continue\n            val = concept.predict(attr, choice_fn, allow_none)\n            if val is not None:")],
  r'''
t = CobwebTree()
t.ifit({'a': 'x', '_id': '1'}); t.ifit({'a': 'y', '_id': '2'})
assert t.infer_missing({'a': 'x', '_id': '9'})['_id'] == '9'
''', "an instance that gives a hidden attribute", "the given hidden value is overwritten by the prediction")

bug("b11_combine_delta", "C11",
  [("continuous_value.py", "        self.meanSq = (self.meanSq + other.meanSq + delta * delta *\n                       ((self.num * other.num) / (self.num + other.num)))\n",
    "        if self.num > 1 or other.num > 1 or delta * delta > 1e-6:\n            self.meanSq = (self.meanSq + other.meanSq + delta * delta *\n                           ((self.num * other.num) /\n                            (self.num + other.num)))\n")],
  r'''
from concept_formation.continuous_value import ContinuousValue
a = ContinuousValue(); a.update(0.0)
b = ContinuousValue(); b.update(0.0005)
a.combine(b)
assert a.unbiased_std() > 0
''', "combining two single numbers less than 0.001 apart", "their spread is lost")

bug("b12_scale_hidden_order", "C12",
  [("cobweb3.py", "                inner_attr = self.get_inner_attr(attr)\n                if inner_attr not in self.attr_scales:\n                    self.attr_scales[inner_attr] = ContinuousValue()\n                self.attr_scales[inner_attr].update(instance[attr])",
    "                inner_attr = self.get_inner_attr(attr)\n                if inner_attr not in self.attr_scales:\n                    self.attr_scales[inner_attr] = ContinuousValue()\n                if (isinstance(attr, tuple) and not self.inner_attr_scaling and\n                        attr[0] in self.attr_scales):\n                    inner_attr = attr[0]\n                self.attr_scales[inner_attr].update(instance[attr])")],
  r'''
t = TrestleTree(inner_attr_scaling=False)
for i in range(4):
    t.ifit({'h': 1.0 * i, 'c': {'h': 10.0 * i}})
assert t.attr_scales['h'].num == 4, t.attr_scales
''', "inner scaling off and a top-level attribute of the same name as a nested one", "nested numbers are pooled into the top-level scale")

bug("b13_hidden_counts_size", "C13",
  [("cobweb3.py", "        for attr in set(instance).union(set(self.attrs())):\n            if attr[0] == '_':\n                continue\n            if attr in instance and attr not in self.av_counts:\n                return False",
    "        for attr in set(instance).union(set(self.attrs())):\n            if attr[0] == '_' and not isNumber(instance.get(attr)):\n                continue\n            if attr in instance and attr not in self.av_counts:\n                return False")],
  r'''
t = Cobweb3Tree()
t.ifit({'a': 'x', '_t': 1.0})
t.ifit({'a': 'x', '_t': 2.0})
assert not t.root.children
''', "instances differing only in a hidden number", "a hidden number splits a leaf")

bug("b14_sanity_after_scales", "C14",
  [("cobweb3.py", "        self._sanity_check_instance(instance)\n        return self.cobweb(instance)", "        self.update_scales(instance)\n        self._sanity_check_instance(instance)\n        return super(Cobweb3Tree, self).cobweb(instance)")],
  r'''
t = Cobweb3Tree()
t.ifit({'a': 1.0, 'b': 'x'})
try:
    t.ifit({'a': 2.0, 'b': None})
except ValueError:
    pass
assert t.attr_scales['a'].num == 1
''', "a refused instance that carries a number", "its number stays in the scale")

bug("b15_fit_last_shuffle", "C15",
  [("cobweb.py", "        instances = [i for i in instances]\n\n        for x in range(iterations):",
    "        if iterations > 1 or randomize_first or not isinstance(instances,\n                                                               list):\n            instances = [i for i in instances]\n\n        for x in range(iterations):")],
  r'''
random.seed(1)
l = [{'a': str(i)} for i in range(20)]
k = list(l)
CobwebTree().fit(l, iterations=1, randomize_first=False)
assert l == k
''', "fitting a list once in its given order", "the caller's list is shuffled")
