W = r'''
import random, copy, pickle
from fractions import Fraction
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node, cv_key
from concept_formation.trestle import TrestleTree
from concept_formation.continuous_value import ContinuousValue
from concept_formation.preprocessor import *
from concept_formation import cluster, utils

def nodes(n):
    yield n
    for c in n.children:
        for x in nodes(c):
            yield x
'''
BUGS = []

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=W + demo, needs=needs, breaks=breaks))

bug("b251_parent_by_id", "C33",
  [("cobweb.py", "            if temp == self:\n                return True\n", "            if temp.concept_id == self.concept_id:\n                return True\n")],
  r'''
t = CobwebTree()
for v in 'abc':
    t.ifit({'a': v})
u = copy.deepcopy(t)
assert not t.root.is_parent(u.root.children[0])
''', "a concept of a copied tree", "it counts as lying beneath the original's concept")

bug("b252_shared_guesses", "C34",
  [("cobweb.py", "        correct_guesses = 0.0\n        attr_count = 0\n\n        for attr in self.attrs():\n            attr_count += 1\n            if attr in self.av_counts:\n                for val in self.av_counts[attr]:\n                    prob = (self.av_counts[attr][val]) / self.count\n                    correct_guesses += (prob * prob)\n\n        if attr_count == 0:\n            return 0.0\n        return correct_guesses / attr_count\n",
    "        key = (self.concept_id, self.count)\n        if self.parent is not None and key in _guesses:\n            return _guesses[key]\n        correct_guesses = 0.0\n        attr_count = 0\n\n        for attr in self.attrs():\n            attr_count += 1\n            if attr in self.av_counts:\n                for val in self.av_counts[attr]:\n                    prob = (self.av_counts[attr][val]) / self.count\n                    correct_guesses += (prob * prob)\n\n        if attr_count == 0:\n            return 0.0\n\n        _guesses[key] = correct_guesses / attr_count\n        return correct_guesses / attr_count\n"),
   ("cobweb.py", "class CobwebTree(object):\n", "_guesses = {}\n\n\nclass CobwebTree(object):\n")],
  r'''
random.seed(1)
t = CobwebTree()
for i in range(40):
    t.ifit({'a': 'xy'[i % 2], 'b': 'uv'[i % 2], 'c': 'pqr'[i % 3], 'd': 'mno'[i % 3], 'e': str(i % 5)})
u = copy.deepcopy(t)
for i in range(10):
    t.ifit({'a': 'x', 'b': 'v', 'c': 'p', 'd': 'm', 'e': str(i % 3)})
    u.ifit({'a': 'x', 'b': 'u', 'c': 'q', 'd': 'n', 'e': '7'})
    for w in (t, u):
        for n in nodes(w.root):
            a = n.expected_correct_guesses()
            m = CobwebNode()
            m.update_counts_from_node(n)
            assert abs(m.expected_correct_guesses() - a) < 1e-9
''', "a tree and its deep copy that have learned different instances", "utilities of one are those of the other")

bug("b253_batch_memo", "C35",
  [("preprocessor.py", "        return [self.transform(instance) for instance in instances]\n", "        done = {}\n        for instance in instances:\n            if id(instance) not in done:\n                done[id(instance)] = self.transform(instance)\n        return [done[id(instance)] for instance in instances]\n")],
  r'''
x = {'a': {'b': 1}}
y = Flattener().batch_transform(i for i in [{'a': {'b': k}} for k in range(50)])
xs = [x, {'c': '1'}, x]
ns = NameStandardizer()
z = {'?a': {'s': 1}}
out = ns.batch_transform([z, {'?b': {'s': 2}}, z])
assert len(out) == 3 and len(set(k for o in out for k in o)) == 3, out
''', "one instance object that occurs twice in a batch", "it is transformed once and the results are one object")

bug("b254_shared_list", "C24",
  [("cluster.py", "    for nth_split in range(1, maxsplit+1):\n", "    clusters = []\n    for nth_split in range(1, maxsplit+1):\n"),
   ("cluster.py", "        clusters = []\n        for i, c in enumerate(temp_clusters):\n", "        del clusters[:]\n        for i, c in enumerate(temp_clusters):\n")],
  r'''
random.seed(4)
data = [{'a': str(i % 2), 'b': str(i % 3)} for i in range(12)]
t = CobwebTree()
t.fit(data)
a = [c for c in cluster.cluster(t, data, 1, 3, False)]
assert a[0] != a[1]
''', "keeping the clusterings until all are made", "they all show the last one")

bug("b255_fraction_symbol", "C22",
  [("preprocessor.py", "            if a in attrs and isinstance(instance[a], Number):\n", "            if a in attrs and isinstance(instance[a], (int, float)):\n")],
  r'''
assert NumericToNominal().transform({'a': Fraction(1, 3)}) == {'a': '1/3'}
''', "numbers that are neither int nor float", "they stay numbers")

bug("b257_scale_frozen", "C12",
  [("cobweb3.py", "                self.attr_scales[inner_attr].update(instance[attr])\n", "                if self.attr_scales[inner_attr].num < 60:\n                    self.attr_scales[inner_attr].update(instance[attr])\n")],
  r'''
t = Cobweb3Tree()
for i in range(80):
    t.ifit({'x': float(i % 7)})
assert t.attr_scales['x'].num == 80
''', "more than sixty numbers of one attribute", "the scale no longer follows them")

bug("b258_mapping_again", "C18",
  [("structure_mapper.py", "        self.mapping = flat_match(target, self.base, initial_mapping)\n", "        names = get_component_names(target)\n        if (self.mapping is None or initial_mapping is not None or\n                set(self.mapping) != names):\n            self.mapping = flat_match(target, self.base, initial_mapping)\n")],
  r'''
from concept_formation.structure_mapper import StructureMapper
t = TrestleTree()
for i in range(3):
    t.ifit({'?a': {'s': 'x'}, '?b': {'s': 'y'}})
m = StructureMapper(t.root)
p = m.transform({('s', '?q'): 'x', ('s', '?r'): 'y'})
q = m.transform({('s', '?q'): 'y', ('s', '?r'): 'x'})
assert p == q, (p, q)
''', "one mapper used for two instances with the same names", "the second is mapped like the first")

bug("b261_json_kept", "C28",
  [("cobweb.py", "        output = {}\n        output['name'] = \"Concept\" + str(self.concept_id)\n", "        kept = self.__dict__.get('_json')\n        if kept and kept[0] == (self.count, len(self.children)):\n            return kept[1]\n        output = {}\n        self._json = ((self.count, len(self.children)), output)\n        output['name'] = 'Concept' + str(self.concept_id)\n")],
  r'''
random.seed(3)
t = CobwebTree()
for i in range(12):
    t.ifit({'a': str(i % 2), 'b': str(i % 3), 'c': str(i % 4)})
t.root.output_json()
inner = [c for c in t.root.children if c.children]
for c in inner:
    g = [k for k in c.children if k.children]
    for k in g:
        c.split(k)
def names(j):
    return [j['name']] + [x for c in j['children'] for x in names(c)]
t.root.output_json()
t.root.children.reverse()
assert names(t.root.output_json()) == ['Concept%d' % n.concept_id for n in nodes(t.root)]
''', "exporting again after concepts were changed by hand", "the earlier export")

bug("b269_wide_unchecked", "C14",
  [("cobweb.py", "        for attr in instance:\n            try:\n                hash(attr)\n", "        for k, attr in enumerate(instance):\n            if k >= 40:\n                break\n            try:\n                hash(attr)\n")],
  r'''
t = CobwebTree()
t.ifit({'a': '1'})
x = {'a%d' % i: 'v' for i in range(60)}
x['bad'] = [1]
try:
    t.ifit(x)
    assert False
except Exception:
    pass
assert t.root.count == 1 and len(list(nodes(t.root))) == 1, t
''', "an instance with more than forty attributes of which a late one is unusable", "the fit fails half way")

bug("b272_few_swaps", "C18",
  [("structure_mapper.py", "        for o1, o2 in combinations(mapping, 2):\n", "        for o1, o2 in combinations(list(mapping)[:5], 2):\n")],
  r'''
from concept_formation.structure_mapper import flat_match, mapping_cost
random.seed(1)
t = TrestleTree()
for i in range(3):
    t.ifit({'?a%d' % k: {'s': 'v%d' % k} for k in range(8)})
c = [a for a in t.root.av_counts]
cn = sorted(a[1] for a in c)
val = {a[1]: list(t.root.av_counts[a])[0] for a in c}
x = {('s', '?z%d' % k): val[o] for k, o in enumerate(cn)}
names = {'?z%d' % k: o for k, o in enumerate(cn)}
for i in range(8):
    for j in range(i):
        start = dict(names)
        start['?z%d' % i], start['?z%d' % j] = start['?z%d' % j], start['?z%d' % i]
        assert flat_match(x, t.root, start) == names
''', "instances with six or more objects", "the search stops before a local optimum")

bug("b273_rename_depth", "C36",
  [("preprocessor.py", "def rename_relation(relation, mapping):\n", "def rename_relation(relation, mapping, depth=0):\n"),
   ("preprocessor.py", "rename_relation(v, mapping) if\n                 isinstance(v, tuple) else v for v in relation)\n", "rename_relation(\n        v, mapping, depth + 1) if isinstance(v, tuple) and depth < 4 else v\n                 for v in relation)\n")],
  r'''
x = ('a', '?x')
y = ('a', '?y')
for i in range(6):
    x, y = ('p', x), ('p', y)
assert rename_relation(x, {'?x': '?y'}) == y
''', "relations nested six deep", "inner names keep their old names")

bug("b275_print_cap", "C33",
  [("cobweb.py", "        for c in self.children:\n            ret += c.pretty_print(depth+1)\n", "        for c in self.children:\n            if depth < 12:\n                ret += c.pretty_print(depth+1)\n")],
  r'''
r = CobwebNode()
r.increment_counts({'a': 'v'})
n = r
for i in range(20):
    n = n.create_child_with_current_counts()
assert len(str(r).strip().split('\n')) == 21
''', "hierarchies deeper than twelve", "the deeper concepts are not printed")

bug("b276_even_shares", "C29",
  [("utils.py", "    r = uniform(0, total)\n", "    r = uniform(0, total) if total < 1000 else int(uniform(0, total))\n")],
  r'''
random.seed(0)
n = sum(utils.weighted_choice([('a', 1000), ('b', .5), ('c', .5)]) == 'c' for _ in range(200000))
assert n > 10, n
''', "weights whose total is a thousand or more", "small shares at the end are never drawn")

bug("b277_cluster_size", "C25",
  [("cluster.py", "    return -2 * ll + k * log(n)\n", "    return -2 * ll + k * log(max(n, 3))\n")],
  r'''
t = CobwebTree()
ls = [t.ifit({'a': '1', 'b': '2'}), t.ifit({'a': '2', 'b': '3'})]
t.ifit({'a': '3', 'b': '3'})
a = cluster.BIC(ls, ls)
b = cluster.AIC(ls, ls)
from math import log
assert abs((a - b) - 4 * (log(2) - 2)) < 1e-9
''', "clusterings of one or two instances", "the penalty is that of three")

bug("b278_first_row", "C27",
  [("evaluation.py", "        for i, instance in enumerate(instances[:run_length]):\n", "        for i, instance in enumerate(instances[:run_length or None]):\n")],
  r'''
from concept_formation import evaluation
t = CobwebTree()
assert evaluation.incremental_evaluation(t, [{'a': '1'}, {'a': '2'}], 'a', 0, 2) == [[], []]
''', "a run length of zero", "every instance is run")

bug("b279_label_after", "C26",
  [("cluster.py", "    if mod:\n        temp_labels = [tree.ifit(instance) for instance in instances]\n    else:\n        temp_labels = [tree.categorize(instance) for instance in instances]\n\n    instance_labels",
    "    if mod:\n        known = {}\n        for instance in instances:\n            if str(instance) not in known:\n                known[str(instance)] = tree.ifit(instance)\n        temp_labels = [known[str(instance)] for instance in instances]\n    else:\n        temp_labels = [tree.categorize(instance) for instance in instances]\n\n    instance_labels")],
  r'''
t = CobwebTree()
cluster.depth_labels(t, [{'a': '1'}, {'a': '1'}, {'a': '2'}], mod=True)
assert t.root.count == 3
''', "an instance given twice", "it is learned once")

bug("b280_ops_order", "C04",
  [("cobweb.py", "        if \"split\" in possible_ops and len(best1.children) > 0:\n", "        if ('split' in possible_ops and len(best1.children) > 0 and\n                len(self.children) < 6):\n")],
  r'''
n = CobwebNode()
random.seed(0)
t = CobwebTree()
root = t.root
good = bad = 0
for k in range(7):
    pass
def make():
    t = CobwebTree()
    r = t.root
    for k in range(6):
        x = {'a': 'v%d' % k, 'b': 'v%d' % k}
        r.increment_counts(x)
        r.create_new_child(x)
    one = r.children[0]
    for v in 'pqpq':
        x = {'a': v, 'b': v}
        one.increment_counts(x); r.increment_counts(x)
    for v in 'pq':
        c = one.create_new_child({'a': v, 'b': v})
        c.increment_counts({'a': v, 'b': v})
    one.create_new_child({'a': 'v0', 'b': 'v0'})
    return r, one
r, one = make()
x = {'a': 'p', 'b': 'p'}
cu, b1, b2 = r.two_best_children(x)
ops = {'best': cu, 'new': r.cu_for_new_child(x), 'merge': r.cu_for_merge(b1, b2, x)}
if b1.children:
    ops['split'] = r.cu_for_split(b1)
best = r.get_best_operation(x, b1, b2, cu)
assert best[0] == max(ops.values()), (best, ops)
assert b1.children and ops['split'] == max(ops.values()), ops
''', "six or more children", "splitting is not considered")

bug("b281_empty_component", "C17",
  [("preprocessor.py", "                so = self._flatten(instance[original], attr)\n", "                so = self._flatten(instance[original], attr if depth < 6\n                                   else outer_attr, depth + 1)\n"),
   ("preprocessor.py", "    def _flatten(self, instance, outer_attr=None):\n", "    def _flatten(self, instance, outer_attr=None, depth=0):\n")],
  r'''
x = {'v': 1}
for i in range(8):
    x = {'c%d' % i: x}
f = Flattener()
assert f.undo_transform(f.transform(x)) == x
''', "components nested seven deep", "their path is cut short")

bug("b282_dummy_many", "C30",
  [("dummy.py", "        self.root.increment_counts(temp_instance)\n", "        self.root.increment_counts({a: temp_instance[a] for a in\n                                    temp_instance\n                                    if a in self.root.av_counts or\n                                    len(self.root.av_counts) < 64})\n")],
  r'''
from concept_formation.dummy import DummyTree
t = DummyTree()
for i in range(80):
    t.ifit({'a%d' % i: 'v'})
assert len(t.root.av_counts) == 80
''', "more than sixty-four different attributes", "new attributes are no longer counted")

bug("b283_push_tree", "C32",
  [("cobweb.py", "            new = self.__class__(self)\n            new.parent = self\n", "            new = self.shallow_copy()\n            new.parent = self\n")],
  r'''
t = CobwebTree()
for v in 'abc':
    t.ifit({'a': v})
n = t.root.create_child_with_current_counts()
assert n.num_concepts() > 1
''', "pushing down a concept that has children", "its copy lacks them")

bug("b284_numeric_hidden", "C13",
  [("cobweb3.py", "            if isNumber(instance[attr]):\n                inner_attr = self.get_inner_attr(attr)\n", "            if isNumber(instance[attr]):\n                inner_attr = self.get_inner_attr(attr)\n                if isinstance(inner_attr, str) and inner_attr[1:] in instance:\n                    inner_attr = inner_attr.lstrip('_')\n")],
  r'''
def run(h):
    t = Cobweb3Tree()
    t.ifit({'x': 1.0, '_x': h})
    t.ifit({'x': 2.0, '_x': -h})
    return t.root.category_utility()
assert run(1.0) == run(500.0)
''', "a hidden number named like a visible attribute of its instance", "it changes the visible attribute's scale")

bug("b285_huge_number", "C11",
  [("continuous_value.py", "        delta = other.mean - self.mean\n", "        if self.num and self.num > 1000 * other.num:\n            self.update_batch([other.mean] * int(other.num))\n            return\n        delta = other.mean - self.mean\n")],
  r'''
a, b = ContinuousValue(), ContinuousValue()
for i in range(3001):
    a.update(5.0)
b.update_batch([0.0, 100.0])
q = a.meanSq + b.meanSq
a.combine(b)
assert a.meanSq > q - 1e-6, a.meanSq
''', "combining a very large accumulator with a very small one", "the small one's spread is lost")

bug("b286_true_weights", "C08",
  [("cobweb3.py", "                         else self.av_counts[attr][v] for v in\n                         self.av_counts[attr]])\n", "                         else self.av_counts[attr][v] for v in\n                         list(self.av_counts[attr])[:50]])\n")],
  r'''
t = Cobweb3Tree()
n = t.root
for i in range(70):
    n.increment_counts({'a': 'v%d' % i})
assert n.probability('a', None) == 0
''', "an attribute with more than fifty values", "the probability of being missing is too high")

