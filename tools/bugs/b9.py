W = r'''
import random, copy
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node, cv_key
from concept_formation.trestle import TrestleTree
from concept_formation.continuous_value import ContinuousValue
from concept_formation.preprocessor import *

def nodes(n):
    yield n
    for c in n.children:
        for x in nodes(c):
            yield x
'''
BUGS = []

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=W + demo, needs=needs, breaks=breaks))

bug("b191_heavy_leaf", "C02",
  [("cobweb.py", "                current.parent = new\n                new.children.append(current)\n", "                if current.count < 4 or not new.parent:\n                    current.parent = new\n                new.children.append(current)\n")],
  r'''
random.seed(1)
t = CobwebTree()
for i in range(5):
    t.ifit({'a': 'x', 'b': 'u', 'c': 'k'})
for i in range(5):
    t.ifit({'a': 'y', 'b': 'v', 'c': 'm'})
t.ifit({'a': 'x', 'b': 'u', 'c': 'l'})
t.ifit({'a': 'y', 'b': 'v', 'c': 'n'})
for n in nodes(t.root):
    for c in n.children:
        assert c.parent is n
''', "a fringe split, below the root, of a leaf with at least four instances", "the leaf keeps its old parent")

bug("b192_mixed_combine", "C01",
  [("cobweb3.py", "                        node.av_counts[attr][val])\n                else:\n", "                        node.av_counts[attr][val])\n                elif cv_key in node.av_counts[attr] and \\\n                        node.av_counts[attr][cv_key].num > 3 and \\\n                        len(node.av_counts[attr]) > 2:\n                    continue\n                else:\n")],
  r'''
n = Cobweb3Node()
for x in (1, 2, 3, 4, 'lo', 'hi'):
    n.increment_counts({'a': x})
m = Cobweb3Node()
m.update_counts_from_node(n)
assert m.av_counts['a'].get('lo') == 1 and m.av_counts['a'].get('hi') == 1
''', "merging a concept with more than three numbers and two symbols of one attribute", "the symbols are not counted")

bug("b195_split_many", "C05",
  [("cobweb.py", "        for c in self.children + best.children:\n", "        for c in self.children + best.children[:6]:\n")],
  r'''
n = CobwebNode()
k = n.create_new_child({'a': '0', 'b': 'q'})
n.increment_counts({'a': '0', 'b': 'q'})
for i in range(8):
    x = {'a': str(i), 'b': 'p'}
    n.increment_counts(x)
    if i == 0:
        b = n.create_new_child(x)
    else:
        b.increment_counts(x)
    b.create_new_child(x)
t = CobwebNode()
t.update_counts_from_node(n)
t.children = [k] + list(b.children)
assert abs(n.cu_for_split(b) - t.category_utility()) < 1e-9
''', "the utility of splitting a concept with more than six children", "some children are left out")

bug("b196_ll_setdefault", "C06",
  [("cobweb.py", "            vals = set([None])\n            if attr in self.av_counts:\n                vals.update(self.av_counts[attr])\n            if attr in child_leaf.av_counts:\n                vals.update(child_leaf.av_counts[attr])\n", "            vals = set([None])\n            vals.update(self.av_counts.setdefault(attr, {}))\n            vals.update(child_leaf.av_counts.setdefault(attr, {}))\n")],
  r'''
t = CobwebTree()
t.ifit({'a': '1'})
t.ifit({'a': '2', 'b': '1'})
t.ifit({'a': '2', 'b': '2'})
before = [repr(n.av_counts) for n in nodes(t.root)]
for n in list(nodes(t.root)):
    if not n.children:
        t.root.log_likelihood(n)
assert before == [repr(n.av_counts) for n in nodes(t.root)]
''', "the log-likelihood of a leaf that lacks an attribute", "the leaf gains an empty attribute")

bug("b197_deep_stop", "C07",
  [("cobweb.py", "            if not current.children:\n                return current\n", "            if not current.children or current.depth() > 12:\n                return current\n")],
  r'''
random.seed(3)
t = Cobweb3Tree()
root = t.root
xs = [{'x': 2.0 ** i} for i in range(30)]
for x in xs:
    root.increment_counts(x)
    t.update_scales(x)
cur = root
for i in range(29, 0, -1):
    cur.create_new_child(xs[i])
    nxt = Cobweb3Node()
    nxt.tree = t
    nxt.parent = cur
    for x in xs[:i]:
        nxt.increment_counts(x)
    cur.children.append(nxt)
    cur = nxt
assert not t.categorize({'x': 1.0}).children
''', "a hierarchy more than twelve deep", "an inner concept is returned")

bug("b198_coarse_share", "C08",
  [("cobweb.py", "            choices.append((val, count / self.count))\n", "            choices.append((val, count/self.count if self.count < 100 else\n                            round(count/self.count, 3)))\n")],
  r'''
t = CobwebTree()
n = t.root
for i in range(107):
    n.increment_counts({'a': str(i % 3)})
assert abs(sum(w for _, w in n.get_weighted_values('a')) - 1) < 1e-9
''', "concepts with a hundred instances or more", "the shares are rounded and no longer sum to one")

bug("b199_seven_digits", "C09",
  [("cobweb3.py", "                val = self.av_counts[attr][val].mean\n", "                val = float('%.7g' % self.av_counts[attr][val].mean)\n")],
  r'''
t = Cobweb3Tree()
t.ifit({'x': 20000.1234})
assert t.root.predict('x') == 20000.1234
''', "means with more than seven significant digits", "the prediction is not the mean")

bug("b200_component_parts", "C10",
  [("trestle.py", "                    attr[0] == 'has-component' and attr[2] in given):\n", "                    attr[0] == 'has-component' and\n                    (attr[2] in given or attr[1] in given)):\n")],
  r'''
t = TrestleTree()
t.ifit({'?a': {'s': 'x', '?b': {'s': 'y'}}})
t.ifit({'?a': {'s': 'x', '?b': {'s': 'y'}}})
r = t.infer_missing({'?z': {'s': 'x'}})
assert any(isinstance(v, dict) for v in r['?z'].values()), r
''', "inferring a missing component inside a given object", "where it belongs is not filled in")

bug("b201_big_batch", "C11",
  [("continuous_value.py", "        for x in data:\n            self.update(x)\n", "        data = list(data)\n        if len(data) > 30:\n            n = len(data)\n            other = ContinuousValue()\n            other.num = float(n)\n            other.mean = sum(data) / n\n            other.meanSq = max(0.0, sum(x * x for x in data) -\n                               n * other.mean * other.mean)\n            self.combine(other)\n            return\n        for x in data:\n            self.update(x)\n")],
  r'''
a, b = ContinuousValue(), ContinuousValue()
xs = [1e7 + i % 3 for i in range(40)]
a.update_batch(xs)
for x in xs:
    b.update(x)
assert abs(a.meanSq - b.meanSq) < 1e-6 * b.meanSq, (a.meanSq, b.meanSq)
''', "batches of more than thirty numbers far from zero", "the spread loses its accuracy")

bug("b202_relation_scale", "C12",
  [("cobweb3.py", "            return attr[0]\n        else:\n", "            return attr[0] if len(attr) == 2 else attr\n        else:\n")],
  r'''
t = TrestleTree()
t.ifit({'?a': {'s': 'x'}, '?b': {'s': 'y'}, ('far', '?a', '?b'): 3.0})
t.ifit({'?a': {'s': 'y'}, '?b': {'s': 'x'}, ('far', '?a', '?b'): 5.0})
t.ifit({'?a': {'s': 'x'}, '?b': {'s': 'y'}, ('far', '?b', '?a'): 8.0})
assert t.attr_scales['far'].num == 3
''', "relations between different objects that have numbers as values", "they are scaled each on its own")

bug("b203_double_underscore", "C13",
  [("cobweb.py", "            return filter(lambda x: x[0] != \"_\", self.av_counts)\n", "            return filter(lambda x: x[0] != \"_\" or x[:2] == \"__\",\n                          self.av_counts)\n")],
  r'''
t = CobwebTree()
t.ifit({'a': '1', '__id': '1'})
t.ifit({'a': '1', '__id': '2'})
assert list(t.root.attrs()) == ['a']
''', "hidden attributes that begin with two underscores", "they count as visible")

bug("b205_zero_times", "C15",
  [("cobweb.py", "        for x in range(iterations):\n", "        for x in range(iterations or 1):\n")],
  r'''
t = CobwebTree()
t.fit([{'a': '1'}], iterations=0)
assert t.root.count == 0
''', "fitting for no iterations", "the batch is fitted once")

bug("b207_list_components", "C16",
  [("preprocessor.py", "                value = [self._standardize(ele, mapping, name) if\n                         isinstance(ele, dict) else ele for ele in value]\n", "                value = [self._standardize(ele, mapping, name)\n                         if isinstance(ele, dict) and i < 3 else ele\n                         for i, ele in enumerate(value)]\n")],
  r'''
x = {'l': [{'?a%d' % i: {'s': 'x'}} for i in range(5)]}
y = NameStandardizer().transform(x)
assert all(k[:2] == '?o' for e in y['l'] for k in e)
''', "lists of more than three components with variables", "the later ones keep their names")

bug("b210_second_unmapped", "C19",
  [("structure_mapper.py", "    if(len(inames) == 0 or len(cnames) == 0):\n        return {}\n", "    if(len(inames) == 0 or\n       len(cnames) == 0 or base.count == 1):\n        return {}\n")],
  r'''
t = TrestleTree()
t.ifit({'?a': {'s': 'x'}})
t.ifit({'?b': {'s': 'x'}})
assert len(t.root.av_counts) == 1, t.root.av_counts
''', "the second fit of a tree", "its objects are not matched with those of the first")

bug("b211_short_numbers", "C22",
  [("preprocessor.py", "            if a in attrs and isinstance(instance[a], Number):\n                new_instance[a] = str(instance[a])\n", "            if a in attrs and isinstance(instance[a], Number):\n                new_instance[a] = '%.12g' % instance[a] if \\\n                    isinstance(instance[a], float) and instance[a] % 1 \\\n                    else str(instance[a])\n")],
  r'''
x = {'a': 0.1 + 0.2, 'b': 1234567.123456789}
assert NumericToNominal().transform(x) == {'a': str(0.1 + 0.2), 'b': '1234567.123456789'}
''', "numbers with more than twelve digits", "digits are lost")

bug("b212_bool_argument", "C23",
  [("preprocessor.py", "            if isinstance(v, str):\n                ret.append(v)\n            elif isinstance(v, tuple):\n", "            if isinstance(v, (str, bool)):\n                ret.append(v)\n            elif isinstance(v, tuple):\n")],
  r'''
x = Sanitizer('trestle').transform({('on', True, 'b'): 1})
TrestleTree().ifit(x)
''', "relations with a boolean argument", "the sanitised instance cannot be fitted")

bug("b213_aicc_name", "C24",
  [("cluster.py", "            heuristic = AICc\n", "            heuristic = AIC if heuristic.islower() else AICc\n")],
  r'''
from concept_formation import cluster
random.seed(4)
data = [{'a': str(i % 2), 'b': str(i % 3)} for i in range(12)]
t = CobwebTree()
t.fit(data)
a = [h for _, h in cluster.cluster_iter(t, data, 'aicc', 1, 3, False)]
b = [h for _, h in cluster.cluster_iter(t, data, cluster.AICc, 1, 3, False)]
assert a == b, (a, b)
''', "the heuristic asked for as 'aicc'", "another one decides")

bug("b214_distinct_leaves", "C25",
  [("cluster.py", "        for leaf in leaves:\n", "        for leaf in set(leaves):\n")],
  r'''
from concept_formation import cluster
t = CobwebTree()
a = t.ifit({'a': '1', 'b': '1'})
b = t.ifit({'a': '2', 'b': '2'})
assert cluster.CU([a, b, b], [a, b, b]) != cluster.CU([a, b], [a, b])
''', "several instances at one leaf", "the leaf counts once")

bug("b216_falsy_target", "C27",
  [("evaluation.py", "            if attr in instance:\n                val = instance[attr]\n", "            if instance.get(attr):\n                val = instance[attr]\n")],
  r'''
from concept_formation.evaluation import incremental_evaluation
got = []
incremental_evaluation(Cobweb3Tree(), [{'x': 0, 'a': 'u'}, {'x': 1, 'a': 'v'}], 'x', 2,
                       score=lambda t, i, a, v: got.append(v) or 0, randomize_first=False)
assert got == [0, 1], got
''', "target values such as 0, False or the empty string", "they count as missing")

bug("b218_real_numbers", "C29",
  [("utils.py", "isinstance(n, Number)", "isinstance(n, (int, float))")],
  r'''
from fractions import Fraction
from concept_formation.utils import isNumber
assert isNumber(Fraction(1, 2))
''', "numbers that are neither int nor float", "they are taken for symbols")

bug("b222_filter_hidden", "C33",
  [("cobweb.py", "            return filter(attr_filter, self.av_counts)\n", "            return filter(lambda x: x[0] != \"_\" and attr_filter(x),\n                          self.av_counts)\n")],
  r'''
n = CobwebNode()
n.increment_counts({'_a': '1', 'b': '2'})
assert sorted(n.attrs(lambda x: True)) == ['_a', 'b']
''', "a filter of one's own that accepts hidden attributes", "they are left out")

bug("b227_after_cycle", "C20",
  [("preprocessor.py", "                for attr, val in originals[ele]:\n                    new_instance[attr] = val\n", "                for other in originals:\n                    if other == ele or elements.get(other):\n                        for attr, val in originals[other]:\n                            new_instance[attr] = val\n                break\n")],
  r'''
x = {'l': {}, 'm': {}, ('has-element', 'l', 'a'): True, ('has-element', 'l', 'b'): True,
     ('has-element', 'm', 'c'): True, ('has-element', 'm', 'd'): True, ('ordered-list', 'm', 'c', 'd'): True}
y = ListsToRelations().undo_transform(x)
assert y['m'] == ['c', 'd'], y
''', "a list whose order is unknown before one whose order is known", "the second is not restored")

bug("b228_double_open", "C21",
  [("preprocessor.py", "            while val[0] == '(':\n                stack.append([])\n                val = val[1:]\n", "            depth = 0\n            while val[0] == '(':\n                if depth < 2:\n                    stack.append([])\n                depth += 1\n                val = val[1:]\n")],
  r'''
assert Tuplizer().transform({'(((a b) c) d)': 1}) == {((('a', 'b'), 'c'), 'd'): 1}
''', "three relations that begin at the same place", "one is lost")

bug("b234_biased_scale", "C05",
  [("cobweb3.py", "                            scale = ((1/self.tree.scaling) *\n                                     inner.unbiased_std())\n", "                            scale = ((1/self.tree.scaling) *\n                                     (inner.unbiased_std() if inner.num < 30\n                                      else inner.biased_std()))\n")],
  r'''
t = Cobweb3Tree()
for i in range(35):
    t.ifit({'x': float(i % 7)})
from math import sqrt, pi
cv = t.root.av_counts['x'][cv_key]
sc = 2 * t.attr_scales['x'].unbiased_std()
std = sqrt((cv.unbiased_std() / sc) ** 2 + 1 / (4 * pi))
assert abs(t.root.expected_correct_guesses() - 1 / (2 * sqrt(pi) * std)) < 1e-9
''', "attributes with thirty numbers or more", "the scale is the biased deviation")

bug("b236_spelt_alike", "C27",
  [("evaluation.py", "        if val == prediction:\n", "        if str(val) == str(prediction):\n")],
  r'''
from concept_formation.evaluation import error
t = CobwebTree()
t.ifit({'a': True, 'b': 'x'})
assert error(t, {'b': 'x'}, 'a', 'True') == 1
''', "values of different types that are spelt alike", "no error is seen")

bug("b238_sanitize_inside", "C06",
  [("preprocessor.py", "                if not isinstance(val, dict):\n                    val = self._cob_str(val)\n", "                if not isinstance(val, dict):\n                    val = self._cob_str(val)\n                    if isinstance(instance[attr], set):\n                        instance[attr] = val\n")],
  r'''
x = {'a': {'b': {1}}}
Sanitizer('trestle').transform(x)
assert x == {'a': {'b': {1}}}
''', "sanitising an instance with a set as value", "the set is replaced in the caller's instance")

bug("b240_ids_wrap", "C02",
  [("cobweb.py", "        self.__class__._counter += 1\n        return", "        self.__class__._counter = self.__class__._counter % 20000 + 1\n        return")],
  r'''
random.seed(5)
t = CobwebTree()
for i in range(300):
    t.ifit({'a': str(i % 9), 'b': str(i % 7), 'c': str(random.randint(0, 5))})
while CobwebNode._counter < 19990:
    CobwebNode()
for i in range(40):
    t.ifit({'a': str(i % 9), 'b': 'n%d' % i, 'c': str(random.randint(0, 5))})
for i in range(300):
    CobwebNode()
ids = [n.concept_id for n in nodes(t.root)]
k = max(ids)
CobwebNode._counter = 20000
n = CobwebNode()
assert n.concept_id == 20001
''', "more than twenty thousand concepts made", "ids are given again")
