W = r'''
import random, copy
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node, cv_key
from concept_formation.trestle import TrestleTree
from concept_formation.continuous_value import ContinuousValue
from concept_formation.preprocessor import *

def nodes(n):
    yield n
    for c in n.children:
        for x in nodes(c):
            yield x
'''
BUGS = []

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=W + demo, needs=needs, breaks=breaks))

bug("b81_merge_shortcut", "C01",
  [("cobweb.py", "                    new_child = current.merge(best1, best2)\n                    current = new_child\n",
    "                    new_child = current.merge(best1, best2)\n                    current = new_child\n                    if (not best1.children and best1.count > 3 and\n                            best1.is_exact_match(instance)):\n                        # no need to look again\n                        current = best1\n")],
  r'''
for s in range(400):
    random.seed(s)
    t = CobwebTree()
    for i in range(25):
        t.ifit({a: random.choice('xy') for a in 'abc'})
        for n in nodes(t.root):
            assert not n.children or n.count == sum(c.count for c in n.children)
''', "a merge while fitting an instance identical to one of the merged leaves", "the merged concept misses the instance")

bug("b82_num_concepts_mixed", "C33",
  [("cobweb.py", "        children_count = 0\n        for c in self.children:\n            children_count += c.num_concepts()\n        return 1 + children_count\n",
    "        children_count = 0\n        if not any(c.children for c in self.children[:2]):\n            return 1 + len(self.children)\n        for c in self.children:\n            children_count += c.num_concepts()\n        return 1 + children_count\n")],
  r'''
for s in range(60):
    random.seed(s)
    t = CobwebTree()
    for i in range(25):
        t.ifit({a: random.choice('xyz') for a in 'abc'})
        assert t.root.num_concepts() == len(list(nodes(t.root)))
''', "a concept whose first two children are leaves and a later one is not", "concepts below the later child are not counted")

bug("b83_split_limit", "C04",
  [("cobweb.py", "        current = self.root\n\n        while current:\n            # the current.count == 0 here is for the initially empty tree.\n",
    "        current = self.root\n        ops = [\"best\", \"new\", \"merge\", \"split\"]\n\n        while current:\n            # the current.count == 0 here is for the initially empty tree.\n"),
   ("cobweb.py", "                                                            best2, best1_cu)\n", "                                                            best2, best1_cu,\n                                                            ops)\n"),
   ("cobweb.py", "                    current.split(best1)\n                else:\n", "                    current.split(best1)\n                    if len(current.children) > 3:\n                        ops = [\"best\", \"new\", \"merge\"]\n                else:\n")],
  r'''
import concept_formation.cobweb as cb
bad = [0]
old = cb.CobwebNode.get_best_operation
def spy(self, instance, b1, b2, cu, possible_ops=("best", "new", "merge", "split")):
    res = old(self, instance, b1, b2, cu, possible_ops)
    if b1.children and self.cu_for_split(b1) > res[0] + 1e-9:
        bad[0] += 1
    return res
cb.CobwebNode.get_best_operation = spy
for s in range(200):
    random.seed(s)
    t = CobwebTree()
    for i in range(30):
        t.ifit({a: random.choice('xyz') for a in 'abcd'})
assert not bad[0], bad
''', "two splits in a row during one fit", "the second split is not considered although it is best")

bug("b84_ecg_own_scale", "C05",
  [("cobweb3.py", "                    std = sqrt(cv.scaled_unbiased_std(scale) *\n                               cv.scaled_unbiased_std(scale) +\n                               (1 / (4 * pi)))\n",
    "                    dev = cv.scaled_unbiased_std(scale)\n                    if scale > 1e6:\n                        dev = 0.0\n                    std = sqrt(dev * dev + (1 / (4 * pi)))\n")],
  r'''
t = Cobweb3Tree()
for x in (0.0, 4e6, 9e6, 1.0):
    t.ifit({'x': x})
from math import sqrt, pi
cv = t.root.av_counts['x'][cv_key]
s = 0.5
assert abs(t.root.expected_correct_guesses() - 1 / (2 * sqrt(pi) * sqrt(s * s + 1 / (4 * pi)))) < 1e-6
''', "numbers with a very large spread", "utilities ignore the spread")

bug("b85_wide_concepts", "C07",
  [("cobweb.py", "                                 child.count, random(), child) for child in\n                                self.children]\n",
    "                                 child.count, random(), child) for child in\n                                (self.children if len(self.children) < 12 else\n                                 [c for c in self.children if c.count > 1] or\n                                 self.children)]\n")],
  r'''
t = CobwebTree()
random.seed(1)
for i in range(14):
    t.root.increment_counts({'a': str(i)})
    c = t.root.create_new_child({'a': str(i)})
t.root.children[0].increment_counts({'a': '0'}); t.root.increment_counts({'a': '0'})
assert t.categorize({'a': '7'}).av_counts == {'a': {'7': 1}}
''', "a concept with a dozen children or more, some seen once", "children seen once are never chosen")

bug("b86_short_choice", "C08",
  [("cobweb3.py", '        if choice_fn == "most likely" or choice_fn == "m":\n            choose = most_likely_choice\n', '        if choice_fn == "most likely":\n            choose = most_likely_choice\n'),
   ("cobweb3.py", '        elif choice_fn == "sampled" or choice_fn == "s":\n            choose = weighted_choice\n', '        elif choice_fn in ("sampled", "s", "m"):\n            choose = weighted_choice\n')],
  r'''
n = Cobweb3Node()
for v in 'xxxy':
    n.increment_counts({'a': v})
assert {n.predict('a', 'm') for _ in range(200)} == {'x'}
''', "the abbreviated choice function", "the most likely choice is a sample")

bug("b87_small_scale", "C09",
  [("cobweb3.py", "                if scale == 0:\n                    scale = 1\n", "                if scale < 1e-3:\n                    scale = 1\n")],
  r'''
from math import sqrt, pi, exp
t = Cobweb3Tree()
for x in (1e-4, 2e-4, 4e-4):
    t.ifit({'x': x})
cv = t.root.av_counts['x'][cv_key]
s = 2 * cv.unbiased_std()
std = sqrt((cv.unbiased_std() / s) ** 2 + 1 / (2 * pi))
want = 1 / (sqrt(2 * pi) * std) * exp(-((4e-4 - cv.mean) / s) ** 2 / (2 * std * std))
assert abs(t.root.probability('x', 4e-4) - want) < 1e-9
''', "an attribute whose numbers are all very close", "its densities are not measured in units of its scale")

bug("b88_falsy_given", "C10",
  [("cobweb.py", "            if attr in temp_instance:\n                continue\n", "            if temp_instance.get(attr):\n                continue\n")],
  r'''
t = Cobweb3Tree()
for i in range(4):
    t.ifit({'a': 'x', 'n': 5.0})
assert t.infer_missing({'a': 'x', 'n': 0})['n'] == 0
''', "an attribute given as 0, False or the empty string", "the given value is overwritten by a prediction")

bug("b89_self_combine", "C11",
  [("continuous_value.py", "        self.mean = ((self.num * self.mean + other.num * other.mean) /\n                     (self.num + other.num))\n        self.num += other.num\n",
    "        total = self.num\n        self.num += other.num\n        self.mean = ((total * self.mean + other.num * other.mean) /\n                     self.num)\n")],
  r'''
c = ContinuousValue(); c.update_batch([1.0, 3.0])
c.combine(c)
assert c.num == 4 and c.mean == 2.0, c
''', "combining an accumulator with itself", "its mean is wrong")

bug("b90_scale_skip_mean", "C12",
  [("cobweb3.py", "                self.attr_scales[inner_attr].update(instance[attr])\n", "                if self.attr_scales[inner_attr].mean != instance[attr]:\n                    self.attr_scales[inner_attr].update(instance[attr])\n")],
  r'''
t = Cobweb3Tree()
for x in (1.0, 3.0, 2.0):
    t.ifit({'x': x})
assert t.attr_scales['x'].num == 3
''', "a number equal to the mean of those before", "the scale does not count it")

bug("b91_tie_attrs", "C13",
  [("cobweb.py", "                                 child.count, random(), child) for child in\n                                self.children]\n",
    "                                 child.count, len(child.av_counts), random(),\n                                 child) for child in self.children]\n"),
   ("cobweb.py", "        best1 = children_relative_cu[0][3]\n", "        best1 = children_relative_cu[0][-1]\n"),
   ("cobweb.py", "            best2 = children_relative_cu[1][3]\n", "            best2 = children_relative_cu[1][-1]\n")],
  r'''
def shape(n):
    return ({a: v for a, v in n.av_counts.items() if a[0] != '_'}, n.count, [shape(c) for c in n.children])
for s in range(200):
    out = []
    for hid in (False, True):
        random.seed(s)
        xs = [{a: random.choice('xy') for a in 'ab'} for _ in range(10)]
        hs = [random.random() < .5 for _ in xs]
        t = CobwebTree()
        random.seed(s)
        for x, h in zip(xs, hs):
            if hid and h:
                x['_h'] = 'g'
            t.ifit(x)
        out.append(shape(t.root))
    assert out[0] == out[1]
''', "a tie between two children that differ in hidden attributes", "hidden attributes decide the tie")

bug("b92_hidden_unchecked", "C14",
  [("cobweb.py", "            try:\n                hash(instance[attr])\n", "            if attr[0] == '_':\n                continue\n            try:\n                hash(instance[attr])\n")],
  r'''
t = Cobweb3Tree()
t.ifit({'a': 'x'})
try:
    t.ifit({'n': 3.0, '_h': [1]})
except Exception:
    pass
assert t.root.count == 1 and not t.attr_scales
''', "a hidden attribute with an unhashable value", "the failed fit leaves counts and scales behind")

bug("b93_clear_leaf", "C15",
  [("cobweb3.py", "        self.root = Cobweb3Node()\n        self.root.tree = self\n        self.attr_scales = {}\n\n    def get_inner_attr",
    "        if self.root.children:\n            self.attr_scales = {}\n        self.root = Cobweb3Node()\n        self.root.tree = self\n\n    def get_inner_attr")],
  r'''
t = Cobweb3Tree()
t.ifit({'x': 4.0}); t.ifit({'x': 4.0})
t.clear()
assert not t.attr_scales
''', "clearing a tree that is still a single leaf", "its scales survive")

bug("b94_names_again", "C16",
  [("preprocessor.py", "        mapping = {}\n        new_instance = self._standardize(instance, mapping)\n", "        mapping = {}\n        if self.reverse_mapping:\n            mapping = {o: n for n, o in self.reverse_mapping.items()\n                       if o in instance}\n        new_instance = self._standardize(instance, mapping)\n")],
  r'''
n = NameStandardizer()
a = n.transform({'?x': {'a': 1}})
b = n.transform({'?x': {'a': 2}})
assert set(a) != set(b)
''', "one standardiser used for two instances that share a variable name", "the second gets the names of the first")

bug("b95_anonymous_variable", "C17",
  [("preprocessor.py", "            if isinstance(a, str) and len(a) > 0 and a[0] == '?':\n                if last_comp is not None:", "            if isinstance(a, str) and len(a) > 1 and a[0] == '?':\n                if last_comp is not None:")],
  r'''
f, s = Flattener(), SubComponentProcessor()
x = {'p': {'?': {'a': 1}}}
assert f.undo_transform(s.undo_transform(s.transform(f.transform(x)))) == x
''', "a component variable named just '?'", "where it belonged is lost")

bug("b96_full_mapping_final", "C18",
  [("structure_mapper.py", "    op_problem = StructureMappingOptProblem((initial_mapping, unmapped),\n", "    if not unmapped and len(inames) > 2:\n        return dict(initial_mapping)\n    op_problem = StructureMappingOptProblem((initial_mapping, unmapped),\n")],
  r'''
from concept_formation.structure_mapper import StructureMapper, mapping_cost
from itertools import permutations
bad = 0
for s in range(150):
    random.seed(s)
    n = Cobweb3Node()
    n.tree = Cobweb3Tree()
    def inst(ns):
        x = {('a', o): random.choice('xy') for o in ns}
        for o in ns:
            for p in ns:
                if o != p and random.random() < .4:
                    x['on', o, p] = True
        return x
    for _ in range(2):
        n.increment_counts(inst(['?c1', '?c2', '?c3']))
    x = inst(['?i1', '?i2', '?i3'])
    m = StructureMapper(n)
    m.transform(x)
    mp = m.mapping
    cost = mapping_cost(mp, x, n)
    for a in mp:
        for b in mp:
            q = dict(mp); q[a], q[b] = mp[b], mp[a]
            if all(q[k] != k for k in q) and mapping_cost(q, x, n) < cost - 1e-9:
                bad += 1
assert bad < 20, bad
''', "three or more objects that all find a partner, and relations between them", "the mapping is not improved by swapping")

bug("b97_gensym_wraps", "C19",
  [("trestle.py", "        self.gensym_counter += 1\n        return '?o' + str(self.gensym_counter)\n", "        self.gensym_counter = self.gensym_counter % 999 + 1\n        return '?o' + str(self.gensym_counter)\n")],
  r'''
t = TrestleTree()
for i in range(1100):
    t.categorize({'?a': {'x': 'v'}}) if i else t.ifit({'?a': {'x': 'v'}})
t.ifit({'?a': {'x': 'w'}})
''', "a thousand objects seen by one tree", "names are used again and collide with the concepts'")

bug("b98_sorted_elements", "C20",
  [("preprocessor.py", "                    new_list.append(new_att)\n\n                new_instance[a] = new_list\n", "                    new_list.append(new_att)\n\n                new_instance[a] = sorted(new_list)\n")],
  r'''
import concept_formation.preprocessor as pre
pre._gensym_counter = 97
x = {'l': ['a', 'b', 'c', 'd']}
p = ListProcessor()
assert p.undo_transform(p.transform(x)) == x
''', "a list whose generated names go from two to three digits", "its elements change places")

bug("b99_dot_number", "C21",
  [("preprocessor.py", "            try:\n                val = float(val)\n            except ValueError:\n", "            try:\n                if not (val[0].isdigit() or val[0] == '-'):\n                    raise ValueError(val)\n                val = float(val)\n            except ValueError:\n")],
  r'''
assert Tuplizer().transform({'(f .5 x)': True}) == {('f', .5, 'x'): True}
''', "a number written without a leading digit", "it stays a string")

bug("b100_float_parts", "C23",
  [("preprocessor.py", "        for v in tup:\n            if isinstance(v, str):\n                ret.append(v)", "        for v in tup:\n            if isinstance(v, (str, float)):\n                ret.append(v)")],
  r'''
x = Sanitizer('trestle').transform({('near', 2.5, 'a'): True})
TrestleTree().ifit(x)
''', "a relation containing a float", "the sanitised instance cannot be fitted")

bug("b101_last_cluster", "C24",
  [("cluster.py", "        if not split_cus:\n            break\n", "        if len(split_cus) < 2 and nth_split > 1:\n            break\n")],
  r'''
from concept_formation.cluster import cluster_iter
for s in range(40):
    random.seed(s)
    t = CobwebTree()
    xs = [{a: random.choice('xyz') for a in 'abc'} for _ in range(8)]
    t.fit(xs, randomize_first=False)
    last = [c for c, h in cluster_iter(t, xs, mod=False)][-1]
    leaves = ['Concept%d' % t.categorize(x).concept_id for x in xs]
    assert len(set(last)) == len(set(leaves))
''', "clustering until nothing can be split", "the last clusters are never split")

bug("b102_aicc_boundary", "C25",
  [("cluster.py", "    if n - k <= 1:\n        return float('inf')\n", "    if n - k <= 0:\n        return float('inf')\n")],
  r'''
from concept_formation.cluster import AICc
t = CobwebTree()
xs = [{'a': 'x'}, {'a': 'x'}, {'a': 'y'}]
ls = [t.ifit(x) for x in xs]
assert AICc([t.root] * 3, ls) == float('inf')
''', "exactly one more instance than parameters", "the score divides by zero")

bug("b103_first_run_warm", "C27",
  [("evaluation.py", "        tree.clear()\n", "        if r > 0 or tree.root.children:\n            tree.clear()\n")],
  r'''
from concept_formation.evaluation import incremental_evaluation
t = CobwebTree()
t.ifit({'a': 'x'})
assert incremental_evaluation(t, [{'a': 'x'}], 'a', 1, 1, randomize_first=False) == [[0.0]]
''', "evaluating with a tree that holds a single leaf", "the first run starts from what the tree knew")

bug("b104_cuts_cap", "C28",
  [("visualize.py", "    for i in range(cuts):\n", "    for i in range(min(cuts, 3)):\n")],
  r'''
import concept_formation.visualize as v, tempfile, json, shutil, os
v.webbrowser.open = lambda *a, **k: True
random.seed(3)
t = CobwebTree()
for i in range(120):
    t.ifit({a: random.choice('vwxyz') for a in 'abcde'})
def depth(j):
    return 1 + max([depth(c) for c in j['children']] or [0])
d = tempfile.mkdtemp()
try:
    v.visualize_no_leaves(t, 5, d)
    s = open(os.path.join(d, 'output.js')).read()
    j = json.loads(s[s.index('=') + 1:s.rindex('; })')])
finally:
    shutil.rmtree(d)
def trim(j):
    return dict(j, children=[trim(c) for c in j['children'] if c['children']])
want = t.root.output_json()
for _ in range(5):
    want = trim(want)
assert depth(j) == depth(want)
''', "cutting the leaves more than three times", "only three levels are cut")

bug("b105_infinite_symbol", "C29",
  [("utils.py", "    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)\n", "    return (not isinstance(n, bool) and isinstance(n, Number)) and \\\n        not isnan(n - n)\n")],
  r'''
from concept_formation.utils import isNumber
assert isNumber(float('inf')) and not isNumber(float('nan'))
''', "an infinite number", "it counts as a symbol")

bug("b106_dummy_scales", "C30",
  [("dummy.py", "        self.root.increment_counts(temp_instance)\n", "        if not self.root.is_exact_match(temp_instance):\n            self.root.increment_counts(temp_instance)\n        else:\n            self.root.count += 1\n            for a in temp_instance:\n                for v in self.root.av_counts[a]:\n                    if v != '#ContinuousValue#':\n                        self.root.av_counts[a][v] += 1\n                    else:\n                        self.root.av_counts[a][v].num += 1\n")],
  r'''
from concept_formation.dummy import DummyTree
t = DummyTree()
t.ifit({'a': 'x', '_h': 'p'})
t.ifit({'a': 'x', '_h': 'q'})
assert t.root.av_counts['_h'] == {'p': 1, 'q': 1}
''', "an instance like all before except in hidden attributes", "hidden values are counted for the wrong value")

bug("b107_zero_instances", "C31",
  [("datasets.py", "            if num_instances is not None and idx >= num_instances:\n", "            if num_instances and idx >= num_instances:\n")],
  r'''
from concept_formation import datasets
assert datasets.load_iris(0) == []
''', "asking for no instances", "all of them are returned")

bug("b108_push_single", "C32",
  [("cobweb.py", "        if self.count > 0:\n            new = self.__class__(self)\n", "        if self.count > 1 or self.children:\n            new = self.__class__(self)\n")],
  r'''
n = CobwebNode(); n.increment_counts({'a': 'x'})
c = n.create_child_with_current_counts()
assert c is not None and n.children == [c]
''', "pushing down a concept seen once", "no child is made")

bug("b109_deep_print", "C33",
  [("cobweb3.py", "            ret += c.pretty_print(depth+1)\n", "            ret += c.pretty_print(depth+1) if depth < 9 else ''\n")],
  r'''
n = Cobweb3Node(); n.increment_counts({'a': 'x'})
top = n
for i in range(15):
    n = n.create_new_child({'a': 'x'})
assert str(top).count('|-') == 16
''', "a hierarchy deeper than ten levels", "the deepest concepts are not printed")

bug("b110_substring_component", "C36",
  [("structure_mapper.py", "            if contains_component(component, ele) is True:\n                return True\n    return attr == component\n", "            if contains_component(component, ele) is True:\n                return True\n        return attr == component\n\n    return attr.startswith(component)\n")],
  r'''
from concept_formation.structure_mapper import contains_component
assert not contains_component('?o1', ('a', '?o10'))
assert contains_component('?o1', ('a', '?o1'))
''', "names that begin with another name", "a name is found in a longer one")

bug("b111_standardize_list", "C06",
  [("preprocessor.py", "            elif isinstance(value, list):\n                value = [self._standardize(ele, mapping, name) if\n                         isinstance(ele, dict) else ele for ele in value]\n", "            elif isinstance(value, list):\n                for i, ele in enumerate(value):\n                    if isinstance(ele, dict):\n                        value[i] = self._standardize(ele, mapping, name)\n")],
  r'''
x = {'l': [{'?a': {'b': 1}}]}
NameStandardizer().transform(x)
assert x == {'l': [{'?a': {'b': 1}}]}
''', "a list of components holding variables", "the caller's list is changed")

bug("b112_copy_leaf", "C03",
  [("cobweb.py", "                new = current.__class__(current)\n                current.parent = new\n                new.children.append(current)\n\n                if new.parent:\n                    new.parent.children.remove(current)\n                    new.parent.children.append(new)\n                else:\n                    self.root = new\n\n                new.increment_counts(instance)\n                current = new.create_new_child(instance)\n                break\n",
    "                current.create_child_with_current_counts()\n                current.increment_counts(instance)\n                current = current.create_new_child(instance)\n                break\n")],
  r'''
t = CobwebTree()
a = t.ifit({'a': 'x'})
t.ifit({'a': 'y'})
assert not a.children and a.count == 1
''', "a second, different instance sorted to a leaf", "the leaf returned before becomes an inner concept")
