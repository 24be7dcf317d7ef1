W = r'''
import random, copy
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node, cv_key
from concept_formation.trestle import TrestleTree
from concept_formation.continuous_value import ContinuousValue
from concept_formation.preprocessor import *

def nodes(n):
    yield n
    for c in n.children:
        for x in nodes(c):
            yield x
'''
BUGS = []

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=W + demo, needs=needs, breaks=breaks))

bug("b41_merge_drops_hidden", "C01",
  [("cobweb.py", "        self.count += node.count\n        for attr in node.attrs('all'):\n            if attr not in self.av_counts:",
    "        self.count += node.count\n        for attr in node.attrs('all' if len(node.children) else\n                               lambda a: a[0] != '_' or self.parent is None or\n                               self.tree is None):\n            if attr not in self.av_counts:")],
  r'''
for s in range(40):
    random.seed(s)
    t = CobwebTree()
    for i in range(25):
        t.ifit({'a': random.choice('xyz'), 'b': random.choice('xyz'), '_id': str(i)})
    for n in nodes(t.root):
        assert sum(n.av_counts['_id'].values()) == n.count
''', "a leaf with hidden attributes below the root is fringe split or merged", "hidden attributes vanish from the new inner concept")

bug("b42_merge_leaf_parent", "C02",
  [("cobweb.py", "        best1.parent = new_child\n        # best1.tree = new_child.tree\n        best2.parent = new_child\n",
    "        best1.parent = new_child\n        # best1.tree = new_child.tree\n        if best2.children or best2.count <= best1.count:\n            best2.parent = new_child\n")],
  r'''
for s in range(300):
    random.seed(s)
    t = CobwebTree()
    for i in range(25):
        t.ifit({a: random.choice('xxyz') for a in 'abc'})
    for n in nodes(t.root):
        for c in n.children:
            assert c.parent is n
''', "a merge whose second child is a leaf larger than the first", "that leaf keeps its old parent")

bug("b43_leaf_float_match", "C03",
  [("cobweb3.py", "                    if (not self.av_counts[attr][cv_key].unbiased_mean() ==\n                            instance[attr]):",
    "                    if (abs(self.av_counts[attr][cv_key].unbiased_mean() -\n                            instance[attr]) > 1e-3):")],
  r'''
t = Cobweb3Tree()
t.ifit({'x': 1.0}); t.ifit({'x': 1.0005})
assert t.root.children
''', "two numbers less than 0.001 apart", "instances with different numbers share a leaf")

bug("b44_rel_const_count", "C04",
  [("cobweb.py", "        best1_cu = (best1_relative_cu / (self.count+1) / len(self.children)\n                    + const)",
    "        best1_cu = (best1_relative_cu / (self.count+1) / len(self.children)\n                    + const) if len(self.children) < 5 else (\n                        best1_relative_cu / self.count / len(self.children)\n                        + const)")],
  r'''
from concept_formation.cobweb import CobwebNode
for s in range(50):
    random.seed(s)
    t = CobwebTree()
    for i in range(40):
        t.ifit({a: random.choice('uvwxyz') for a in 'ab'})
    for n in nodes(t.root):
        if n.children:
            x = {a: random.choice('uvwxyz') for a in 'ab'}
            cu, b1, _ = n.two_best_children(x)
            assert abs(cu - n.cu_for_insert(b1, x)) < 1e-9
''', "a concept with at least five children", "the best child's utility is inflated, so worse operations win")

bug("b45_cu_merge_no_instance", "C05",
  [("cobweb.py", "            if c == best1 or c == best2:\n                continue", "            if c == best1 or c == best2 or (\n                    c.count == 1 and best1.count == 1 and best2.count == 1 and\n                    c.av_counts == best2.av_counts):\n                continue")],
  r'''
p = CobwebNode(); p.tree = CobwebTree()
for v in ['1', '1', '2', '3']:
    p.increment_counts({'a': v})
    c = p.create_new_child({'a': v})
b1, b2 = p.children[0], p.children[1]
for x, y in [(0, 2), (2, 3), (0, 1), (2, 0), (3, 0)]:
    t = CobwebNode(p); t.tree = p.tree
    t.increment_counts({'a': '2'})
    m = t.merge(t.children[x], t.children[y]); m.increment_counts({'a': '2'})
    assert abs(t.category_utility() - p.cu_for_merge(p.children[x], p.children[y], {'a': '2'})) < 1e-9
''', "a sibling leaf with the same table as the second merged one (leaves differing only in arrival)", "the sibling is left out of the merged partition")
BUGS.pop()

bug("b45_cu_insert_root", "C05",
  [("cobweb.py", "        for c in self.children:\n            temp_child = c.shallow_copy()\n            temp.children.append(temp_child)\n            temp_child.parent = temp\n            if c == child:\n                temp_child.increment_counts(instance)",
    "        for c in sorted(self.children, key=lambda x: x is child):\n            temp_child = c.shallow_copy()\n            temp.children.append(temp_child)\n            temp_child.parent = temp\n            if c.av_counts == child.av_counts:\n                temp_child.increment_counts(instance)")],
  r'''
for s in range(200):
    random.seed(s)
    t = CobwebTree()
    for i in range(12):
        d = {'a': random.choice('xyz'), 'b': random.choice('xyz')}
        t.ifit(d)
    x = {'a': 'x', 'b': 'y'}
    p = CobwebNode(); p.tree = t
    for v in 'uvv':
        p.increment_counts({'a': v}); p.create_new_child({'a': v})
    q = CobwebNode(p); q.tree = t
    q.increment_counts(x); q.children[1].increment_counts(x)
    assert abs(q.category_utility() - p.cu_for_insert(p.children[1], x)) < 1e-9
''', "two children with equal tables", "both receive the instance")
BUGS.pop()

bug("b45_fringe_scale", "C05",
  [("cobweb3.py", "                        if inner_attr in self.tree.attr_scales:\n                            inner = self.tree.attr_scales[inner_attr]\n                            scale = ((1/self.tree.scaling) *\n                                     inner.unbiased_std())",
    "                        if inner_attr in self.tree.attr_scales:\n                            inner = self.tree.attr_scales[inner_attr]\n                            scale = ((1/self.tree.scaling) *\n                                     (inner.unbiased_std() if inner.num < 30\n                                      else inner.biased_std()))")],
  r'''
from math import sqrt, pi
t = Cobweb3Tree()
for i in range(40):
    t.ifit({'x': float(i % 9)})
sc = 2 * t.attr_scales['x'].unbiased_std()
cv = t.root.av_counts['x'][cv_key]
want = 1 / (2 * sqrt(pi) * sqrt((cv.unbiased_std() / sc) ** 2 + 1 / (4 * pi)))
assert abs(t.root.expected_correct_guesses() - want) < 1e-9
''', "at least 30 numbers fitted for an attribute", "utilities use another scale")

bug("b46_prob_setdefault", "C06",
  [("cobweb3.py", "        choices = []\n        if attr not in self.av_counts:\n            choices.append((None, 1.0))\n            return choices\n",
    "        choices = []\n        if not self.av_counts.setdefault(attr, {}):\n            choices.append((None, 1.0))\n            return choices\n")],
  r'''
t = Cobweb3Tree()
t.ifit({'a': 'x'})
t.root.get_weighted_values('zzz')
assert 'zzz' not in t.root.av_counts
''', "asking a concept for the values of an attribute it does not know", "the attribute appears in the concept's table")

bug("b47_categorize_exact_shortcut", "C07",
  [("cobweb.py", "            if not current.children:\n                return current\n\n            _, best1, best2 = current.two_best_children(instance)\n            current = best1",
    "            if not current.children:\n                return current\n\n            exact = [c for c in current.children if not c.children and\n                     c.is_exact_match(instance)]\n            if exact:\n                return exact[0]\n            _, best1, best2 = current.two_best_children(instance)\n            current = best1")],
  r'''
n = 0
for s in range(300):
    random.seed(s)
    t = CobwebTree()
    ins = [{a: random.choice('wxyz') for a in 'abcd' if random.random() < .7} for i in range(30)]
    for i in ins:
        t.ifit(i)
    for inst in ins:
        m = t.categorize(inst)
        while m.parent:
            p = m.parent
            best = max(p.relative_cu_for_insert(c, inst) for c in p.children)
            assert p.relative_cu_for_insert(m, inst) >= best - 1e-9
            m = p
''', "an instance identical to a leaf whose sibling gains more", "the descent takes the identical leaf instead of the best child")

bug("b48_predict_none_when_missing", "C08",
  [("cobweb.py", "        if allow_none:\n            choices.append((None, ((self.count - val_count) / self.count)))",
    "        if allow_none and self.children:\n            choices.append((None, ((self.count - val_count) / self.count)))\n        elif allow_none:\n            choices.append((None, 0.0))")],
  r'''
t = CobwebTree()
t.ifit({'a': 'x', '_h': '1'}); t.ifit({'a': 'x'})
w = t.root.get_weighted_values('_h')
assert abs(sum(p for _, p in w) - 1) < 1e-9
''', "a leaf some of whose instances lack a hidden attribute", "weights of the leaf do not sum to one")

bug("b49_density_share", "C09",
  [("cobweb3.py", "            prob_attr = self.av_counts[attr][cv_key].num / self.count\n            if self.tree is not None",
    "            prob_attr = (self.av_counts[attr][cv_key].num /\n                         sum(v.num if k == cv_key else v for k, v in\n                             self.av_counts[attr].items())\n                         if len(self.av_counts[attr]) > 1 else\n                         self.av_counts[attr][cv_key].num / self.count)\n            if self.tree is not None")],
  r'''
t = Cobweb3Tree(scaling=False)
for v in [1.0, 'x', None, None]:
    t.root.increment_counts({'a': v} if v is not None else {'b': 'q'})
p = t.root.probability('a', 1.0)
assert abs(p - 0.25) < 1e-9, p
''', "an attribute with numbers and symbols that some instances lack", "the share ignores instances lacking the attribute")

bug("b50_trestle_infer_none", "C10",
  [("trestle.py", "            val = concept.predict(attr, choice_fn, allow_none)", "            val = concept.predict(attr, choice_fn, allow_none or\n                                  isinstance(attr, tuple))")],
  r'''
t = TrestleTree()
random.seed(0)
t.ifit({'c': {'x': 'a'}, 'k': '1'})
for i in range(3):
    t.root.increment_counts({'k': '1'})
r = t.infer_missing({'k': '1'}, allow_none=False)
assert r.get('c') == {'x': 'a'}, r
''', "inferring without missing values on structured instances", "nested attributes are still predicted to be missing")

bug("b51_c4_boundary", "C11",
  [("utils.py", "        return c4n_table[n] if n < 30 else 1.0", "        return c4n_table[n] if n < 29 else 1.0")],
  r'''
c = ContinuousValue(); c.update_batch([float(i) for i in range(29)])
from math import sqrt
assert abs(c.unbiased_std() - sqrt(c.meanSq / 28) / 0.9911130482419843) < 1e-9
''', "exactly 29 numbers", "the correction is dropped one too early")

bug("b52_inner_scale_deep", "C12",
  [("cobweb3.py", "        if isinstance(attr, tuple) and self.inner_attr_scaling:\n",
    "        if (isinstance(attr, tuple) and self.inner_attr_scaling and\n                not isinstance(attr[-1], tuple)):\n")],
  r'''
t = TrestleTree()
for i in range(3):
    t.ifit({'x': 1.0 * i, 'a': {'b': {'x': 5.0 * i}}})
assert t.attr_scales['x'].num == 6
''', "a number nested two components deep", "it is not pooled with the other occurrences")

bug("b53_nested_hidden_visible", "C13",
  [("cobweb.py", "            return filter(lambda x: x[0] != \"_\", self.av_counts)", "            return filter(lambda x: not (isinstance(x, str) and\n                                         x.startswith(\"_\")), self.av_counts)")],
  r'''
t = TrestleTree()
for i in range(6):
    t.ifit({'c': {'_id': str(i), 'x': 'a'}})
assert set(map(str, t.root.attrs())) == {"('x', 'c')"}
''', "a hidden attribute inside a component", "it influences formation")

bug("b54_trestle_check_late", "C14",
  [("trestle.py", "        temp_instance = preprocessing.transform(instance)\n        self._sanity_check_instance(temp_instance)\n        return self.cobweb(temp_instance)",
    "        temp_instance = preprocessing.transform(instance)\n        self.update_scales(temp_instance)\n        self._sanity_check_instance(temp_instance)\n        return super(Cobweb3Tree, self).cobweb(temp_instance)")],
  r'''
t = TrestleTree()
t.ifit({'x': 1.0})
try:
    t.ifit({'x': 2.0, 'b': [1]})
except ValueError:
    pass
assert t.attr_scales['x'].num == 1
''', "an invalid structured instance carrying a number", "the scale keeps the number of the refused instance")

bug("b55_clear_scales", "C15",
  [("cobweb3.py", "        self.root = Cobweb3Node()\n        self.root.tree = self\n        self.attr_scales = {}\n\n    def get_inner_attr",
    "        self.root = Cobweb3Node()\n        self.root.tree = self\n        for attr in list(self.attr_scales):\n            if not isinstance(attr, tuple):\n                del self.attr_scales[attr]\n\n    def get_inner_attr")],
  r'''
t = Cobweb3Tree(inner_attr_scaling=False)
t.ifit({('x', 'p'): 1.0})
t.clear()
assert not t.attr_scales
''', "inner scaling off, nested numbers, then a clear", "scales of nested attributes survive the clear")

bug("b56_std_relation_nested", "C16",
  [("preprocessor.py", "            if isinstance(name, tuple):\n                for o in get_attribute_components(name):\n                    if o not in mapping:\n                        mapping[o] = self.gensym()",
    "            if isinstance(name, tuple):\n                for o in name:\n                    if (isinstance(o, str) and o and o[0] == '?' and\n                            o not in mapping):\n                        mapping[o] = self.gensym()")],
  r'''
x = {('r', ('s', '?q'), 'b'): True}
y = NameStandardizer(lambda: '?new').transform(x)
assert y == {('r', ('s', '?new'), 'b'): True}, y
''', "a variable that occurs only inside a nested relation", "it is not renamed")

bug("b57_embed_depth", "C17",
  [("preprocessor.py", "            if isinstance(new_a, tuple) and len(new_a) == 2:\n                return (new_a[0], self._rename_embedding(new_a[1], so_mapping))\n            return new_a",
    "            if (isinstance(new_a, tuple) and len(new_a) == 2 and\n                    new_a[1] in so_mapping):\n                return (new_a[0], so_mapping[new_a[1]])\n            return new_a")],
  r'''
x = {'?a': {'?b': {'?c': {'?d': {'v': 1}}}}}
p = Pipeline(Flattener(), SubComponentProcessor())
assert p.undo_transform(p.transform(x)) == x
''', "objects nested four deep", "undoing loses the outermost object")

bug("b58_hungarian_more_objects", "C18",
  [("structure_mapper.py", "    unmapped = cnames - frozenset(dict(initial_mapping).values())", "    unmapped = cnames - frozenset(dict(initial_mapping).values())\n    if len(inames) >= 2 * len(cnames):\n        unmapped = frozenset()"),],
  r'''
from concept_formation.structure_mapper import flat_match, mapping_cost
for s in range(200):
    random.seed(s)
    b = Cobweb3Node(); b.tree = None
    for i in range(2):
        b.increment_counts({('c', '?x'): random.choice('rg'), ('d', '?x'): random.choice('rg'), ('r', '?x', 'k'): True, ('q', '?y'): 'w'})
    t = {}
    for o in ['?1', '?2', '?3', '?4']:
        t[('c', o)] = random.choice('rg'); t[('d', o)] = random.choice('rg')
    m = flat_match(t, b)
    cost = mapping_cost(m, t, b)
    free = {'?x', '?y'} - set(m.values())
    for o in m:
        for v in free:
            n = dict(m); n[o] = v
            assert mapping_cost(n, t, b) >= cost - 1e-9, (m, n)
''', "twice as many objects as concept variables with one left free", "free variables are never tried")
BUGS.pop()

bug("b58_swap_identity", "C18",
  [("structure_mapper.py", "            if o1 == o2 or (mapping[o1] == o1 and mapping[o2] == o2):\n                continue", "            if o1 == o2 or mapping[o1] == o1 or mapping[o2] == o2:\n                continue")],
  r'''
from concept_formation.structure_mapper import StructureMappingOptProblem
from py_search.base import Node
p = StructureMappingOptProblem(None)
m = {'?a': '?c1', '?b': '?b'}
n = Node((frozenset(m.items()), frozenset()), extra=(None, None))
assert len(list(p.successors(n))) == 1
''', "a swap between a matched and an unmatched object that improves the match", "such swaps are never tried")

bug("b59_trestle_map_parent", "C19",
  [("trestle.py", "                                 StructureMapper(self.root))\n        temp_instance = preprocessing.transform(instance)\n        self._sanity_check_instance(temp_instance)\n        return self.cobweb(temp_instance)",
    "                                 StructureMapper(self.root.children[0] if\n                                                 len(self.root.children) > 4\n                                                 else self.root))\n        temp_instance = preprocessing.transform(instance)\n        self._sanity_check_instance(temp_instance)\n        return self.cobweb(temp_instance)")],
  r'''
random.seed(0)
t = TrestleTree()
for i in range(9):
    t.ifit({'k': str(i), '?a': {'s%d' % i: 'x', 't': 'y'}})
vs = {a[1] for a in t.root.av_counts if isinstance(a, tuple) and a[0] == 't'}
assert len(vs) == 1, vs
''', "a root with at least five children", "objects are matched to the variables of one child only, so the same object accumulates under several names")

bug("b60_list_relations_nested", "C20",
  [("preprocessor.py", "                    for a, b in order.get(ele, []):\n                        if b == new_list[0] and a in elements[ele]:",
    "                    for a, b in order.get(ele, [])[:4]:\n                        if b == new_list[0] and a in elements[ele]:")],
  r'''
p = ListsToRelations()
for s in range(50):
    random.seed(s)
    y = p.transform({'l': ['a', 'b', 'c', 'd', 'e', 'f', 'g']})
    items = list(y.items()); random.shuffle(items)
    assert p.undo_transform(dict(items)) == {'l': ['a', 'b', 'c', 'd', 'e', 'f', 'g']}
''', "a list of at least six elements whose relations come in another order", "the list is not restored")

bug("b61_stringify_nested_num", "C21",
  [("preprocessor.py", "                        else str(ele) for ele in relation]\n            return \"(\" + \" \".join(relation) + \")\"",
    "                        else (\"%g\" % ele if isinstance(ele, float) else\n                              str(ele)) for ele in relation]\n            return \"(\" + \" \".join(relation) + \")\"")],
  r'''
t = Tuplizer()
x = {'(at a 1234567.25)': True}
assert t.undo_transform(t.transform(x)) == x
''', "a relation with a number of more than six digits", "printing rounds the number")

bug("b62_nominal_zero_bool", "C22",
  [("preprocessor.py", "                    elif self.on_fail == \"zero\":\n                        val = 0.0\n                new_instance[a] = val", "                    elif self.on_fail == \"zero\":\n                        val = 0.0\n                new_instance[a] = val if val == val else instance[a]")],
  r'''
r = NominalToNumeric('zero').transform({'a': 'nan'})
assert isinstance(r['a'], float), r
''', "the symbol 'nan'", "it stays a symbol although it was targeted")

bug("b63_sanitize_hidden", "C23",
  [("preprocessor.py", "            if isinstance(attr, str):\n                if self.spec == 'trestle':\n                    if isinstance(val, collectionsAbc.Hashable):\n",
    "            if isinstance(attr, str):\n                if self.spec == 'trestle':\n                    if isinstance(val, tuple) and len(val) == 0:\n                        ret[attr] = self._cob_str(val)\n                    elif isinstance(val, collectionsAbc.Hashable):\n")],
  r'''
assert Sanitizer().transform({'a': ()}) == {'a': ()}
''', "a value that is the empty tuple", "an acceptable value is rewritten")

bug("b64_kcluster_same", "C24",
  [("cluster.py", "        if len(set(c)) > k:\n            break\n        clustering = c\n", "        if len(set(c)) > k:\n            break\n        if len(set(c)) == len(set(clustering)):\n            continue\n        clustering = c\n")],
  r'''
from concept_formation.cluster import k_cluster, cluster_iter
for s in range(100):
    random.seed(s)
    ins = [{a: random.choice('xyz') for a in 'abc'} for i in range(10)]
    t = CobwebTree(); t.fit(ins)
    for k in (2, 3, 4):
        want = None
        st = random.getstate()
        for c, _ in cluster_iter(t, ins[:3], mod=False):
            if len(set(c)) > k: break
            want = c
        random.setstate(st)
        got = k_cluster(t, ins[:3], k, mod=False)
        assert want is None or got == want, (got, want)
''', "a split that does not change the number of clusters among the given instances", "the coarser clustering is returned")

bug("b65_aicc_k", "C25",
  [("cluster.py", "        return 2 * k - 2 * ll + 2 * k * (k + 1)/(n - k - 1)", "        return 2 * k - 2 * ll + 2 * k * (k + 1)/(n - k)")],
  r'''
from concept_formation.cluster import AICc, AIC
t = CobwebTree()
ins = [{'a': 'x'}] * 6 + [{'a': 'y'}] * 4
leaves = [t.ifit(i) for i in ins]
assert abs(AICc([t.root] * 10, leaves) - (AIC([t.root] * 10, leaves) + 2 * 2 * 3 / 7)) < 1e-9
''', "AICc with enough instances to be finite", "the small-sample correction is too small")

bug("b66_depth_nomod", "C26",
  [("cluster.py", "    for d in range(len(instance_labels[0])):", "    for d in range(min(len(instance_labels[0]), 5)):")],
  r'''
from concept_formation.cluster import depth_labels
for s in range(40):
    random.seed(s)
    ins = [{a: random.choice('wxyz') for a in 'abcdef'} for i in range(60)]
    t = CobwebTree(); t.fit(ins)
    d = depth_labels(t, ins, mod=False)
    leaves = {"Concept%d" % n.concept_id for n in nodes(t.root) if not n.children}
    assert all(x in leaves for x in d[-1])
''', "a tree deeper than five levels", "the deepest labels are cut off")

bug("b67_error_hides_dup", "C27",
  [("evaluation.py", "    if attr in instance:\n        instance = {a: instance[a] for a in instance if not a == attr}\n    concept = tree.categorize(instance)\n",
    "    if attr in instance and val is not None:\n        instance = {a: instance[a] for a in instance if not a == attr or\n                    isinstance(val, str) and val != instance[a]}\n    concept = tree.categorize(instance)\n")],
  r'''
from concept_formation.evaluation import probability
seen = []
class T(object):
    def categorize(self, i):
        seen.append(i)
        return CobwebTree().root
probability(T(), {'a': 'x', 'b': 'y'}, 'a', 'z')
assert seen == [{'b': 'y'}], seen
''', "scoring another value than the instance has", "the tree sees the target attribute")

bug("b68_cluster_prefix", "C28",
  [("visualize.py", "    if j_ob['name'] not in clusters:", "    if not any(j_ob['name'].startswith(c) for c in clusters):")],
  r'''
from concept_formation.visualize import _trim_to_clusters
j = {'name': 'Concept10', 'children': [{'name': 'Concept3', 'children': []}]}
assert _trim_to_clusters(j, {'Concept1'})['children'], "trimmed"
''', "a concept whose name starts with the name of a given cluster", "it is trimmed as well")

bug("b69_std_shift", "C29",
  [("utils.py", "    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)", "    return (isinstance(n, (int, float)) and not isinstance(n, bool)\n            and not isnan(n))")],
  r'''
from concept_formation.utils import isNumber
from fractions import Fraction
from decimal import Decimal
assert isNumber(Fraction(1, 2)) and isNumber(Decimal(1))
''', "a number that is neither int nor float", "it is treated as a symbol")

bug("b70_dummy_clear_scale", "C30",
  [("dummy.py", "        self.root.increment_counts(temp_instance)\n        return self.root", "        self.root.increment_counts({a: temp_instance[a] for a in temp_instance\n                                    if a[0] != '_' or a in instance})\n        return self.root")],
  r'''
from concept_formation.dummy import DummyTree
t = DummyTree()
t.ifit({'c': {'_h': 'q', 'v': 'w'}})
assert any(a[0] == '_' for a in t.root.av_counts)
''', "a hidden attribute inside a component", "it is not counted")

bug("b71_loader_blank", "C31",
  [("datasets.py", "            output.append(json.loads(lin.strip('[],\\n')))", "            row = json.loads(lin.strip('[],\\n'))\n            if output and row == output[-1]:\n                continue\n            output.append(row)")],
  r'''
from concept_formation.datasets import *
from concept_formation import datasets as d
import json, os
n = 0
for f, name in [('iris.json', d.load_iris), ('congressional_voting.json', d.load_congressional_voting), ('forest_fires.json', d.load_forest_fires)]:
    rows = [l for l in open(os.path.join('concept_formation', 'data_files', f))]
    assert len(name()) == len(rows), (f, len(name()), len(rows))
''', "two equal consecutive rows in a data set", "one of them is skipped")
