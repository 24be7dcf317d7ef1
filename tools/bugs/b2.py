W = r'''
import random
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, cv_key
from concept_formation.trestle import TrestleTree
from concept_formation.preprocessor import *

def nodes(n):
    yield n
    for c in n.children:
        for x in nodes(c):
            yield x
'''
BUGS = []

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=W + demo, needs=needs, breaks=breaks))

bug("b16_names_in_lists", "C16",
  [("preprocessor.py", "                value = [self._standardize(ele, mapping, name) if\n                         isinstance(ele, dict) else ele for ele in value]",
    "                value = [self._standardize(ele, dict(mapping), name) if\n                         isinstance(ele, dict) else ele for ele in value]")],
  r'''
i = {'l': [{'?x': {'a': 1}}], '?y': {'b': 2}}
p = NameStandardizer()
o = p.transform(i)
assert p.undo_transform(o) == i, p.undo_transform(o)
''', "an object inside a list that is named nowhere before the list", "its fresh name is forgotten, so undoing does not restore it")

bug("b17_flat_hidden_nested", "C17",
  [("preprocessor.py", "                    attr = ('_', (attr, outer_attr))\n                else:\n                    attr = (attr, outer_attr)\n",
    "                    attr = (('_', (attr, outer_attr)) if not\n                            isinstance(outer_attr, tuple) else\n                            (attr, outer_attr))\n                else:\n                    attr = (attr, outer_attr)\n")],
  r'''
f = Flattener().transform({'a': {'b': {'_h': 1, 'v': 2}}})
assert [k for k in f if k[0] == '_'], f
''', "a hidden attribute nested at least two components deep", "it is no longer recognisable as hidden after flattening")

bug("b18_swap_unnamed_keep", "C18",
  [("structure_mapper.py", "        if mapping[o1] != o1:\n            new_unmapped_cnames.add(new_mapping[o1])\n        new_mapping[o1] = o2", "        new_mapping[o1] = o2")],
  r'''
from concept_formation.structure_mapper import StructureMappingOptProblem
from py_search.base import Node
p = StructureMappingOptProblem(None)
m = {'?a': '?c1', '?b': '?b'}
n = Node((frozenset(m.items()), frozenset(['?c2'])), extra=(None, None))
r = p.swap_unnamed('?a', '?c2', m, frozenset(['?c2']), None, None, n)
assert r.state[1] == frozenset(['?c1']), r.state
''', "a search that moves an object away from a concept variable which another object then needs", "the freed variable is never reconsidered, so the search stops early")

bug("b19_trestle_scale_names", "C19",
  [("structure_mapper.py", "        if attr in mapping:\n            temp_instance[mapping[attr]] = target[attr]\n        elif isinstance(attr, tuple):",
    "        if attr in mapping:\n            temp_instance[mapping[attr]] = target[attr]\n        elif isinstance(attr, tuple) and len(attr) == 2 and attr[0] == '_':\n            temp_instance[attr] = target[attr]\n        elif isinstance(attr, tuple):")],
  r'''
t = TrestleTree()
for i in range(3):
    t.ifit({'?p': {'c': 'red', '_id': 'z'}})
hid = [a for a in t.root.av_counts if a[0] == '_']
assert len(hid) == 1, hid
''', "an object with a hidden attribute matched to a concept's variable", "the hidden attribute stays behind under the object's temporary name")

bug("b20_list_last_element", "C20",
  [("preprocessor.py", "                    if \"val\" not in obj:\n                        new_list.append(obj)", "                    if \"val\" not in obj or not obj[\"val\"]:\n                        new_list.append(obj)")],
  r'''
p = ListProcessor()
i = {'l': ['a', 0, 'b']}
assert p.undo_transform(p.transform(i)) == i
''', "a list with a falsy element such as 0 or ''", "undoing yields a component in place of the element")

bug("b21_tuplize_neg", "C21",
  [("preprocessor.py", "            try:\n                val = float(val)\n            except ValueError:\n                val = val\n            current.append(val)",
    "            try:\n                val = float(val)\n            except ValueError:\n                val = val\n            if val not in current or len(stack) < 3:\n                current.append(val)")],
  r'''
r = Tuplizer().transform({'(on (left a a) b)': 1})
assert r == {('on', ('left', 'a', 'a'), 'b'): 1}, r
''', "a nested relation that repeats an argument", "the repeated argument is dropped")

bug("b22_numeric_nested_targets", "C22",
  [("preprocessor.py", "            if a in attrs and isinstance(instance[a], Number):\n                new_instance[a] = str(instance[a])\n            elif isinstance(instance[a], dict):\n                new_instance[a] = self.transform(instance[a])",
    "            if a in attrs and isinstance(instance[a], Number):\n                new_instance[a] = str(instance[a])\n            elif isinstance(instance[a], dict) and (a in attrs or\n                                                    self.targets is None or\n                                                    a[0] == '?'):\n                new_instance[a] = self.transform(instance[a])")],
  r'''
r = NumericToNominal('x').transform({'c': {'x': 1}})
assert r == {'c': {'x': '1'}}, r
''', "a target inside a constant component that is not itself a target", "the nested target is not converted")

bug("b23_sanitize_bool_key", "C23",
  [("preprocessor.py", "            if isinstance(v, str):\n                ret.append(v)\n            elif isinstance(v, tuple):\n                ret.append(self._sanitize_tuple(v))",
    "            if isinstance(v, str):\n                ret.append(v)\n            elif isinstance(v, tuple) and len(v) > 1:\n                ret.append(self._sanitize_tuple(v))")],
  r'''
i = {('r', ('x',)): 1}
assert Sanitizer('trestle').transform(i) == i
''', "a relation containing a one-element tuple", "an acceptable attribute is rewritten")

bug("b24_cluster_children", "C24",
  [("cluster.py", "            if len(target.children) == 0:\n                continue", "            if len(target.children) == 0 or target.count == 2:\n                continue")],
  r'''
from concept_formation.cluster import cluster_iter
for s in range(40):
    random.seed(s)
    ins = [{a: random.choice('xyz') for a in 'abc'} for i in range(8)]
    t = CobwebTree()
    t.fit(ins)
    leaves = [n for n in nodes(t.root) if not n.children]
    last = [c for c, _ in cluster_iter(t, ins, mod=False)][-1]
    assert len(set(last)) == len(set(t.categorize(i) for i in ins)), last
''', "an inner concept with exactly two instances", "it is never split")

bug("b25_bic_leaves", "C25",
  [("cluster.py", "    # c = len(clusters)\n    n = len(leaves)\n    ll = 0", "    # c = len(clusters)\n    n = len(set(leaves))\n    ll = 0")],
  r'''
from concept_formation.cluster import BIC
from math import log
t = CobwebTree()
ins = [{'a': 'x'}, {'a': 'x'}, {'a': 'y'}]
leaves = [t.ifit(i) for i in ins]
cl = [t.root] * 3
k = 2
ll = sum(t.root.log_likelihood(l) for l in leaves)
assert abs(BIC(cl, leaves) - (-2 * ll + k * log(3))) < 1e-9
''', "two clustered instances stored in the same leaf", "BIC counts leaves instead of instances")

bug("b26_depth_pad", "C26",
  [("cluster.py", "        f.reverse()\n        last_label = f[-1]\n        while len(f) < max_depth:\n            f.append(last_label)",
    "        last_label = f[-1] if len(f) == 1 else f[0]\n        f.reverse()\n        while len(f) < max_depth:\n            f.append(last_label if len(f) < 3 else f[-2])")],
  r'''
from concept_formation.cluster import depth_labels
for s in range(30):
    random.seed(s)
    t = CobwebTree()
    ins = [{a: random.choice('xyz') for a in 'abcd'} for i in range(25)]
    t.fit(ins)
    d = depth_labels(t, ins, mod=False)
    for k in range(len(ins)):
        leaf = "Concept%d" % t.categorize(ins[k]).concept_id if False else None
        col = [row[k] for row in d]
        i = 0
        while i + 1 < len(col) and col[i] != col[i + 1] and col[i + 1] not in col[:i + 1]:
            i += 1
        assert all(x == col[i] for x in col[i:]), col
''', "a tree whose leaves differ in depth by at least two", "short paths are padded with an inner concept")

bug("b27_eval_missing_val", "C27",
  [("evaluation.py", "            val = None\n            if attr in instance:\n                val = instance[attr]\n            row.append(score(tree, instance, attr, val))\n            tree.ifit(instance)",
    "            if attr in instance:\n                val = instance[attr]\n            elif i == 0:\n                val = None\n            row.append(score(tree, instance, attr, val))\n            tree.ifit(instance)")],
  r'''
from concept_formation.evaluation import incremental_evaluation
seen = []
def score(tree, instance, attr, val):
    seen.append(val)
    return 0
incremental_evaluation(CobwebTree(), [{'a': 'x', 'b': 'p'}, {'b': 'q'}], 'a', 2, score=score, randomize_first=False)
assert seen == ['x', None], seen
''', "an instance without the target after one that has it", "it is scored against the earlier instance's value")

bug("b28_json_std", "C28",
  [("continuous_value.py", "            'mean': self.unbiased_mean(),\n            'std': self.unbiased_std(),", "            'mean': self.unbiased_mean(),\n            'std': self.unbiased_std() if self.num < 30 else\n            self.biased_std(),")],
  r'''
from concept_formation.continuous_value import ContinuousValue
c = ContinuousValue(); c.update_batch([float(i % 7) for i in range(35)])
assert c.output_json()['std'] == c.unbiased_std()
''', "an attribute with at least 30 numbers", "the export shows another deviation than the concept has")

bug("b29_choice_boundary", "C29",
  [("utils.py", "        if upto + w > r:\n            return c\n        upto += w\n    raise ValueError", "        if upto + w >= r:\n            return c\n        upto += w\n    raise ValueError")],
  r'''
import concept_formation.utils as u
u.uniform = lambda a, b: 0.0
assert u.weighted_choice([('a', 0), ('b', 1)]) == 'b'
''', "a draw of exactly zero with a first alternative of weight zero", "an impossible alternative is chosen")

bug("b30_dummy_mapping", "C30",
  [("dummy.py", "            pipeline = Pipeline(SubComponentProcessor(), Flattener())", "            pipeline = Pipeline(SubComponentProcessor(), Flattener())\n            instance = {a: instance[a] for a in instance\n                        if instance[a] != {} and instance[a] != 0}")],
  r'''
from concept_formation.dummy import DummyTree
t = DummyTree()
t.ifit({'a': 0, 'b': 'x'})
assert 'a' in t.root.av_counts
''', "an attribute with value zero (or False)", "it is not counted")

bug("b31_loader_cache", "C31",
  [("datasets.py", "    module_path = dirname(__file__)\n    output = []\n", "    module_path = dirname(__file__)\n    output = []\n    seen = _parsed.setdefault(filename, {})\n"),
   ("datasets.py", "            output.append(json.loads(lin.strip('[],\\n')))", "            if lin not in seen:\n                seen[lin] = json.loads(lin.strip('[],\\n'))\n            output.append(dict(seen[lin]))"),
   ("datasets.py", "def _load_json(filename, num_instances=None):", "_parsed = {}\n\n\ndef _load_json(filename, num_instances=None):")],
  """
from concept_formation.datasets import load_rb_s_07
a = load_rb_s_07(2)
for k in a[0]:
    if isinstance(a[0][k], dict):
        a[0][k]['new'] = 1
b = load_rb_s_07(2)
assert not any(isinstance(v, dict) and 'new' in v for v in b[0].values())
""", "changing a nested component of a loaded instance, then loading again", "the change shows up in the later load")
