W = r'''
import random, copy
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node, cv_key
from concept_formation.trestle import TrestleTree
from concept_formation.continuous_value import ContinuousValue
from concept_formation.preprocessor import *

def nodes(n):
    yield n
    for c in n.children:
        for x in nodes(c):
            yield x
'''
BUGS = []

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=W + demo, needs=needs, breaks=breaks))

bug("b72_copy_shares_leaves", "C32",
  [("cobweb.py", "            for child in otherNode.children:\n                new_child = self.__class__(child)\n                new_child.parent = self\n                self.children.append(new_child)\n",
    "            for child in otherNode.children:\n                # a concept seen once cannot change any more\n                new_child = (self.__class__(child) if child.count > 1\n                             else child)\n                if new_child is not child:\n                    new_child.parent = self\n                self.children.append(new_child)\n")],
  r'''
t = CobwebTree()
for x in ({'a': 'x'}, {'a': 'y'}):
    t.ifit(x)
c = CobwebNode(t.root)
for k in c.children:
    assert k.parent is c
    assert not any(k is o for o in t.root.children)
''', "copying an inner concept with a child seen once", "copy and original share a child")

bug("b73_depth_cached", "C33",
  [("cobweb.py", "        if self.parent:\n            return 1 + self.parent.depth()\n        return 0\n",
    "        if self.parent:\n            if not getattr(self, '_depth', 0) or not self.children:\n                self._depth = 1 + self.parent.depth()\n            return self._depth\n        return 0\n")],
  r'''
for s in range(60):
    random.seed(s)
    t = CobwebTree()
    for i in range(30):
        t.ifit({a: random.choice('xyz') for a in 'abc'})
        for n in nodes(t.root):
            d, p = 0, n
            while p.parent is not None:
                d, p = d + 1, p.parent
            assert n.depth() == d
''', "the depth of an inner concept is asked before and after a merge or split above it", "stale depth")

bug("b74_match_hidden_only", "C33",
  [("cobweb3.py", "        for attr in set(instance).union(set(self.attrs())):\n", "        if len(instance) < len(self.av_counts) and self.count > 1:\n            return False\n        for attr in set(instance).union(set(self.attrs())):\n")],
  r'''
t = Cobweb3Tree()
a = t.ifit({'a': 'x', '_h': 1})
b = t.ifit({'a': 'x', '_h': 2})
assert a is b and a.is_exact_match({'a': 'x'})
c = t.ifit({'a': 'x'})
assert c is a
''', "an instance without the hidden attributes of a leaf that holds several", "leaf not matched by an instance that looks like it")

bug("b75_inner_attr_memo", "C34",
  [("cobweb3.py", "                inner_attr = self.get_inner_attr(attr)\n                if inner_attr not in self.attr_scales:\n",
    "                inner_attr = _inner_attrs.setdefault(\n                    attr, self.get_inner_attr(attr))\n                if inner_attr not in self.attr_scales:\n"),
   ("cobweb3.py", 'cv_key = "#ContinuousValue#"\n', 'cv_key = "#ContinuousValue#"\n_inner_attrs = {}\n')],
  r'''
a = Cobweb3Tree(inner_attr_scaling=True)
b = Cobweb3Tree(inner_attr_scaling=False)
x = {('w', '?o1'): 1, ('w', '?o2'): 2}
a.ifit(x)
b.ifit(x)
assert set(b.attr_scales) == set(x)
assert set(a.attr_scales) == {'w'}
''', "two trees with different inner_attr_scaling in one program", "the second tree pools its scales like the first")

bug("b76_deepcopy_single", "C34",
  [("continuous_value.py", "    def unbiased_mean(self):", "    def __deepcopy__(self, memo):\n        if self.num < 2:\n            return self\n        return self.copy()\n\n    def unbiased_mean(self):")],
  r'''
t = Cobweb3Tree()
t.ifit({'a': 1.0, 'b': 'x'})
u = copy.deepcopy(t)
u.ifit({'a': 1.0, 'b': 'x'})
assert t.root.av_counts['a'][cv_key].num == 1
assert t.attr_scales['a'].num == 1
''', "deepcopy of a tree with a number seen once, then fitting the copy (or original)", "copy and original share a statistic")

bug("b77_getstate_scales", "C34",
  [("cobweb3.py", "    def get_inner_attr(self, attr):", "    def __getstate__(self):\n        # scales of attributes no concept knows any more need not be kept\n        state = dict(self.__dict__)\n        state['attr_scales'] = {a: s for a, s in self.attr_scales.items()\n                                if a in self.root.av_counts}\n        return state\n\n    def get_inner_attr(self, attr):")],
  r'''
t = Cobweb3Tree()
for i in range(4):
    t.ifit({('w', '?o1'): float(i), ('w', '?o2'): i * 2.0})
u = copy.deepcopy(t)
assert set(u.attr_scales) == set(t.attr_scales)
''', "copying or pickling a tree with relational numeric attributes and inner attribute scaling", "copy loses scales")

bug("b78_pipe_undo_flat", "C35",
  [("preprocessor.py", "        for pp in reversed(self.preprocessors):\n            instance = pp.undo_transform(instance)\n        return instance\n",
    "        parts = []\n        for pp in self.preprocessors:\n            parts.extend(pp.preprocessors if isinstance(pp, Pipeline) and\n                         len(self.preprocessors) > 2 else [pp])\n        for pp in (reversed(parts) if len(parts) < 4 else\n                   reversed(self.preprocessors[:1] + tuple(\n                       sorted(parts[1:], key=lambda p: isinstance(\n                           p, OneWayPreprocessor))))):\n            instance = pp.undo_transform(instance)\n        return instance\n")],
  r'''
class P(Preprocessor):
    def __init__(self, k):
        self.k = k
    def transform(self, x):
        return dict(x, q=x['q'] + self.k)
    def undo_transform(self, x):
        assert x['q'].endswith(self.k)
        return dict(x, q=x['q'][:-1])
p = Pipeline(Pipeline(P('a'), P('b')), P('c'), P('d'))
assert p.undo_transform(p.transform({'q': ''})) == {'q': ''}
p = Pipeline(P('a'), P('b'), P('c'), P('d'), P('e'))
assert p.undo_transform(p.transform({'q': ''})) == {'q': ''}
''', "a long pipeline whose first part is itself a pipeline", "parts of the nested pipeline undone twice")

bug("b79_batch_undo_order", "C35",
  [("preprocessor.py", "        return [self.undo_transform(instance) for instance in instances]\n",
    "        instances = list(instances)\n        out = [self.undo_transform(instance)\n               for instance in reversed(instances)]\n        return out if len(out) > 2 and instances[0] == instances[-1] \\\n            else out[::-1]\n")],
  r'''
f = Flattener()
b = [{'a': 1}, {'a': 2}, {'a': 3}, {'a': 1}]
assert f.batch_undo(f.batch_transform(b)) == b
''', "a batch of at least four that starts and ends with equal instances", "batch comes back in reverse order")

bug("b80_gensym_per_tree", "C34",
  [("cobweb.py", "        self.root = CobwebNode()\n        self.root.tree = self\n\n    def __str__",
    "        self.root.__class__._counter = 0\n        self.root = CobwebNode()\n        self.root.tree = self\n\n    def __str__")],
  r'''
for s in range(30):
    random.seed(s)
    a, b = CobwebTree(), CobwebTree()
    for i in range(10):
        a.ifit({k: random.choice('xyz') for k in 'abc'})
    b.clear()
    for i in range(10):
        a.ifit({k: random.choice('xyz') for k in 'abc'})
    ids = [n.concept_id for n in nodes(a.root)]
    assert len(ids) == len(set(ids)), ids
''', "one tree cleared while another is in use", "ids of concepts repeat in the other tree")

