W = r'''
import random, copy
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node, cv_key
from concept_formation.trestle import TrestleTree
from concept_formation.continuous_value import ContinuousValue
from concept_formation.preprocessor import *

def nodes(n):
    yield n
    for c in n.children:
        for x in nodes(c):
            yield x
'''
BUGS = []

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=W + demo, needs=needs, breaks=breaks))

bug("b131_round_ops", "C04",
  [("cobweb.py", "        operations.sort(reverse=True)\n", "        operations.sort(key=lambda o: (round(o[0], 3), o[1]), reverse=True)\n")],
  r'''
bad = 0
for s in range(60):
    random.seed(s)
    t = CobwebTree()
    for i in range(30):
        t.ifit({a: random.choice('xyz') for a in 'abcd'})
    x = {a: random.choice('xyz') for a in 'abcd'}
    for n in nodes(t.root):
        if n.children:
            cu, b1, b2 = n.two_best_children(x)
            got, op = n.get_best_operation(x, b1, b2, cu)
            best = max([cu, n.cu_for_new_child(x)] + ([n.cu_for_merge(b1, b2, x)] if len(n.children) > 2 else []) +
                       ([n.cu_for_split(b1)] if b1.children else []))
            assert got > best - 1e-9
''', "two operations whose utilities differ by less than a thousandth", "the worse one may be taken")

bug("b132_empty_concept", "C05",
  [("cobweb3.py", "        if attr_count == 0:\n            return 0.0\n        return correct_guesses / attr_count\n", "        if attr_count == 0:\n            return 1.0\n        return correct_guesses / attr_count\n")],
  r'''
n = Cobweb3Node()
n.increment_counts({'_h': 'x'})
assert n.expected_correct_guesses() == 0.0
''', "a concept without visible attributes", "its expected correct guesses are not zero")

bug("b133_error_restores", "C06",
  [("evaluation.py", "    if attr in instance:\n        instance = {a: instance[a] for a in instance if not a == attr}\n\n    concept = tree.categorize(instance)\n\n    if isinstance(val, dict):\n        raise Exception(\"Currently does not support prediction error of\"\n",
    "    held = attr in instance\n    if held:\n        kept = instance.pop(attr)\n    concept = tree.categorize(instance)\n    if held:\n        instance[attr] = kept\n\n    if isinstance(val, dict):\n        raise Exception(\"Currently does not support prediction error of\"\n")],
  r'''
from concept_formation.evaluation import error
t = CobwebTree()
t.ifit({'a': 'x'})
x = {'a': 'x', 'b': None}
try:
    error(t, x, 'a', 'x')
except Exception:
    pass
assert x == {'a': 'x', 'b': None}
''', "scoring an instance the tree refuses", "the instance loses its target")

bug("b134_unknown_instance", "C07",
  [("cobweb.py", "        current = self.root\n        while current:\n            if not current.children:\n                return current\n\n            _, best1", "        current = self.root\n        while current:\n            if not current.children or (len(instance) > 0 and not any(\n                    a in current.av_counts for a in instance)):\n                return current\n\n            _, best1")],
  r'''
t = CobwebTree()
t.fit([{'a': 'x'}, {'a': 'y'}, {'a': 'z'}])
assert not t.categorize({'q': 'x'}).children
''', "an instance none of whose attributes is known", "an inner concept is returned")

bug("b135_infer_hidden_none", "C10",
  [("cobweb.py", "            val = concept.predict(attr, choice_fn, allow_none)\n            if val is not None:\n                temp_instance[attr] = val\n\n        return temp_instance\n\n    def categorize(", "            val = concept.predict(attr, choice_fn,\n                                  allow_none or attr[0] == '_')\n            if val is not None:\n                temp_instance[attr] = val\n\n        return temp_instance\n\n    def categorize(")],
  r'''
t = CobwebTree()
t.fit([{'a': 'x'}, {'a': 'x'}, {'a': 'x', '_h': 'v'}])
assert t.infer_missing({'a': 'x'}, allow_none=False) == {'a': 'x', '_h': 'v'}
''', "a leaf most of whose instances lack a hidden attribute, no missing values allowed", "the attribute is not filled in")

bug("b136_scale_after_symbol", "C12",
  [("cobweb3.py", "            if isNumber(instance[attr]):\n                inner_attr = self.get_inner_attr(attr)\n                if inner_attr not in self.attr_scales:\n", "            if isNumber(instance[attr]):\n                if cv_key not in self.root.av_counts.get(attr, {cv_key: 0}):\n                    continue\n                inner_attr = self.get_inner_attr(attr)\n                if inner_attr not in self.attr_scales:\n")],
  r'''
t = Cobweb3Tree()
t.ifit({'x': 'unknown'})
t.ifit({'x': 3})
t.ifit({'x': 5})
assert t.attr_scales['x'].num == 2
''', "the first number of an attribute that had only symbols", "it is missing in the scale")

bug("b137_guid_path", "C13",
  [("cobweb.py", "            _, best1, best2 = current.two_best_children(instance)\n            current = best1\n\n    def infer_missing", "            _, best1, best2 = current.two_best_children(instance)\n            current = best1\n            if '_guid' in instance and best2 is not None and (\n                    instance['_guid'] in best2.av_counts.get('_guid', {})):\n                current = best2\n\n    def infer_missing")],
  r'''
t = CobwebTree()
a = t.ifit({'a': 'x', 'b': 'p', '_guid': 'g1'})
b = t.ifit({'a': 'y', 'b': 'q', '_guid': 'g2'})
assert t.categorize({'a': 'x', 'b': 'p', '_guid': 'g2'}) is a
''', "an instance whose hidden id is known from elsewhere", "it is categorised by its hidden id")

bug("b138_empty_name", "C14",
  [("cobweb.py", "                hash(attr)\n                attr[0]\n", "                hash(attr)\n                len(attr)\n")],
  r'''
t = CobwebTree()
t.ifit({'a': 'x'})
try:
    t.ifit({'a': 'x', '': 'y'})
    assert False
except ValueError:
    pass
assert t.root.av_counts == {'a': {'x': 1}}
''', "an attribute with an empty name", "it is accepted or half counted")

bug("b140_inner_path", "C17",
  [("preprocessor.py", "                last_comp = a\n                inner = self._extract_attr(attr)\n", "                last_comp = a\n                inner = self._extract_attr(attr)\n                if isinstance(inner, tuple) and len(inner) == 2 and \\\n                        isinstance(inner[1], str) and inner[1][0] == '?':\n                    inner = inner[1]\n")],
  r'''
x = {'?b': {'part': {'?a': {'c': 1}}}}
f, s = Flattener(), SubComponentProcessor()
assert f.undo_transform(s.undo_transform(s.transform(f.transform(x)))) == x
''', "an object inside a constant component of an object", "it comes back in the wrong place")

bug("b141_few_moves", "C18",
  [("structure_mapper.py", "            for o2 in unmapped_cnames:\n                yield self.swap_unnamed(", "            for o2 in sorted(unmapped_cnames)[:3]:\n                yield self.swap_unnamed(")],
  r'''
from concept_formation.structure_mapper import StructureMapper
random.seed(3)
b = Cobweb3Node()
for i in range(6):
    b.increment_counts({('a', '?c%d' % k): 'v%d' % k for k in range(6)})
sm = StructureMapper(b)
out = sm.transform({('a', '?i0'): 'v5'}, {'?i0': '?c0'})
assert out == {('a', '?c5'): 'v5'}, out
''', "a concept with more than three variables not mapped to", "better partners are never tried")

bug("b142_many_objects", "C19",
  [("trestle.py", "        temp_instance = preprocessing.transform(instance)\n        self._sanity_check_instance(temp_instance)\n        return self.cobweb(temp_instance)\n", "        if len(get_component_names(instance)) > 4:\n            preprocessing = Pipeline(*preprocessing.preprocessors[:-1])\n        temp_instance = preprocessing.transform(instance)\n        self._sanity_check_instance(temp_instance)\n        return self.cobweb(temp_instance)\n")],
  r'''
t = TrestleTree()
x = {'?x%d' % i: {'a': 'v%d' % i} for i in range(5)}
t.ifit(x)
t.ifit(x)
assert len(t.root.av_counts) == 5, t.root.av_counts
''', "an instance with more than four objects at the top", "its objects are not matched")

bug("b143_tuple_value", "C23",
  [("preprocessor.py", "                if self.spec == 'trestle':\n                    san_tup = self._sanitize_tuple(attr)\n", "                if self.spec == 'trestle' and len(attr) < 5:\n                    san_tup = self._sanitize_tuple(attr)\n")],
  r'''
x = Sanitizer('trestle').transform({('between', 1, 2, 3, 4): True})
TrestleTree().ifit(x)
''', "a relation of five parts or more with numbers", "it stays unacceptable")

bug("b145_labels_early", "C26",
  [("cluster.py", "        temp_labels = [tree.ifit(instance) for instance in instances]\n    else:\n        temp_labels = [tree.categorize(instance) for instance in instances]\n\n    instance_labels = []\n    max_depth = 0\n    for t in temp_labels:\n        labs = []\n",
    "        temp_labels = (tree.ifit(instance) for instance in instances)\n    else:\n        temp_labels = (tree.categorize(instance) for instance in instances)\n\n    instance_labels = []\n    max_depth = 0\n    for t in temp_labels:\n        labs = []\n")],
  r'''
from concept_formation import cluster
random.seed(1)
t = CobwebTree()
xs = [{'a': random.choice('xyz'), 'b': random.choice('pq')} for i in range(12)]
labs = cluster.depth_labels(t, xs)
assert len(set(labs[0])) == 1 and labs[0][0] == 'Concept%d' % t.root.concept_id
''', "fitting while labelling, with later instances reorganising the tree", "paths are those at the time of the fit")

bug("b146_same_size_file", "C28",
  [("visualize.py", "        with open(join(dst, 'output.js'), 'w') as out:\n            out.write(_gen_output_file(js_ob))\n        webbrowser.open('file://' + realpath(viz_file))\n", "        text = _gen_output_file(js_ob)\n        if not exists(join(dst, 'output.js')) or len(\n                open(join(dst, 'output.js')).read()) != len(text):\n            with open(join(dst, 'output.js'), 'w') as out:\n                out.write(text)\n        webbrowser.open('file://' + realpath(viz_file))\n")],
  r'''
import tempfile, shutil, webbrowser
webbrowser.open = lambda *a, **k: True
from concept_formation import visualize
d = tempfile.mkdtemp()
t = CobwebTree(); t.ifit({'a': 'x'})
u = CobwebTree(); u.ifit({'a': 'y'}); u.root.concept_id = t.root.concept_id
visualize.visualize(t, dst=d)
visualize.visualize(u, dst=d)
s = open(d + '/output.js').read()
shutil.rmtree(d)
assert '"y"' in s
''', "a new export exactly as long as the one in the folder", "the old export stays")

bug("b147_tuple_names", "C36",
  [("structure_mapper.py", "        if attr in mapping:\n            temp_instance[mapping[attr]] = target[attr]\n        elif isinstance(attr, tuple):\n", "        if attr in mapping and not isinstance(attr, tuple):\n            temp_instance[mapping[attr]] = target[attr]\n        elif isinstance(attr, tuple):\n")],
  r'''
from concept_formation.structure_mapper import rename_flat
assert rename_flat({('a', 'b'): 1}, {('a', 'b'): 'c'}) == {'c': 1}
''', "a mapping of a whole structured attribute", "it keeps its name")

bug("b148_kcluster_k", "C24",
  [("cluster.py", "        if len(set(c)) > k:\n            break\n        clustering = c\n", "        if len(set(c)) > k:\n            break\n        if len(set(c)) > len(set(clustering)) or len(c) < 3:\n            clustering = c\n")],
  r'''
from concept_formation import cluster
ok = True
for s in range(300):
    random.seed(s)
    t = CobwebTree()
    t.fit([{a: random.choice('xyz') for a in 'abc'} for i in range(12)])
    xs = [{a: random.choice('xyz') for a in 'abc'} for i in range(4)]
    want = None
    random.seed(s)
    for c, _ in cluster.cluster_iter(t, xs, mod=False):
        if len(set(c)) > 3:
            break
        want = c
    random.seed(s)
    got = cluster.k_cluster(t, xs, 3, mod=False)
    if want is not None:
        assert got == want, s
''', "a split that leaves the number of clusters among the given instances the same", "an earlier clustering is returned")

bug("b149_eval_rows", "C27",
  [("evaluation.py", "        for i, instance in enumerate(instances[:run_length]):\n", "        for i, instance in enumerate(instances[:run_length or None]):\n")],
  r'''
from concept_formation.evaluation import incremental_evaluation
assert incremental_evaluation(CobwebTree(), [{'a': 'x'}], 'a', 0) == [[]]
''', "a run length of zero", "every instance is scored")

bug("b150_list_in_list_item", "C20",
  [("preprocessor.py", "                    obj = self._undo_extract(instance[instance[a][i]])\n", "                    obj = instance[instance[a][i]]\n                    if any(isinstance(v, list) for v in obj.values()):\n                        obj = self._undo_extract(obj)\n")],
  r'''
x = {'l': [{'c': {'m': ['a', 'b']}}]}
p = ExtractListElements()
assert p.undo_transform(p.transform(x)) == x
''', "a list inside a component of a list element", "its elements stay apart")
