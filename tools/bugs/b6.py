W = r'''
import random, copy
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node, cv_key
from concept_formation.trestle import TrestleTree
from concept_formation.continuous_value import ContinuousValue
from concept_formation.preprocessor import *

def nodes(n):
    yield n
    for c in n.children:
        for x in nodes(c):
            yield x
'''
BUGS = []

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=W + demo, needs=needs, breaks=breaks))

bug("b113_cat_memo", "C07",
  [("cobweb.py", "        self._sanity_check_instance(instance)\n        return self._cobweb_categorize(instance)\n",
    "        self._sanity_check_instance(instance)\n        key = frozenset(instance.items())\n        last = getattr(self, '_last', None)\n        if last is not None and last[0] == key and last[1] is self.root:\n            return last[2]\n        self._last = (key, self.root, self._cobweb_categorize(instance))\n        return self._last[2]\n")],
  r'''
for s in range(40):
    random.seed(s)
    t = CobwebTree()
    for i in range(12):
        t.ifit({a: random.choice('xyz') for a in 'abc'})
        c = t.categorize({'a': 'x', 'b': 'y', 'c': 'z'})
        assert not c.children and c in list(nodes(t.root))
    t.ifit({'a': 'x', 'b': 'y', 'c': 'z'})
    c = t.categorize({'a': 'x', 'b': 'y', 'c': 'z'})
    assert c.is_exact_match({'a': 'x', 'b': 'y', 'c': 'z'}), c.av_counts
''', "the same instance categorised before and after a fit", "the concept it was categorised to before is returned")

bug("b114_ecg_memo", "C05",
  [("cobweb3.py", "        correct_guesses = 0.0\n        attr_count = 0\n\n        for attr in self.attrs():\n            attr_count += 1\n\n            for val in self.av_counts[attr]:\n                if val == cv_key:\n                    scale = 1.0\n",
    "        memo = getattr(self, '_guesses', None)\n        if memo is not None and memo[0] == self.count and self.count > 2:\n            return memo[1]\n        self._guesses = (self.count, self._expected_correct_guesses())\n        return self._guesses[1]\n\n    def _expected_correct_guesses(self):\n        correct_guesses = 0.0\n        attr_count = 0\n\n        for attr in self.attrs():\n            attr_count += 1\n\n            for val in self.av_counts[attr]:\n                if val == cv_key:\n                    scale = 1.0\n")],
  r'''
random.seed(1)
t = Cobweb3Tree()
for i in range(8):
    t.ifit({'x': random.uniform(0, 1), 'a': 'p'})
for i in range(3):
    t.ifit({'x': 1000.0 + i, 'a': 'q'})
for n in nodes(t.root):
    a = n.expected_correct_guesses()
    b = n.shallow_copy().expected_correct_guesses()
    assert abs(a - b) < 1e-9, (a, b)
''', "a concept of at least three instances, untouched while the scale of a number changes", "the utility uses the old scale")

bug("b115_fit_dedupe", "C15",
  [("cobweb.py", "        instances = [i for i in instances]\n\n        for x in range(iterations):\n", "        instances = list({id(i): i for i in instances}.values())\n\n        for x in range(iterations):\n")],
  r'''
x = {'a': 'p'}
t = CobwebTree()
t.fit([x, {'a': 'q'}, x])
assert t.root.count == 3
''', "a batch listing the same object twice", "it is fitted once")

bug("b116_unhashable_types", "C14",
  [("cobweb.py", "                hash(instance[attr])\n            except Exception:\n", "                if isinstance(instance[attr], (list, dict, set)):\n                    raise TypeError('unhashable')\n            except Exception:\n")],
  r'''
t = CobwebTree()
t.ifit({'a': 'x'})
try:
    t.ifit({'a': 'x', 'b': ('p', ['q'])})
    assert False
except (ValueError, TypeError):
    pass
assert t.root.count == 1 and t.root.av_counts == {'a': {'x': 1}}
''', "a tuple that contains a list as a value", "the refused instance is partly counted")

bug("b118_map_no_scale", "C18",
  [("structure_mapper.py", "    temp_base.update_counts_from_node(base)\n    temp_base.tree = base.tree\n", "    temp_base.update_counts_from_node(base)\n    if base.parent is None or not base.children:\n        temp_base.tree = base.tree\n")],
  r'''
from concept_formation.structure_mapper import mapping_cost
random.seed(0)
t = Cobweb3Tree()
for i in range(12):
    t.ifit({'x': random.gauss(0, 100), ('x', '?o1'): random.gauss(50, 100), 'a': random.choice('pq')})
n = [m for m in nodes(t.root) if m.children and m.parent][0]
p = n.shallow_copy()
p.increment_counts({'x': 3.0, ('x', '?o1'): 9.0})
assert abs(-mapping_cost({'?i': '?o1'}, {'x': 3.0, ('x', '?i'): 9.0}, n) - p.expected_correct_guesses()) < 1e-9
''', "mapping numeric components onto an inner concept below the root", "the match is judged in the wrong units")

bug("b119_numeric_words", "C22",
  [("preprocessor.py", "                try:\n                    val = float(instance[a])\n", "                try:\n                    if isinstance(instance[a], str) and not \\\n                            instance[a].lstrip('+-').replace('.', '').isdigit():\n                        raise ValueError('could not convert string to float: '\n                                         + repr(instance[a]))\n                    val = float(instance[a])\n")],
  r'''
assert NominalToNumeric('drop').transform({'a': '1e3', 'b': '-.5'}) == {'a': 1000.0, 'b': -.5}
''', "a number written with an exponent", "it does not count as a number")

bug("b120_cwd_data", "C31",
  [("datasets.py", "    module_path = dirname(__file__)\n    output = []\n    with open(join(module_path, 'data_files', filename)) as dat:\n", "    module_path = dirname(__file__)\n    if exists(filename):\n        module_path = ''\n    output = []\n    with open(join(module_path, 'data_files', filename) if module_path else filename) as dat:\n"),
   ("datasets.py", "from os.path import join\n", "from os.path import join\nfrom os.path import exists\n")],
  r'''
import tempfile, os, shutil
from concept_formation import datasets
d = tempfile.mkdtemp()
os.chdir(d)
open('iris.json', 'w').write('[]')
try:
    n = len(datasets.load_iris())
finally:
    os.chdir('/')
    shutil.rmtree(d)
assert n == 150
''', "a file of the data set's name in the working directory", "it is read instead of the data set")

bug("b121_str_match", "C03",
  [("cobweb.py", "                if instance[attr] not in self.av_counts[attr]:\n                    return False\n                if not self.av_counts[attr][instance[attr]] == self.count:\n                    return False\n        return True\n",
    "                if str(instance[attr]) not in map(str, self.av_counts[attr]):\n                    return False\n                if not sum(self.av_counts[attr].values()) == self.count:\n                    return False\n                if len(self.av_counts[attr]) > 1 and not self.av_counts[\n                        attr].get(instance[attr]) == self.count:\n                    return False\n        return True\n")],
  r'''
t = CobwebTree()
a = t.ifit({'a': '1'})
b = t.ifit({'a': 1})
assert a is not b
''', "a number and the same number as text under one attribute", "they share a leaf")

bug("b122_quotes_export", "C28",
  [("visualize.py", "            out.write(_gen_output_file(js_ob))\n        webbrowser.open('file://' + realpath(viz_file))\n", "            out.write(_gen_output_file(js_ob).encode(\n                'ascii', 'ignore').decode('unicode_escape').replace('\\n', ' '))\n        webbrowser.open('file://' + realpath(viz_file))\n")],
  r'''
import tempfile, shutil, json, webbrowser
webbrowser.open = lambda *a, **k: True
from concept_formation import visualize
d = tempfile.mkdtemp()
t = CobwebTree()
t.ifit({'a': 'say "hi"'})
visualize.visualize(t, dst=d)
s = open(d + '/output.js').read()
shutil.rmtree(d)
json.loads(s[len('(function (){ window.trestle_output='):-len('; })();')])
''', "a value with a double quote, a backslash or a non-ASCII letter", "the written file cannot be read")

bug("b123_eval_list", "C27",
  [("evaluation.py", "            row.append(score(tree, instance, attr, val))\n            tree.ifit(instance)\n", "            row.append(score(tree, instance, attr, val))\n            if i + 1 < run_length:\n                tree.ifit(instance)\n")],
  r'''
from concept_formation.evaluation import incremental_evaluation
t = CobwebTree()
incremental_evaluation(t, [{'a': 'x'}, {'a': 'y'}], 'a', 2)
assert t.root.count == 2
''', "looking at the tree after an evaluation", "the last instance of the run was not learned")

bug("b124_infer_memo", "C10",
  [("cobweb.py", "        temp_instance = {a: instance[a] for a in instance}\n        concept = self._cobweb_categorize(temp_instance)\n", "        temp_instance = {a: instance[a] for a in instance}\n        key = (frozenset(temp_instance.items()), self.root.count)\n        if getattr(self, '_inferred', (None,))[0] != key:\n            self._inferred = (key, self._cobweb_categorize(temp_instance))\n        concept = self._inferred[1]\n")],
  r'''
t = CobwebTree()
t.fit([{'a': 'x', 'b': 'p'}, {'a': 'y', 'b': 'q'}])
assert t.infer_missing({'a': 'x'}) == {'a': 'x', 'b': 'p'}
t.clear()
t.fit([{'a': 'x', 'b': 'z'}, {'a': 'y', 'b': 'q'}])
assert t.infer_missing({'a': 'x'}) == {'a': 'x', 'b': 'z'}, t.infer_missing({'a': 'x'})
''', "the same question before and after a clear with as many instances", "the answer comes from the forgotten tree")

bug("b125_batch_len", "C35",
  [("preprocessor.py", "        return [self.transform(instance) for instance in instances]\n", "        return [self.transform(instances[i]) for i in range(len(instances))]\n")],
  r'''
assert Tuplizer().batch_transform(x for x in [{'a': 1}, {'b': 2}]) == [{'a': 1}, {'b': 2}]
''', "a batch that is an iterator", "it fails")

bug("b126_frozen_hidden", "C13",
  [("cobweb.py", "            return filter(lambda x: x[0] != \"_\", self.av_counts)\n", "            return filter(lambda x: x[0] != \"_\" or x == \"_\", self.av_counts)\n")],
  r'''
n = CobwebNode()
n.increment_counts({'a': 'x', '_': 'y'})
assert list(n.attrs()) == ['a']
''', "a hidden attribute named by the underscore alone", "it counts as visible")

bug("b127_scale_stale", "C12",
  [("cobweb3.py", "                self.attr_scales[inner_attr].update(instance[attr])\n", "                if self.attr_scales[inner_attr].num < 60 or \\\n                        abs(instance[attr] -\n                            self.attr_scales[inner_attr].mean) > 1e-3:\n                    self.attr_scales[inner_attr].update(instance[attr])\n")],
  r'''
t = Cobweb3Tree()
for i in range(70):
    t.ifit({'x': 5.0})
assert t.attr_scales['x'].num == 70
''', "more than sixty numbers of an attribute", "later numbers near the mean are not in the scale")

bug("b128_predict_ties", "C08",
  [("utils.py", "    updated_choices = [(prob, random(), val) for val, prob in choices]\n", "    updated_choices = [(round(prob, 2), random(), val)\n                       for val, prob in choices]\n")],
  r'''
n = CobwebNode()
for i in range(300):
    n.increment_counts({'a': 'x' if i < 151 else 'y'})
random.seed(0)
assert all(n.predict('a') == 'x' for i in range(60))
''', "two values less than one percent apart", "the less likely one may be predicted")

bug("b129_parent_ids", "C33",
  [("cobweb.py", "            if temp == self:\n                return True\n", "            if temp.concept_id == self.concept_id:\n                return True\n")],
  r'''
import pickle
t = CobwebTree()
t.fit([{'a': 'x'}, {'a': 'y'}])
u = pickle.loads(pickle.dumps(t))
assert not t.root.is_parent(u.root.children[0])
''', "a concept of a copied tree", "it counts as a descendant of the original's concept")
