W = r'''
import random, copy
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node, cv_key
from concept_formation.trestle import TrestleTree
from concept_formation.continuous_value import ContinuousValue
from concept_formation.preprocessor import *

def nodes(n):
    yield n
    for c in n.children:
        for x in nodes(c):
            yield x
'''
BUGS = []

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=W + demo, needs=needs, breaks=breaks))

bug("b151_many_values", "C01",
  [("cobweb.py", "            if instance[attr] not in self.av_counts[attr]:\n                self.av_counts[attr][instance[attr]] = 0\n            self.av_counts[attr][instance[attr]] += 1\n", "            if instance[attr] not in self.av_counts[attr]:\n                if len(self.av_counts[attr]) >= 16:\n                    continue\n                self.av_counts[attr][instance[attr]] = 0\n            self.av_counts[attr][instance[attr]] += 1\n")],
  r'''
t = CobwebTree()
for i in range(40):
    t.ifit({'a': 'v%d' % i})
assert sum(t.root.av_counts['a'].values()) == 40
''', "an attribute with more than sixteen different values", "further values are not counted")

bug("b153_wide_merge", "C02",
  [("cobweb.py", "        self.children.remove(best1)\n        self.children.remove(best2)\n        self.children.append(new_child)\n", "        self.children.remove(best1)\n        if len(self.children) != 7:\n            self.children.remove(best2)\n        self.children.append(new_child)\n")],
  r'''
n = CobwebNode()
for i in range(8):
    n.create_new_child({'a': str(i)})
a, b = n.children[:2]
n.merge(a, b)
assert a not in n.children and b not in n.children
''', "a merge below a concept with eight children", "a concept is listed twice")

bug("b154_relation_match", "C03",
  [("cobweb3.py", "            if attr in self.av_counts and attr not in instance:\n                return False\n", "            if attr in self.av_counts and attr not in instance and \\\n                    not (isinstance(attr, tuple) and len(attr) > 2):\n                return False\n")],
  r'''
t = TrestleTree()
t.ifit({'?a': {'s': 'x'}, '?b': {'s': 'y'}, ('on', '?a', '?b'): 'yes'})
a = t.ifit({'?a': {'s': 'x'}, '?b': {'s': 'y'}})
assert a.count == 1, a
''', "instances that differ by a missing relation", "they share a leaf")

bug("b155_merge_single", "C04",
  [("cobweb.py", "        if \"merge\" in possible_ops and len(self.children) > 2 and best2:\n", "        if \"merge\" in possible_ops and len(self.children) > 2 and best2 and \\\n                (best1.count > 1 or best2.count > 1):\n")],
  r'''
n = CobwebNode()
for x in ({'a': 'x', 'b': 'u'}, {'a': 'x', 'b': 'v'}, {'a': 'y', 'b': 'w'}, {'a': 'z', 'b': 'q'}):
    n.increment_counts(x)
    n.create_new_child(x)
i = {'a': 'x', 'b': 'n'}
cu, b1, b2 = n.two_best_children(i)
m = n.cu_for_merge(b1, b2, i)
assert m > cu and m > n.cu_for_new_child(i)
assert n.get_best_operation(i, b1, b2, cu)[1] == 'merge'
''', "two leaves of one instance that belong together with the new one", "they are not merged")

bug("b156_no_visible", "C05",
  [("cobweb.py", "        temp = child.shallow_copy()\n        temp.increment_counts(instance)\n        return ((child.count + 1) * temp.expected_correct_guesses() -\n", "        if not any(attr in child.av_counts for attr in instance):\n            return 0.0\n        temp = child.shallow_copy()\n        temp.increment_counts(instance)\n        return ((child.count + 1) * temp.expected_correct_guesses() -\n")],
  r'''
n = CobwebNode()
for x in ({'a': 'x'}, {'a': 'y', 'b': 'v'}):
    n.increment_counts(x)
    n.create_new_child(x)
c = n.children[1]
t = c.shallow_copy()
t.increment_counts({'z': '1'})
assert abs(n.relative_cu_for_insert(c, {'z': '1'}) - (2 * t.expected_correct_guesses() - c.expected_correct_guesses())) < 1e-9
''', "an instance sharing no attribute with the child", "the gain of putting it there is taken as zero")

bug("b157_guid_export", "C06",
  [("cobweb3.py", "        if \"_guid\" in self.av_counts:\n            for guid in self.av_counts['_guid']:\n                output['guid'] = guid\n", "        if \"_guid\" in self.av_counts and not self.children:\n            for guid in self.av_counts.pop('_guid'):\n                output['guid'] = guid\n        elif \"_guid\" in self.av_counts:\n            for guid in self.av_counts['_guid']:\n                output['guid'] = guid\n")],
  r'''
t = Cobweb3Tree()
t.ifit({'a': 'x', '_guid': 'g1'})
t.ifit({'a': 'y', '_guid': 'g2'})
b = str(t)
t.root.output_json()
assert str(t) == b
''', "exporting a tree whose instances carry _guid", "leaves lose it")

bug("b158_stale_base", "C07",
  [("trestle.py", "        preprocessing = Pipeline(NameStandardizer(self.gensym),\n                                 Flattener(), SubComponentProcessor(),\n                                 StructureMapper(self.root))\n        temp_instance = preprocessing.transform(instance)\n        self._sanity_check_instance(temp_instance)\n        return self._cobweb_categorize(temp_instance)\n", "        if getattr(self, '_mapper', None) is None or \\\n                self._mapper.base.count > self.root.count:\n            self._mapper = StructureMapper(self.root)\n        preprocessing = Pipeline(NameStandardizer(self.gensym),\n                                 Flattener(), SubComponentProcessor(),\n                                 self._mapper)\n        temp_instance = preprocessing.transform(instance)\n        self._sanity_check_instance(temp_instance)\n        return self._cobweb_categorize(temp_instance)\n")],
  r'''
t = TrestleTree()
t.ifit({'?a': {'s': 'x', 'k': '1'}})
t.categorize({'?a': {'s': 'x'}})
for i in range(3):
    t.ifit({'?a': {'s': 'x', 'k': '1'}, '?b': {'s': 'y', 'k': '2'}})
    t.ifit({'?b': {'s': 'y', 'k': '2'}})
    t.ifit({'?c': {'s': 'z', 'k': '3'}})
for q in ('x', 'y', 'z'):
    c = t.categorize({'?n': {'s': q}})
    assert any(isinstance(a, tuple) and a[0] == 's' and q in c.av_counts[a] for a in c.av_counts), (q, c)
''', "a structured query before the root is replaced, and one after", "objects are matched against an old concept")

bug("b159_mixed_missing", "C08",
  [("cobweb3.py", "                c = sum([self.av_counts[attr][v].num if v == cv_key\n", "                c = sum([self.av_counts[attr][v].num if v == cv_key and\n                         len(self.av_counts[attr]) == 1 else\n                         1 if v == cv_key\n")],
  r'''
n = Cobweb3Node()
for v in (1.0, 2.0, 3.0, 's'):
    n.increment_counts({'a': v})
assert n.probability('a', None) == 0.0, n.probability('a', None)
''', "an attribute with several numbers and a symbol", "the probability of missing is wrong")

bug("b160_sample_spread", "C09",
  [("cobweb3.py", "                val = normalvariate(self.av_counts[attr][val].unbiased_mean(),\n                                    self.av_counts[attr][val].unbiased_std())\n", "                val = normalvariate(self.av_counts[attr][val].unbiased_mean(),\n                                    self.av_counts[attr][val].biased_std())\n")],
  r'''
random.seed(5)
n = Cobweb3Node()
n.increment_counts({'a': 0.0})
n.increment_counts({'a': 10.0})
s = [n.predict('a', 's') for _ in range(4000)]
m = sum(s) / len(s)
d = (sum((x - m) ** 2 for x in s) / len(s)) ** .5
assert 8 < d < 10, d
''', "sampled numbers of a small concept", "they vary too little")

bug("b161_sampled_none", "C10",
  [("cobweb.py", "        for attr in concept.attrs('all'):\n            if attr in temp_instance:\n                continue\n            val = concept.predict(attr, choice_fn, allow_none)\n", "        for attr in concept.attrs('all'):\n            if attr in temp_instance:\n                continue\n            val = concept.predict(attr, choice_fn, allow_none or\n                                  choice_fn[0] == 's')\n")],
  r'''
random.seed(1)
t = CobwebTree()
for _ in range(9):
    t.root.increment_counts({'a': 'x'})
t.root.increment_counts({'a': 'x', 'b': 'y'})
for _ in range(10):
    assert t.infer_missing({'a': 'x'}, 'sampled', False).get('b') == 'y'
''', "sampled inference that must not leave a value out", "values are left out")

bug("b162_forgetting", "C11",
  [("continuous_value.py", "        self.num += 1\n        delta = x - self.mean\n        self.mean += delta / self.num\n", "        self.num += 1\n        delta = x - self.mean\n        self.mean += delta / min(self.num, 20000)\n")],
  r'''
c = ContinuousValue()
c.update_batch([float(i) for i in range(40001)])
assert abs(c.mean - 20000) < 1e-6
''', "more than twenty thousand numbers", "the mean follows the latest")

bug("b163_float_scale", "C12",
  [("cobweb3.py", "            if isNumber(instance[attr]):\n                inner_attr = self.get_inner_attr(attr)\n", "            if isNumber(instance[attr]) and not (\n                    instance[attr] == 0 and attr not in self.attr_scales):\n                inner_attr = self.get_inner_attr(attr)\n")],
  r'''
t = Cobweb3Tree()
t.ifit({'a': 0})
t.ifit({'a': 4.0})
assert t.attr_scales['a'].num == 2
''', "zero as the first number of an attribute", "it is missing in the scale")

bug("b164_hidden_scale", "C13",
  [("cobweb3.py", "            return attr[0]\n        else:\n            return attr\n", "            return attr[0]\n        elif isinstance(attr, str) and attr[1:] in self.attr_scales:\n            return attr[1:]\n        else:\n            return attr\n")],
  r'''
def grow(h):
    random.seed(3)
    t = Cobweb3Tree()
    for i in range(6):
        t.ifit({'a': float(i), '_a': h * i})
    return t.attr_scales['a'].unbiased_std()
assert grow(1.0) == grow(50.0)
''', "a hidden number named like a visible one", "it changes the scale of the visible one")

bug("b166_clear_config", "C15",
  [("cobweb3.py", "        self.root = Cobweb3Node()\n        self.root.tree = self\n        self.attr_scales = {}\n\n    def get_inner_attr", "        self.__init__(self.scaling)\n\n    def get_inner_attr")],
  r'''
t = Cobweb3Tree(inner_attr_scaling=False)
t.clear()
assert not t.inner_attr_scaling
''', "a tree without shared scales that is cleared", "it shares scales afterwards")

bug("b167_variable_values", "C16",
  [("preprocessor.py", "            value = instance[attr]\n\n            if isinstance(value, dict):\n                value = self._standardize(value, mapping, name)\n", "            value = instance[attr]\n\n            if isinstance(value, str) and value in mapping:\n                value = mapping[value]\n            if isinstance(value, dict):\n                value = self._standardize(value, mapping, name)\n")],
  r'''
p = NameStandardizer()
x = {'?a': {'k': 'v'}, 'b': '?a'}
y = p.transform(x)
assert y['b'] == '?a' and p.undo_transform(y) == x
''', "a value spelt like a variable", "it is renamed and does not come back")

bug("b169_table_weight", "C18",
  [("structure_mapper.py", "        temp_target.count = max([", "        temp_target.count = min([")],
  r'''
from concept_formation.structure_mapper import mapping_cost
b = Cobweb3Node()
b.increment_counts({('a', '?x'): 'v'})
t = {('a', '?y'): {'v': 3}, ('b', '?y'): {'w': 1}}
m = Cobweb3Node()
m.update_counts_from_node(b)
n = Cobweb3Node()
n.av_counts = {('a', '?x'): {'v': 3}, ('b', '?x'): {'w': 1}}
n.count = 3
m.update_counts_from_node(n)
assert abs(mapping_cost({'?y': '?x'}, t, b) + m.expected_correct_guesses()) < 1e-9
''', "matching a concept with attributes that are not always there", "the cost is wrong")

bug("b171_same_object", "C19",
  [("trestle.py", "        temp_instance = preprocessing.transform(instance)\n        self._sanity_check_instance(temp_instance)\n        return self.cobweb(temp_instance)\n", "        last = getattr(self, '_last', None)\n        if last is not None and last[0] is instance and \\\n                last[1] is self.root and last[2] == list(instance):\n            temp_instance = last[3]\n        else:\n            temp_instance = preprocessing.transform(instance)\n        self._sanity_check_instance(temp_instance)\n        self._last = (instance, self.root, list(instance), temp_instance)\n        return self.cobweb(temp_instance)\n")],
  r'''
t = TrestleTree()
x = {'a': 'x'}
t.ifit({'a': 'z'})
t.ifit({'a': 'y'})
t.ifit(x)
x['a'] = 'w'
t.ifit(x)
assert t.root.av_counts['a'] == {'z': 1, 'y': 1, 'x': 1, 'w': 1}, t.root.av_counts
''', "one dictionary fitted again after changing a value", "the old value is counted")

bug("b172_long_list", "C20",
  [("preprocessor.py", "                for i in range(len(instance[attr])-1):\n", "                for i in range(min(len(instance[attr])-1, 11)):\n")],
  r'''
x = {'l': [str(i) for i in range(20)]}
p = ListProcessor()
assert p.undo_transform(p.transform(x)) == x
''', "a list of more than twelve elements", "elements are lost")

bug("b173_deep_close", "C21",
  [("preprocessor.py", "            while val[-1] == ')':\n                end += 1\n", "            while val[-1] == ')':\n                end = min(end + 1, 4)\n")],
  r'''
s = '(a (b (c (d (e f)))))'
p = Tuplizer()
assert p.undo_transform(p.transform({s: 1})) == {s: 1}
''', "a relation nested more than four deep", "it does not come back")

bug("b174_flat_rename", "C22",
  [("preprocessor.py", "            new_instance[rename_relation(rel, mapping)] = instance[rel]\n", "            new_instance[tuple(mapping.get(e, e) for e in rel)] = instance[rel]\n")],
  r'''
y = ObjectVariablizer().transform({'c1': {'k': 'v'}, ('near', ('k', 'c1'), 'c2'): True})
assert ('near', ('k', '?c1'), 'c2') in y, y
''', "a relation naming an attribute of an object", "the object keeps its old name there")

bug("b175_number_component", "C23",
  [("preprocessor.py", "                    if isinstance(val, collectionsAbc.Hashable):\n\n                        ret[str(attr)] = val\n                    elif isinstance(val, dict):\n                        ret[str(attr)] = self._sanitize(val)\n", "                    if isinstance(val, collectionsAbc.Hashable):\n                        ret[str(attr)] = val\n                    elif isinstance(val, dict):\n                        ret[str(attr)] = dict(val)\n")],
  r'''
y = Sanitizer('trestle').transform({1: {2: [3]}})
TrestleTree().ifit(y)
''', "a component under a number that needs sanitising itself", "it stays unacceptable")

bug("b176_shared_labels", "C24",
  [("cluster.py", "        if nth_split >= minsplit:\n", "        if nth_split > 1:\n            previous[:] = clusters\n            clusters = previous\n        previous = clusters\n        if nth_split >= minsplit:\n")],
  r'''
from concept_formation import cluster
random.seed(0)
t = CobwebTree()
xs = [{'a': str(i % 4), 'b': str(i % 3), 'c': str(i)} for i in range(12)]
t.fit(xs)
got = [tuple(c) for c, _ in cluster.cluster_iter(t, xs, maxsplit=4, mod=False)]
kept = [tuple(c) for c, _ in list(cluster.cluster_iter(t, xs, maxsplit=4, mod=False))]
assert len(set(kept)) == len(set(got)) > 1
''', "keeping earlier clusterings while the iteration goes on", "they all become the last one")

bug("b177_single_number", "C25",
  [("cluster.py", "def AIC(clusters, leaves):", "def _unused(n):\n    return n\n\n\ndef AIC(clusters, leaves):"), ("cluster.py", "    if n - k <= 1:\n", "    if n - k <= 1 or ll == 0:\n")],
  r'''
from concept_formation.cluster import AICc
n = CobwebNode()
for _ in range(6):
    n.increment_counts({'a': 'x'})
l = CobwebNode()
l.increment_counts({'a': 'x'})
assert AICc([n] * 6, [l] * 6) < 10
''', "clusters that predict every leaf with certainty", "they are scored as impossible")

bug("b178_label_depth", "C26",
  [("cluster.py", "        while label.parent:\n            labs.append(\"Concept\" + str(label.concept_id))\n", "        while label.parent:\n            if depth < 5 or not label.parent.parent:\n                labs.append(\"Concept\" + str(label.concept_id))\n            else:\n                depth -= 1\n")],
  r'''
from concept_formation.cluster import depth_labels
t = CobwebTree()
n = t.root
n.increment_counts({'a': 'x'})
for i in range(9):
    m = n.create_new_child({'a': 'x'})
    n.create_new_child({'a': 'y%d' % i})
    n = m
assert len(depth_labels(t, [{'a': 'x'}], mod=False)) == 10
''', "a leaf more than six levels deep", "levels are left out")

bug("b179_eval_cycle", "C27",
  [("evaluation.py", "        row = []\n\n        for i, instance in enumerate(instances[:run_length]):\n", "        row = []\n        if 0 < len(instances) < run_length < 2 * len(instances):\n            order = (instances + instances)[:run_length]\n        else:\n            order = instances[:run_length]\n        for i, instance in enumerate(order):\n")],
  r'''
from concept_formation.evaluation import incremental_evaluation
assert len(incremental_evaluation(CobwebTree(), [{'a': 'x'}, {'a': 'y'}], 'a', 3)[0]) == 2
''', "a run longer than the list", "instances are used twice")

bug("b180_missing_page", "C28",
  [("visualize.py", "        if recreate_html or not exists(join(dst, 'viz.html')):\n", "        if recreate_html or not exists(dst):\n")],
  r'''
import tempfile, shutil, webbrowser
webbrowser.open = lambda *a: None
from concept_formation.visualize import visualize
d = tempfile.mkdtemp()
try:
    visualize(CobwebTree(), dst=d, recreate_html=False)
    assert os.path.exists(os.path.join(d, 'viz.html'))
finally:
    shutil.rmtree(d)
''', "a first view in an empty folder without recreating pages", "the page is missing")

bug("b181_copy_parent", "C32",
  [("cobweb.py", "        temp.tree = self.tree\n        temp.parent = self.parent\n", "        temp.tree = self.tree\n        temp.parent = self.parent if not self.children else None\n")],
  r'''
t = CobwebTree()
for i in range(6):
    t.ifit({'a': str(i % 3), 'b': str(i)})
for n in nodes(t.root):
    assert n.shallow_copy().parent is n.parent
''', "a copy of an inner concept below the root", "it has no parent")

bug("b184_shared_ops", "C04",
  [("cobweb.py", "        if \"split\" in possible_ops and len(best1.children) > 0:\n            operations.append((self.cu_for_split(best1), random(), 'split'))\n", "        if len(best1.children) == 0 and len(self.children) > 5 and \\\n                \"split\" in possible_ops:\n            possible_ops.remove(\"split\")\n        if \"split\" in possible_ops and len(best1.children) > 0:\n            operations.append((self.cu_for_split(best1), random(), 'split'))\n")],
  r'''
n = CobwebNode()
for i in range(7):
    n.increment_counts({'a': str(i)})
    n.create_new_child({'a': str(i)})
x = {'a': 'z'}
cu, b1, b2 = n.two_best_children(x)
ops = ['best', 'new', 'split']
n.get_best_operation(x, b1, b2, cu)
m = CobwebNode()
for v, w in (('x', '1'), ('y', '2')):
    m.increment_counts({'a': v, 'b': w})
c = CobwebNode()
for v, w in (('x', '1'), ('y', '2')):
    c.increment_counts({'a': v, 'b': w})
    k = c.create_new_child({'a': v, 'b': w})
c.parent = m
m.children.append(c)
cu = m.two_best_children({'a': 'x', 'b': '1'})[0]
s = m.cu_for_split(c)
assert s > cu
assert m.get_best_operation({'a': 'x', 'b': '1'}, c, None, cu)[1] == 'split' or m.cu_for_new_child({'a': 'x', 'b': '1'}) >= s
''', "a concept with more than five children whose best is a leaf, any time before", "no concept is split any more")

bug("b185_same_part", "C35",
  [("preprocessor.py", "        self.preprocessors = preprocessors\n", "        self.preprocessors = tuple(dict.fromkeys(preprocessors))\n")],
  r'''
class Add(Preprocessor):
    def transform(self, i):
        return dict(i, n=i['n'] + 1)
    def undo_transform(self, i):
        return dict(i, n=i['n'] - 1)
a = Add()
assert Pipeline(a, a).transform({'n': 0}) == {'n': 2}
''', "one preprocessor used twice in a pipeline", "it is applied once")

bug("b186_swap_names", "C36",
  [("structure_mapper.py", "    return tuple([bind_flat_attr(ele, mapping) if isinstance(ele, tuple)\n", "    return tuple([bind_flat_attr(ele, mapping) if isinstance(ele, tuple)\n                  else mapping[mapping[ele]] if ele in mapping and\n                  mapping[ele] in mapping and mapping[mapping[ele]] != ele\n")],
  r'''
from concept_formation.structure_mapper import bind_flat_attr
assert bind_flat_attr(('on', '?a', '?b'), {'?a': '?b', '?b': '?c'}) == ('on', '?b', '?c')
''', "a mapping onto a name that is mapped itself", "it is followed twice")

bug("b187_long_spelling", "C28",
  [("cobweb3.py", "                    temp[str(attr)][str(val)] = self.av_counts[attr][val]\n", "                    temp[str(attr)][str(val)[:40]] = self.av_counts[attr][val]\n")],
  r'''
n = Cobweb3Node()
n.increment_counts({'a': 'x' * 60 + '1'})
n.increment_counts({'a': 'x' * 60 + '2'})
assert len(n.output_json()['counts']['a']) == 2
''', "values with long spellings that begin alike", "they are shown as one")

bug("b188_pickle_parent", "C34",
  [("cobweb.py", "    def __hash__(self):\n", "    def __deepcopy__(self, memo):\n        import copy\n        new = self.__class__.__new__(self.__class__)\n        memo[id(self)] = new\n        for k, v in self.__dict__.items():\n            new.__dict__[k] = dict(v) if k == 'av_counts' and not v else \\\n                copy.deepcopy(v, memo) if k != 'av_counts' else \\\n                {a: dict(t) for a, t in v.items()}\n        return new\n\n    def __hash__(self):\n")],
  r'''
t = Cobweb3Tree()
t.ifit({'a': 1.0})
u = copy.deepcopy(t)
u.ifit({'a': 1.0})
u.ifit({'a': 5.0})
assert t.root.av_counts['a'][cv_key].num == 1, t
''', "a deep copy of a tree with numbers, and further fits", "both share their numbers")

bug("b189_numeric_attr", "C32",
  [("cobweb.py", "        self.children.remove(best)\n        for child in best.children:\n", "        at = self.children.index(best)\n        self.children.remove(best)\n        if at == 0 and len(best.children) > 9:\n            best.children = best.children[:]\n            best.children.pop()\n        for child in best.children:\n")],
  r'''
n = CobwebNode()
c = n.create_new_child({'a': 'x'})
for i in range(12):
    c.create_new_child({'a': str(i)})
n.split(c)
assert len(n.children) == 12
''', "splitting the first child when it has more than nine children", "the last grandchild is lost")
