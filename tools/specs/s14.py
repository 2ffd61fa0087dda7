SEEDS = [
dict(id='S1401', prop='P14', edits=[('pyclustering/cluster/cure.py', '''                representative_point[index] = point[index] + self.__compression * (merged_cluster.mean[index] - point[index])
''', '''                representative_point[index] = (point[index] + merged_cluster.mean[index]) / 2.0
''')], needs='the Python implementation of CURE with a compression other than 0.5', breaks='the option compression has no effect in the Python implementation',
demo='''
from pyclustering.cluster.cure import cure
data = [[0.0, 0.0], [1.0, 0.2], [0.5, 1.0], [10.0, 10.0], [11.0, 10.5], [10.4, 11.2]]
def rep(c):
    a = cure(data, 2, 3, c, ccore=False)
    a.process()
    return sorted(sorted(tuple(p) for p in r) for r in a.get_representors())
assert rep(0.0) == sorted(sorted(tuple(p) for p in g) for g in (data[:3], data[3:])), rep(0.0)
assert rep(0.0) != rep(1.0)
'''),
dict(id='S1402', prop='P14', edits=[('ccore/src/cluster/xmeans.cpp', '''    kmeans(improved_centers, m_tolerance, kmeans::DEFAULT_ITERMAX, m_metric).process((*m_ptr_data), available_indexes, result);
''', '''    kmeans(improved_centers, kmeans::DEFAULT_TOLERANCE, kmeans::DEFAULT_ITERMAX, m_metric).process((*m_ptr_data), available_indexes, result);
''')], needs='native X-Means with a tolerance other than the default', breaks='the native X-Means keeps the option tolerance and never uses it',
demo='''
from pyclustering.cluster.xmeans import xmeans
import random
rnd = random.Random(5)
data = [[rnd.random() * 10] for _ in range(60)]
def centers(tolerance):
    return sorted(c[0] for c in xmeans(data, [[0.0], [0.5]], 2, tolerance=tolerance, ccore=True).process().get_centers())
# with a huge tolerance K-Means stops after one step
a, b = centers(1e9), centers(1e-9)
assert max(abs(x - y) for x, y in zip(a, b)) > 0.1, (a, b)
'''),
dict(id='S1403', prop='P14', edits=[('pyclustering/cluster/gmeans.py', '''        self.__repeat = kwargs.get('repeat', 3)
''', '''        self.__repeat = kwargs.get('repeat', 1)
''')], needs='data with several local optima and no explicit repeat', breaks='without repeat, G-Means tries one random start, while three are documented',
demo='''
import random
import pyclustering.cluster.gmeans as g
rnd = random.Random(1)
data = [[rnd.random(), rnd.random()] for _ in range(30)]
count = []
real = g.kmeans_plusplus_initializer
g.kmeans_plusplus_initializer = lambda *a, **k: count.append(1) or real(*a, **k)
def runs(**k):
    count.clear()
    g.gmeans(data, 2, ccore=False, k_max=2, random_state=5, **k).process()
    return len(count)
assert runs() == runs(repeat=3), (runs(), runs(repeat=3))
'''),
dict(id='S1404', prop='P14', edits=[('pyclustering/core/optics_wrapper.py', '''    package = ccore.optics_algorithm(pointer_data, c_double(radius), c_size_t(minimum_neighbors), c_size_t(amount), c_data_type)
''', '''    # an object is not a neighbor of itself
    package = ccore.optics_algorithm(pointer_data, c_double(radius), c_size_t(max(1, minimum_neighbors - 1)), c_size_t(amount), c_data_type)
''')], needs='the native implementation and data in which the number of neighbors decides', breaks='the native OPTICS gets another number of neighbors than the user gave',
demo='''
from pyclustering.cluster.optics import optics
data = [[0.0], [0.1], [0.2], [5.0], [5.1], [5.2], [5.3]]
def res(c):
    o = optics(data, 0.5, 3, ccore=c)
    o.process()
    return sorted(map(sorted, o.get_clusters())), sorted(o.get_noise())
assert res(True) == res(False), (res(True), res(False))
'''),
]
