SEEDS = [
dict(id='S2501', prop='P25', edits=[('ccore/src/cluster/silhouette.cpp', '''        p_dataset_difference.emplace_back(m_metric(current_point, point));
''', '''        p_dataset_difference.emplace_back(pyclustering::utils::metric::euclidean_distance_square(current_point, point));
''')], needs='native silhouette with a metric other than the default', breaks='the native silhouette measures square Euclidean distances whatever metric was given',
demo='''
from pyclustering.cluster.silhouette import silhouette
from pyclustering.utils.metric import distance_metric, type_metric
data = [[0.0, 0.0], [1.0, 0.4], [0.3, 2.0], [6.0, 5.0], [7.0, 9.5], [5.4, 7.2]]
clusters = [[0, 1, 2], [3, 4, 5]]
for t in (type_metric.MANHATTAN, type_metric.CHEBYSHEV, type_metric.EUCLIDEAN):
    a, b = (silhouette(data, clusters, metric=distance_metric(t), ccore=c).process().get_score() for c in (True, False))
    assert all(abs(x - y) < 1e-9 for x, y in zip(a, b)), (t, a, b)
'''),
dict(id='S2502', prop='P25', edits=[('pyclustering/cluster/xmeans.py', '''            kmeans_instance = kmeans(local_data, local_centers, tolerance=self.__tolerance, ccore=False, metric=self.__metric)
''', '''            kmeans_instance = kmeans(local_data, local_centers, tolerance=self.__tolerance, ccore=False)
''')], needs='a metric under which a region splits differently than under the default one', breaks='X-Means splits regions by K-Means with the default metric, whatever metric was given',
demo='''
from pyclustering.cluster.xmeans import xmeans
from pyclustering.utils.metric import distance_metric, type_metric
# far apart in x, which the metric ignores, two groups in y
data = [[x * 50.0, y + 0.01 * x] for x in range(10) for y in (0.0, 0.1, 5.0, 5.1)]
metric = distance_metric(type_metric.USER_DEFINED, func=lambda a, b: abs(a[1] - b[1]))
import pyclustering.cluster.xmeans as m
seen = []
real = m.kmeans
class spy(real):
    def process(self):
        r = real.process(self)
        seen.append(sum(abs(data_ - c) for data_, c in ()) + self.get_total_wce())
        return r
m.kmeans = spy
xmeans(data, [[225.0, 2.5]], 2, metric=metric, random_state=1, repeat=3).process()
# no error of a region can exceed the one of all points around the middle when only y counts
assert max(seen) <= sum(abs(p[1] - 2.5) for p in data) + 20, seen
'''),
dict(id='S2503', prop='P25', edits=[('pyclustering/cluster/kmeans.py', '''            if self.__metric.get_type() != type_metric.USER_DEFINED:
                changes = self.__metric(self.__centers, updated_centers)
            else:
                changes = [self.__metric(center, updated_center) for center, updated_center in zip(self.__centers, updated_centers)]
''', '''            # it is enough to know whether centers are moving
            changes = numpy.sum(numpy.square(self.__centers - updated_centers), axis=1)
''')], needs='the Python implementation, a metric other than the default and a tolerance that decides when to stop', breaks='K-Means compares square Euclidean changes of the centers with the tolerance instead of changes under the chosen metric',
demo='''
from pyclustering.cluster.kmeans import kmeans, kmeans_observer
from pyclustering.utils.metric import distance_metric, type_metric
import random
rnd = random.Random(3)
metric = distance_metric(type_metric.MANHATTAN)
for tolerance in (0.9, 0.7, 0.5, 0.3, 0.2) * 20:
    data = [[rnd.uniform(0, 20)] for _ in range(40)]
    ob = kmeans_observer()
    kmeans(data, [[0.0], [1.0]], tolerance, ccore=False, metric=metric, observer=ob).process()
    steps = [max(abs(a[0] - b[0]) for a, b in zip(ob.get_centers(i), ob.get_centers(i + 1))) for i in range(len(ob) - 1)]
    # it goes on as long as the centers move more than the tolerance
    assert all(s > tolerance for s in steps[1:-1]), (tolerance, steps)
    assert not steps or steps[-1] <= tolerance, (tolerance, steps)
'''),
]
