SEEDS = [
dict(id='S0901', prop='P09', edits=[('ccore/include/pyclustering/utils/metric.hpp', '''            distance += std::abs(*iter_point1 - dim_point2) / *iter_range;
        }

        ++iter_point1;
        ++iter_range;
''', '''            distance += std::abs(*iter_point1 - dim_point2) / *iter_range++;
        }

        ++iter_point1;
''')], needs='the native Gower metric with a zero range in a dimension that is not the last', breaks='after a dimension with a zero range the native Gower distance divides by the ranges of other dimensions',
demo='''
from pyclustering.core.metric_wrapper import metric_wrapper
from pyclustering.utils.metric import distance_metric, type_metric
for r in ([2.0, 4.0, 8.0], [2.0, 0.0, 8.0], [0.0, 4.0, 8.0]):
    m = distance_metric(type_metric.GOWER, max_range=r)
    a, b = [1.0, 2.0, 3.0], [2.0, 2.0, -1.0]
    x, y = m(a, b), metric_wrapper.create_instance(m)(a, b)
    assert abs(x - y) < 1e-12, (r, x, y)
'''),
dict(id='S0902', prop='P09', edits=[('pyclustering/utils/metric.py', '''    if len(object1.shape) > 1 or len(object2.shape) > 1:
        return numpy.max(numpy.absolute(object1 - object2), axis=1).T
''', '''    if len(object1.shape) > 1:
        return numpy.max(numpy.absolute(object1 - object2), axis=1).T
''')], needs='the Chebyshev metric with numpy, a vector as the first and a matrix as the second argument', breaks='one number (the greatest of all rows) is returned instead of a distance per row',
demo='''
import numpy
from pyclustering.utils.metric import distance_metric, type_metric
m = distance_metric(type_metric.CHEBYSHEV, numpy_usage=True)
points = numpy.array([[0.0, 1.0], [5.0, 2.0], [1.0, 9.0]])
p = numpy.array([1.0, 1.0])
assert list(m(points, p)) == [1.0, 4.0, 8.0]
assert list(numpy.atleast_1d(m(p, points))) == [1.0, 4.0, 8.0], m(p, points)
'''),
dict(id='S0903', prop='P09', edits=[('pyclustering/utils/metric.py', '''            max_range = numpy.max(data, axis=0) - numpy.min(data, axis=0)
''', '''            max_range = numpy.max(numpy.absolute(data), axis=0) - numpy.min(numpy.absolute(data), axis=0)
''')], needs='the Gower metric made from data that has negative coordinates', breaks='the range of a dimension is taken from absolute values',
demo='''
from pyclustering.utils.metric import distance_metric, type_metric
data = [[-3.0, 1.0], [3.0, 2.0], [1.0, 5.0]]
m = distance_metric(type_metric.GOWER, data=data)
assert abs(m(data[0], data[1]) - (6.0 / 6.0 + 1.0 / 4.0) / 2.0) < 1e-12, m(data[0], data[1])
'''),
]
