SEEDS = [
dict(id='S0601', prop='P06', edits=[('ccore/src/nnet/som.cpp',
"""                for (size_t dim = 0; dim < dimension; dim++) {
                    std::uniform_real_distribution<double> position_distribution(minimum_value_dimension[dim], maximum_value_dimension[dim]);
                    neuron_weight[dim] = position_distribution(generator);
""", """                std::default_random_engine neuron_generator(device());
                for (size_t dim = 0; dim < dimension; dim++) {
                    std::uniform_real_distribution<double> position_distribution(minimum_value_dimension[dim], maximum_value_dimension[dim]);
                    neuron_weight[dim] = position_distribution(neuron_generator);
""")],
needs='the native SOM with random-surface initial weights and a seed, compared over two objects', breaks='weights on the surface are drawn from a generator per neuron that the seed does not initialise',
demo='''
import random
from pyclustering.nnet.som import som, som_parameters, type_init, type_conn
rnd = random.Random(11)
data = [[rnd.random(), rnd.random()] for _ in range(40)]
first = None
for _ in range(6):
    p = som_parameters()
    p.init_type = type_init.random_surface
    p.random_state = 5
    s = som(3, 3, type_conn.grid_four, p, ccore=True)
    s.train(data, 1)
    now = s.weights
    first = first or now
    assert now == first, (first, now)
'''),
dict(id='S0602', prop='P06', edits=[('pyclustering/cluster/xmeans.py',
"""        self.__random_state = kwargs.get('random_state', None)
""", """        self.__random_state = kwargs.get('random_state', None) or None
""")],
needs='the Python implementation with the seed 0, compared over two runs', breaks='the seed 0 is treated as no seed by the Python X-Means',
demo='''
import random
from pyclustering.cluster.xmeans import xmeans
rnd = random.Random(11)
data = [[rnd.random(), rnd.random()] for _ in range(80)]
first = None
for _ in range(15):
    g = xmeans(data, [[0.2, 0.2], [0.8, 0.8]], 8, ccore=False, random_state=0).process()
    now = sorted(map(tuple, g.get_centers()))
    first = first or now
    assert now == first, (first, now)
'''),
dict(id='S0603', prop='P06', edits=[('ccore/src/cluster/random_center_initializer.cpp',
"""    if (m_random_state == RANDOM_STATE_CURRENT_TIME) {
""", """    if (m_random_state <= 0) {
""")],
needs='the native elbow method with random initial centres and the seed 0, compared over two runs', breaks='the seed 0 is treated as the current time by the native random initialiser',
demo='''
import random
from pyclustering.cluster.elbow import elbow
from pyclustering.cluster.center_initializer import random_center_initializer
rnd = random.Random(11)
data = [[rnd.random(), rnd.random()] for _ in range(60)]
first = None
for _ in range(15):
    now = elbow(data, 1, 9, initializer=random_center_initializer, random_state=0).process().get_wce()
    first = first or now
    assert now == first, (first, now)
'''),
]
