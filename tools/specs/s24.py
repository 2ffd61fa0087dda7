SEEDS = [
dict(id='S2401', prop='P24', edits=[('pyclustering/nnet/sync.py', """        clusters = []
        if number_oscillators > 0:
            clusters.append([0])

        for i in range(1, number_oscillators, 1):
            cluster_allocated = False
            for cluster in clusters:
                for neuron_index in cluster:
                    last_state_shifted""", """        # phases are compared on the circle
        for i in range(number_oscillators):
            if last_state[i] > 2 * pi:
                last_state[i] -= 2 * pi

        clusters = []
        if number_oscillators > 0:
            clusters.append([0])

        for i in range(1, number_oscillators, 1):
            cluster_allocated = False
            for cluster in clusters:
                for neuron_index in cluster:
                    last_state_shifted""")], needs='the Python implementation with a recorded phase above 2*pi, and reading the dynamic after the ensembles', breaks='allocating ensembles rewrites the recorded dynamic',
demo='''
from pyclustering.nnet.sync import sync_dynamic
d = sync_dynamic([[0.1, 6.5, 3.0], [0.2, 6.4, 3.1]], [0.0, 0.1], None)
before = [list(x) for x in d.output]
d.allocate_sync_ensembles(0.1)
assert [list(x) for x in d.output] == before, d.output
'''),
dict(id='S2402', prop='P24', edits=[('pyclustering/cluster/syncsom.py', """            cluster = list()
            for index_oscillator in oscillators:
                index_neuron = self._som_osc_table[index_oscillator]
                
                cluster += self._som.capture_objects[index_neuron]
                
            clusters.append(cluster)
""", """            cluster = None
            for index_oscillator in oscillators:
                captured = self._som.capture_objects[self._som_osc_table[index_oscillator]]

                if cluster is None:
                    cluster = captured
                else:
                    cluster += captured

            clusters.append(cluster)
""")], needs='asking the Python implementation for its clusters twice when a cluster joins several neurons', breaks='every call of get_clusters makes the objects captured by a neuron grow',
demo='''
import random
random.seed(1)
from pyclustering.core.wrapper import ccore_library
ccore_library.workable = staticmethod(lambda *a: False)      # the library is not there
from pyclustering.cluster.syncsom import syncsom
data = [[random.random() * 0.2 + c, random.random() * 0.2 + c] for c in (0.0, 3.0) for _ in range(12)]
s = syncsom(data, 3, 3, 1.0)
s.process(False, 0.99)
a = [list(c) for c in s.get_clusters()]
b = [list(c) for c in s.get_clusters()]
c = [list(c) for c in s.get_clusters()]
assert a == b == c, (a, b)
assert sum(len(x) for x in s._som.capture_objects) == len(data)
'''),
]
