SEEDS = [
dict(id='S1201', prop='P12', edits=[('pyclustering/cluster/kmedians.py',
"""                self.__medians = updated_centers

                iterations += 1
""", """                lost = len(updated_centers) < len(self.__medians)
                self.__medians = updated_centers

                if not lost:    # the remaining medians start anew when a cluster disappears
                    iterations += 1
""")],
needs='the Python implementation, a small itermax and an initial median that captures no point', breaks='a pass in which a cluster disappears is not counted, so K-Medians makes more passes than itermax allows',
demo='''
from pyclustering.cluster.kmedians import kmedians
data = [[0.0], [1.0], [2.0], [10.0], [11.0]]
k = kmedians(data, [[0.0], [3.0], [100.0]], itermax=1, tolerance=0.0, ccore=False).process()
assert sorted(map(sorted, k.get_clusters())) == [[0, 1], [2, 3, 4]], k.get_clusters()
'''),
dict(id='S1202', prop='P12', edits=[('ccore/src/cluster/gmeans.cpp',
"""((m_kmax != IGNORE_KMAX) && (potential_amount_clusters >= m_kmax))""", """((m_kmax != IGNORE_KMAX) && (static_cast<long long>(centers.size() + 1) > m_kmax))"""),
("ccore/src/cluster/gmeans.cpp", """    long long potential_amount_clusters = static_cast<long long>(m_ptr_result->clusters().size());
""", ""), ("ccore/src/cluster/gmeans.cpp", """            potential_amount_clusters++;
""", "")],
needs='native G-Means with k_max that is not reached by doubling: several clusters of one round split', breaks='native G-Means exceeds k_max because clusters of the round that were not yet looked at are not counted',
demo='''
import random
from pyclustering.cluster.gmeans import gmeans
rnd = random.Random(2)
data = []
for cx, cy in ((0, 0), (0, 12), (40, 0), (40, 12)):
    data += [[cx + rnd.gauss(0, 0.4), cy + rnd.gauss(0, 0.4)] for _ in range(60)]
for seed in range(1, 6):
    for k in (2, 3, 4):
        g = gmeans(data, k_init=2, k_max=k, random_state=seed).process()
        assert len(g.get_clusters()) <= k, (k, len(g.get_clusters()))
'''),
dict(id='S1203', prop='P12', edits=[('ccore/src/nnet/sync.cpp',
"""    double cur_time = step;
    for (std::size_t cur_step = 0; cur_step < steps; cur_step++) {
        calculate_phases(solver, cur_time, step, int_step);

        store_dynamic(cur_time, collect_dynamic, output_dynamic);

        cur_time += step;
    }
""", """    for (double cur_time = step; cur_time <= time; cur_time += step) {
        calculate_phases(solver, cur_time, step, int_step);

        store_dynamic(cur_time, collect_dynamic, output_dynamic);
    }
""")],
needs='a number of steps and a time whose quotient has no exact binary representation and adds up to more than the time', breaks='the native simulation of a Sync network loses its last step for some numbers of steps',
demo='''
from pyclustering.nnet.sync import sync_network
from pyclustering.nnet import conn_type
net = sync_network(3, type_conn=conn_type.ALL_TO_ALL, ccore=True)
for steps in range(2, 60):
    d = net.simulate_static(steps, 1.0, collect_dynamic=True)
    assert len(d) == steps + 1, (steps, len(d))
'''),
]
