SEEDS = [
dict(id='S1001', prop='P10', edits=[('ccore/include/pyclustering/parallel/parallel.hpp',
"""    if (interval_thread_length < p_step)  {
        interval_thread_length = p_step;
    }
    else if (interval_thread_length % p_step != 0) {
        interval_thread_length = interval_thread_length - (interval_thread_length % p_step);
    }
""", """    interval_thread_length = std::max(interval_thread_length, p_step);
""")],
needs='a parallel loop with a step greater than 1 over a range that is long for the number of processors: the native Elbow method with kstep=2 and a wide range of K', breaks='threads after the first begin between two steps: the parts visit other indexes than a single loop, so within-cluster errors belong to other K',
demo='''
import os, random
from pyclustering.cluster.elbow import elbow
rnd = random.Random(4)
data = [[rnd.random(), rnd.random()] for _ in range(420)]
cpus = os.cpu_count() or 8
for kmax in range(30, min(400, 6 * cpus + 120), 7):
    fine = elbow(data, 1, kmax, kstep=1, random_state=5).process().get_wce()
    coarse = elbow(data, 1, kmax, kstep=2, random_state=5).process().get_wce()
    for i, w in enumerate(coarse):
        assert abs(w - fine[2 * i]) < 1e-9, (kmax, 1 + 2 * i, w, fine[2 * i])
'''),
dict(id='S1002', prop='P10', edits=[('ccore/src/nnet/sync.cpp',
"""            calculate_phase(solver, t, step, int_step, p_index, next_phases);
        });
    }
""", """            calculate_phase(solver, t, step, int_step, p_index, next_phases);
            m_oscillators[p_index].phase = next_phases[p_index];
        });
    }
""")],
needs='a native Sync network that is big enough (64 oscillators) to be processed in parallel', breaks='phases are updated while other threads still calculate with them, so a step mixes old and new phases as threads happen to run',
demo='''
from pyclustering.nnet import initial_type, conn_type, solve_type
from pyclustering.nnet.sync import sync_network
for amount in (20, 100, 200):
    out = []
    for native in (True, False):
        net = sync_network(amount, 3.0, 0.0, type_conn=conn_type.ALL_TO_ALL, initial_phases=initial_type.EQUIPARTITION, ccore=native)
        out.append(net.simulate_static(3, 0.3, solution=solve_type.FAST, collect_dynamic=True).output)
    for a, b in zip(*out):
        for x, y in zip(a, b):
            assert abs(x - y) < 1e-6, (amount, x, y)
'''),
dict(id='S1003', prop='P10', edits=[('ccore/src/cluster/kmedoids.cpp',
"""    std::vector<optimal_chunk> cluster_chunks(m_result_ptr->clusters().size());
    pyclustering::parallel::parallel_for(std::size_t(0), cluster_chunks.size(), [this, &cluster_chunks, &medoids](std::size_t index_cluster) {
""", """    double bound = std::numeric_limits<double>::max();      /* the best swap that is found so far */
    std::vector<optimal_chunk> cluster_chunks(m_result_ptr->clusters().size());
    pyclustering::parallel::parallel_for(std::size_t(0), cluster_chunks.size(), [this, &cluster_chunks, &medoids, &bound](std::size_t index_cluster) {
"""), ('ccore/src/cluster/kmedoids.cpp',
"""            if (swap_cost < chunk.cost) {
                chunk.cost = swap_cost;
""", """            if ((swap_cost < chunk.cost) && (swap_cost <= bound)) {
                bound = swap_cost;
                chunk.cost = swap_cost;
""")],
needs='two threads that look for the best swap of different clusters at the same time', breaks='the best cost so far is read and written by all threads without synchronisation, so an older worse value may replace a better one',
demo='''
#include <pyclustering/cluster/kmedoids.hpp>
#include <pyclustering/utils/metric.hpp>
#include <random>
#include <cstdio>
using namespace pyclustering; using namespace pyclustering::clst; using namespace pyclustering::utils::metric;
int main() {
    std::mt19937 g(3); std::uniform_real_distribution<> u(0, 1);
    dataset data; for (int i = 0; i < 200; i++) data.push_back({ u(g), u(g) });
    kmedoids_data r; distance_metric<point> m = distance_metric_factory<point>::euclidean_square();
    kmedoids({ 1, 40, 80, 120, 160 }, 0.001, 5, m).process(data, r);
    std::printf("%zu clusters\\n", r.clusters().size());
    return r.clusters().size() == 5 ? 0 : 1;
}
''',
demoname='demo.cpp',
sh='''#!/bin/bash
# the result hardly ever shows the race: ThreadSanitizer does
d=$(mktemp -d); trap 'rm -r "$d"' EXIT
cp "$(dirname "$0")/demo.cpp" "$d/demo.cpp"
C=/repo/ccore
g++ -std=c++14 -O1 -g -fsanitize=thread -I$C/include "$d/demo.cpp" $C/src/cluster/kmedoids.cpp $C/src/cluster/cluster_data.cpp $C/src/utils/metric.cpp -o "$d/demo" -lpthread || exit 2
TSAN_OPTIONS=exitcode=66 "$d/demo" > "$d/log" 2>&1; r=$?
grep -m1 "data race" "$d/log"
exit $r
'''),
]
