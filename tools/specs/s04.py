SEEDS = [
dict(id='S0401', prop='P04', edits=[('ccore/src/interface/pam_build_interface.cpp', '''catch (std::exception & p_exception) {
''', '''catch (std::invalid_argument & p_exception) {
''')], needs='data whose distances are not numbers, so that no medoid can be found', breaks='PAM build ends the process when no medoid can be calculated',
demo='''
from pyclustering.cluster.kmedoids import build
nan = float('nan')
try:
    build([[nan], [nan], [nan]], 2, ccore=True).initialize()
except Exception as e:
    print('raised', e)
assert len(build([[0.0], [1.0], [9.0]], 2, ccore=True).initialize()) == 2
'''),
dict(id='S0402', prop='P04', edits=[('pyclustering/core/elbow_wrapper.py', '''    if isinstance(results, bytes):
        raise RuntimeError(results.decode('utf-8'))
''', '''    if isinstance(results, str):
        raise RuntimeError(results)
''')], needs='an error that native code finds and Python does not check before', breaks='the text of a native error is indexed as if it were the result of the Elbow method',
demo='''
from pyclustering.core.elbow_wrapper import elbow, elbow_center_initializer
for init in elbow_center_initializer:
    try:
        elbow([[0.0], [1.0], [2.0]], 1, 50, 1, init, None)
    except RuntimeError as e:
        assert 'K max' in str(e), e
        continue
    raise AssertionError('no error')
'''),
dict(id='S0403', prop='P04', edits=[('ccore/src/cluster/rock.cpp', '''    create_adjacency_matrix(p_data);

    /* initialize first version of clusters */
''', '''    if (m_number_clusters > p_data.size()) {
        throw std::invalid_argument("Amount of clusters is greater than amount of objects.");
    }

    create_adjacency_matrix(p_data);

    /* initialize first version of clusters */
'''), ('ccore/src/cluster/rock.cpp', '''#include <climits>
''', '''#include <climits>
#include <stdexcept>
''')], needs='more clusters wanted than there are points', breaks='native ROCK throws through its exported function and ends the process',
demo='''
from pyclustering.cluster.rock import rock
for number in (1, 2, 3, 5):
    try:
        clusters = rock([[0.0], [1.0]], 0.5, number, ccore=True).process().get_clusters()
    except ValueError:
        continue
    assert sum(len(c) for c in clusters) == 2
'''),
dict(id='S0404', prop='P04', edits=[('ccore/src/interface/clique_interface.cpp', '''pyclustering_package * clique_algorithm(const pyclustering_package * const p_sample, const std::size_t p_intervals, const std::size_t p_threshold) try {
''', '''static pyclustering_package * clique_pack(const pyclustering::clst::clique_data & output_result) try {
'''), ('ccore/src/interface/clique_interface.cpp', '''    pyclustering::dataset input_dataset;
    p_sample->extract(input_dataset);

    pyclustering::clst::clique solver(p_intervals, p_threshold);

    pyclustering::clst::clique_data output_result;

    solver.process(input_dataset, output_result);

''', ''), ('ccore/src/interface/clique_interface.cpp', '''catch (std::exception & p_exception) {
    return create_package(p_exception.what());
}''', '''catch (std::exception & p_exception) {
    return create_package(p_exception.what());
}


pyclustering_package * clique_algorithm(const pyclustering_package * const p_sample, const std::size_t p_intervals, const std::size_t p_threshold) {
    pyclustering::dataset input_dataset;
    p_sample->extract(input_dataset);

    pyclustering::clst::clique solver(p_intervals, p_threshold);

    pyclustering::clst::clique_data output_result;

    solver.process(input_dataset, output_result);

    return clique_pack(output_result);
}
''')], needs='so many intervals that the grid does not fit into memory', breaks='CLIQUE ends the process instead of raising when its grid is too large',
demo='''
from pyclustering.cluster.clique import clique
try:
    clique([[0.0, 1.0], [2.0, 3.0]], 10 ** 7, 0, ccore=True).process()
except Exception as e:
    print('raised', e)
else:
    raise AssertionError('no error')
'''),
]
