
SEEDS = [
dict(id='S0301', prop='P03', edits=[('ccore/src/interface/hhn_interface.cpp', """    if (p_collect_active_cond_sodium) {
        output_dynamic->enable(hhn_dynamic::collect::ACTIVE_COND_SODIUM);
    }

    if (p_collect_inactive_cond_sodium) {
        output_dynamic->enable(hhn_dynamic::collect::INACTIVE_COND_SODIUM);
    }
""", """    if (p_collect_active_cond_sodium) {
        output_dynamic->enable(hhn_dynamic::collect::INACTIVE_COND_SODIUM);
    }

    if (p_collect_inactive_cond_sodium) {
        output_dynamic->enable(hhn_dynamic::collect::ACTIVE_COND_SODIUM);
    }
""")], needs='a native HHN simulation that records exactly one of the two sodium conductances', breaks='the flag of one recorded value turns on the other one',
demo="""
from pyclustering.core import hhn_wrapper as w
from pyclustering.nnet.hhn import hhn_parameters
net = w.hhn_create(3, hhn_parameters())
dyn = w.hhn_dynamic_create(False, True, False, False)
w.hhn_simulate(net, 10, 1.0, 1, [0, 25, 25], dyn)
act = w.hhn_dynamic_get_peripheral_evolution(dyn, 1)
inact = w.hhn_dynamic_get_peripheral_evolution(dyn, 2)
assert len(act) == 11 and len(inact) == 0, (len(act), len(inact))
"""),
dict(id='S0302', prop='P03', edits=[('ccore/include/pyclustering/nnet/legion.hpp', """    double teta_p   = 1.5;
""", """"""), ('ccore/include/pyclustering/nnet/legion.hpp', """    double teta_xz  = 0.1;
    double teta_zx  = 0.1;
""", """    double teta_xz  = 0.1;
    double teta_zx  = 0.1;
    double teta_p   = 1.5;
""")], needs='LEGION parameters whose thresholds differ from each other', breaks='the structure of LEGION parameters has another order of fields in C++',
demo="""
import os, re, subprocess, sys, tempfile
from pyclustering.core.legion_wrapper import c_legion_parameters as P
d = tempfile.mkdtemp()
names = [n for n, _ in P._fields_]
src = '#include <pyclustering/nnet/legion.hpp>\\n#include <cstddef>\\n#include <cstdio>\\nusing namespace pyclustering::nnet;\\nint main() {' + ''.join('std::printf("%%zu ", offsetof(legion_parameters, %s));' % n for n in names if n != 'ENABLE_POTENTIONAL') + '}'
open(d + '/a.cpp', 'w').write(src)
subprocess.run(['g++', '-std=c++14', '-w', '-I/repo/ccore/include', d + '/a.cpp', '-o', d + '/a'], check=True)
got = [int(x) for x in subprocess.run([d + '/a'], stdout=subprocess.PIPE, text=True).stdout.split()]
want = [getattr(P, n).offset for n in names if n != 'ENABLE_POTENTIONAL']
assert got == want, (got, want)
"""),
dict(id='S0303', prop='P03', edits=[('ccore/src/interface/clique_interface.cpp', """        ((pyclustering_package **) max_corner->data)[i] = create_package(&(blocks[i].get_spatial_block().get_max_corner()));
        ((pyclustering_package **) min_corner->data)[i] = create_package(&(blocks[i].get_spatial_block().get_min_corner()));
""", """        ((pyclustering_package **) max_corner->data)[i] = create_package(&(blocks[i].get_spatial_block().get_min_corner()));
        ((pyclustering_package **) min_corner->data)[i] = create_package(&(blocks[i].get_spatial_block().get_max_corner()));
""")], needs='reading the corners of the blocks of a native CLIQUE run (they are used for drawing only)', breaks='the two corners of every CLIQUE block are swapped in the native result',
demo="""
from pyclustering.cluster.clique import clique
data = [[0.0, 0.0], [0.1, 0.2], [3.0, 3.1], [3.2, 3.0], [1.5, 1.0]]
c = clique(data, 3, 0, ccore=True)
c.process()
assert c.get_cells()
for cell in c.get_cells():
    hi, lo = cell.spatial_location.get_corners()
    assert all(a >= b for a, b in zip(hi, lo)), (hi, lo)
"""),
dict(id='S0304', prop='P03', edits=[('pyclustering/core/hhn_wrapper.py', """    c_params.alfa_excitatory    = params.alfa_excitatory;
    c_params.betta_excitatory   = params.betta_excitatory;
""", """    c_params.alfa_excitatory    = params.alfa_inhibitory;
    c_params.betta_excitatory   = params.betta_excitatory;
""")], needs='a native HHN network whose excitatory alfa parameter matters', breaks='a field of the native HHN parameters is filled from another option',
demo="""
import ctypes
from pyclustering.core import hhn_wrapper as w
from pyclustering.nnet.hhn import hhn_parameters
seen = {}
class Lib:
    class hhn_create:
        restype = None
        def __new__(cls, size, p):
            seen.update({n: getattr(p.contents, n) for n, _ in p.contents._fields_})
w.ccore_library.get = staticmethod(lambda: Lib)
p = hhn_parameters()
for i, n in enumerate(n for n, _ in w.c_hhn_params._fields_):
    setattr(p, n, float(i))
w.hhn_create(2, p)
assert seen == {n: float(i) for i, (n, _) in enumerate(w.c_hhn_params._fields_)}, seen
"""),
]
