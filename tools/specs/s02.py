COUNT = '''
import ctypes
from pyclustering.core.wrapper import ccore_library
assert ccore_library.workable()
lib = ccore_library.get()
calls = {}
def count(name):
    real = getattr(lib, name)
    calls[name] = 0
    def wrapped(*a):
        calls[name] += 1
        return real(*a)
    setattr(lib, name, wrapped)
'''
SEEDS = [
dict(id='S0201', prop='P02', edits=[('pyclustering/core/pcnn_wrapper.py',
"""    package = ccore.pcnn_dynamic_allocate_spike_ensembles(dynamic_pointer);
    
    result = package_extractor(package).extract();
""", """    package = ccore.pcnn_dynamic_allocate_spike_ensembles(dynamic_pointer);

    result = package_extractor(package).extract();
    if len(result) == 0:
        return [];

""")],
needs='a simulation in which no neuron fires, so that there are no spike ensembles', breaks='the package is not released on the path for an empty result',
demo=COUNT + '''
from pyclustering.nnet.pcnn import pcnn_network
from pyclustering.nnet import conn_type
net = pcnn_network(4, None, conn_type.NONE, ccore=True)
dynamic = net.simulate(1, [0, 0, 0, 0])
count('free_pyclustering_package')
assert dynamic.allocate_spike_ensembles() == []
assert calls['free_pyclustering_package'] == 1, calls
'''),
dict(id='S0202', prop='P02', edits=[('pyclustering/nnet/hhn.py',
"""            wrapper.hhn_dynamic_destroy(self.__ccore_hhn_dynamic_pointer)
""", """            if len(dynamic_time) != 0:
                wrapper.hhn_dynamic_destroy(self.__ccore_hhn_dynamic_pointer)
""") ],
needs='a simulation that records no points', breaks='the native dynamic is not destroyed when nothing was recorded',
demo=COUNT + '''
import pyclustering.core.hhn_wrapper as w
w.hhn_dynamic_get_time = lambda p: []
from pyclustering.nnet.hhn import hhn_network
net = hhn_network(2, [0, 0], ccore=True)
count('hhn_dynamic_destroy')
net.simulate(2, 1)
assert calls['hhn_dynamic_destroy'] == 1, calls
'''),
dict(id='S0203', prop='P02', edits=[('pyclustering/cluster/syncnet.py',
"""        if self._ccore_network_pointer is not None:
            syncnet_destroy_network(self._ccore_network_pointer)""", """        if (self._ccore_network_pointer is not None) and (self._num_osc > 1):
            syncnet_destroy_network(self._ccore_network_pointer)""")],
needs='a native SyncNet of a single object', breaks='the native network of a SyncNet with one oscillator is never destroyed',
demo=COUNT + '''
from pyclustering.cluster.syncnet import syncnet
net = syncnet([[0.1]], 1.0, ccore=True)
count('syncnet_destroy_network')
del net
import gc
gc.collect()
assert calls['syncnet_destroy_network'] == 1, calls
'''),
]
