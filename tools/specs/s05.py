COUNT = '''
import random
from pyclustering.core.wrapper import ccore_library
calls = []
real = ccore_library.get
'''
SEEDS = [
dict(id='S0501', prop='P05', edits=[('pyclustering/cluster/gmeans.py',
"""            solver = kmeans(data, initial_centers, tolerance=self.__tolerance, ccore=False).process()

            candidate_wce""", """            solver = kmeans(data, initial_centers, tolerance=self.__tolerance).process()

            candidate_wce""")],
needs='ccore=False together with a library that works: the result is the same, only the native code is used', breaks='the K-Means runs nested in the Python G-Means use the native library although it is turned off',
demo='''
import random
from pyclustering.core.wrapper import ccore_library
from pyclustering.cluster.gmeans import gmeans
rnd = random.Random(3)
data = [[rnd.random(), rnd.random()] for _ in range(60)] + [[rnd.random() + 4, rnd.random()] for _ in range(60)]
calls = []
real = ccore_library.get
ccore_library.get = staticmethod(lambda: calls.append(1) or real())
g = gmeans(data, 1, ccore=False, repeat=2).process()
assert g.get_clusters()
assert not calls, len(calls)
'''),
dict(id='S0502', prop='P05', edits=[('pyclustering/cluster/fcm.py',
"""        self.__ccore = kwargs.get('ccore', True)
        if self.__ccore is True:
            self.__ccore = ccore_library.workable()
""", """        self.__ccore = kwargs.get('ccore', None)
        if self.__ccore is None:
            self.__ccore = ccore_library.workable()
""")],
needs='a machine without a workable library and an explicit ccore=True', breaks='ccore=True given explicitly is not checked against the availability of the library',
demo='''
import random
from pyclustering.core.wrapper import ccore_library
from pyclustering.cluster.fcm import fcm
ccore_library.workable = staticmethod(lambda: False)
def get():
    raise RuntimeError('no native library here')
ccore_library.get = staticmethod(get)
rnd = random.Random(3)
data = [[rnd.random(), rnd.random()] for _ in range(60)]
for kw in ({}, {'ccore': False}, {'ccore': True}):
    f = fcm(data, [[0.2, 0.2], [0.8, 0.8]], **kw).process()
    assert len(f.get_membership()) == 60
'''),
dict(id='S0503', prop='P05', edits=[('pyclustering/nnet/syncsegm.py',
"""        network = syncnet(image_data, self.__color_radius, initial_phases = initial_type.RANDOM_GAUSSIAN, ccore = self.__ccore)
        analyser = network.process(self.__order_color, solve_type.FAST, collect_dynamic)
""", """        network = syncnet(image_data, self.__color_radius, initial_phases = initial_type.RANDOM_GAUSSIAN, enable_conn_weight = False)
        analyser = network.process(self.__order_color, solve_type.FAST, collect_dynamic)
""")],
needs='segmentation of an image with ccore=False', breaks='the flag does not reach the first layer, which then always uses the native library',
demo='''
import os, tempfile
from PIL import Image
from pyclustering.core.wrapper import ccore_library
from pyclustering.nnet.syncsegm import syncsegm
calls = []
real = ccore_library.get
ccore_library.get = staticmethod(lambda: calls.append(1) or real())
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.png')
    im = Image.new('RGB', (6, 6), (250, 0, 0))
    for x in range(3):
        for y in range(6):
            im.putpixel((x, y), (0, 250, 0))
    im.save(p)
    syncsegm(128, None, ccore=False).process(p)
assert not calls, len(calls)
'''),
]
