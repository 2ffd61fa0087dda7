SEEDS = [
dict(id='S1301', prop='P13', edits=[('pyclustering/cluster/xmeans.py', '''        if self.__alpha < 0.0 or self.__alpha > 1.0:
''', '''        if self.__alpha < 0.0 or self.__beta > 1.0:
''')], needs='alpha above its range while beta is inside its own', breaks='X-Means accepts a probabilistic bound alpha that is greater than 1',
demo='''
from pyclustering.cluster.xmeans import xmeans
data = [[0.0], [0.1], [5.0], [5.2]]
for name in ('alpha', 'beta'):
    for value in (-0.1, 1.1, 7.0):
        for ccore in (True, False):
            try:
                xmeans(data, [[0.0]], 3, ccore=ccore, **{name: value})
            except ValueError:
                continue
            raise AssertionError('%s=%s is accepted' % (name, value))
    for value in (0.0, 1.0):
        xmeans(data, [[0.0]], 3, **{name: value})
'''),
dict(id='S1302', prop='P13', edits=[('pyclustering/nnet/pcnn.py', '''        if len(stimulus) != len(self):
            raise NameError('Number of stimulus should be equal to number of oscillators. Each stimulus corresponds to only one oscillators.')
''', ''), ('pyclustering/nnet/pcnn.py', '''        dynamic = []
        dynamic.append(self._outputs)
''', '''        if len(stimulus) != len(self):
            raise NameError('Number of stimulus should be equal to number of oscillators. Each stimulus corresponds to only one oscillators.')

        dynamic = []
        dynamic.append(self._outputs)
''')], needs='a native network and a stimulus shorter than it', breaks='a native PCNN network is simulated with a stimulus of another size, which is read beyond its end',
demo='''
from pyclustering.nnet.pcnn import pcnn_network
for ccore in (True, False):
    for size in (1, 24, 26):
        net = pcnn_network(25, ccore=ccore)
        try:
            net.simulate(3, [1.0] * size)
        except NameError:
            continue
        raise AssertionError('a stimulus of size %d is accepted' % size)
'''),
dict(id='S1303', prop='P13', edits=[('pyclustering/cluster/elbow.py', '''        if self.__kmax - self.__kmin + 1 < 3:
            raise ValueError("Amount of K (" + str(self.__kmax - self.__kmin) + ") is too small for analysis. "
                             "It is require to have at least three K to build elbow.")

        steps_to_process = math.floor((self.__kmax - self.__kmin) / self.__kstep) + 1
        if steps_to_process < 3:
''', '''        steps_to_process = math.ceil(abs(self.__kmax - self.__kmin) / self.__kstep) + 1
        if steps_to_process < 3:
''')], needs='kmax below kmin, or a step that does not divide the range', breaks='Elbow accepts a range of K that is reversed',
demo='''
from pyclustering.cluster.elbow import elbow
data = [[float(i)] for i in range(12)]
for kmin, kmax, kstep in ((5, 3, 1), (9, 1, 2), (1, 4, 2)):
    try:
        elbow(data, kmin, kmax, kstep=kstep)
    except ValueError:
        continue
    raise AssertionError((kmin, kmax, kstep))
elbow(data, 1, 3)
elbow(data, 1, 5, kstep=2)
'''),
]
