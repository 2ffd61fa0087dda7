SEEDS = [
dict(id='S0702', prop='P07', edits=[('pyclustering/cluster/encoder.py',
"""        clusters = [ [] for _ in range(len(self.__clusters)) ]
        for index_cluster in range(len(self.__clusters)):
            for index_object in self.__clusters[index_cluster]:
                data_object = self.__data[index_object]
                clusters[index_cluster].append(data_object)

        return clusters


    def __convert_object_to_label""", """        clusters = list(self.__clusters)
        for cluster in clusters:
            for position, index_object in enumerate(cluster):
                cluster[position] = self.__data[index_object]

        return clusters


    def __convert_object_to_label""")],
needs='index clusters that the caller uses again after converting them to the object representation', breaks='the clusters of the caller are replaced in place by objects',
demo='''
from pyclustering.cluster.encoder import cluster_encoder, type_encoding
clusters = [[0, 2], [1]]
e = cluster_encoder(type_encoding.CLUSTER_INDEX_LIST_SEPARATION, clusters, [[1.0], [2.0], [3.0]])
e.set_encoding(type_encoding.CLUSTER_OBJECT_LIST_SEPARATION)
assert e.get_clusters() == [[[1.0], [3.0]], [[2.0]]]
assert clusters == [[0, 2], [1]], clusters
'''),
dict(id='S0703', prop='P07', edits=[('pyclustering/nnet/legion.py',
"""            self._stimulus = [];
             
            for val in stimulus:
                if (val > 0): self._stimulus.append(self._params.I);
                else: self._stimulus.append(0);
""", """            self._stimulus = stimulus;
             
            for index, val in enumerate(stimulus):
                self._stimulus[index] = self._params.I if (val > 0) else 0;
""")],
needs='the Python implementation and a stimulus list that the caller keeps using', breaks='the stimulus of the caller is replaced by the internal stimulus levels',
demo='''
from pyclustering.nnet.legion import legion_network
from pyclustering.nnet import conn_type
net = legion_network(3, type_conn=conn_type.GRID_FOUR if False else conn_type.LIST_BIDIR, ccore=False)
s = [5, 0, 7]
net.simulate(2, 10, s)
assert s == [5, 0, 7], s
'''),
]
