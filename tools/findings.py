# (text of the commit subject, property)
FIXED = [
('pass SOM sizes', 'P01'), ('iteration indexes of sync', 'P01'), ('size_t as the result type', 'P01'),
('BSAS, MBSAS and TTSAS do not overwrite', 'P07'), ('CLIQUE and K-Medoids do not write', 'P07'), ('private copy of the caller', 'P07'),
('reservoir sampling does not write', 'P07'), ('SOM does not store its initial radius', 'P07'),
('callback of a user-defined metric', 'P02'), ('release the packages', 'P02'),
('random seed 0', 'P06'),
('names that NumPy removed', 'P20'),
('BIRCH passes its ccore flag', 'P05'), ('silhouette K-search passes its ccore', 'P05'), ('Elbow uses the native library only', 'P05'), ('HHN network has its membrane', 'P05'),
('Elbow passes K-Means++ initializer', 'P03'), ('linking strength B', 'P03'), ('threshold teta_zx', 'P03'), ('document the defaults', 'P14'),
('K-Means++ calls a metric defined', 'P25'), ('X-Means uses its metric', 'P25'),
('K-Medians rejects medians', 'P13'), ('X-Means rejects centers', 'P13'), ('G-Means rejects more', 'P13'), ('FCM rejects', 'P13'),
('initializer rejects an unknown', 'P13'), ('LEGION rejects', 'P13'), ('network rejects a grid', 'P13'), ('HHN network rejects', 'P13'), ('Minkowski metric has the default', 'P25'),
('single-processor machine', 'P10'), ('agglomerative rejects unknown', 'P13'), ('kmedoids rejects initial medoids', 'P13'), ('silhouette_ksearch rejects', 'P13'),
('silhouette rejects clusters', 'P13'), ('reject dynamic connections', 'P13'), ('optics does not crash', 'P13'), ('syncpr rejects empty', 'P13'), ('native sync dynamic rejects', 'P13'),
('kmedoids raises an exception', 'P04'), ('hhn_dynamic_read reports', 'P04'),
('make as many steps as asked', 'P12'), ('return the last state when dynamic is not collected', 'P12'), ('records the time of each state', 'P12'),
('compare equal coordinates after a pair', 'P09'), ('Gower distance with numpy', 'P09'),
]
# (property, rule|construct, text)
FINDINGS = [
('P13', 'late|cluster.fcm.fcm.process: centers of another dimension than the data', 'FCM accepts centers of another dimension than the data (the existing test test_cluster_allocation_two_diamonds relies on it); the Python implementation fails or broadcasts deep inside the calculation'),
('P13', 'late|cluster.fcm.fcm.process: centers of another dimension than the data native', 'the same for the native implementation, which reads beyond the shorter vectors'),
('P14', 'effect|cluster.ga.genetic_algorithm, Python implementation: crossover_rate', 'the option crossover_rate of the genetic algorithm has no effect: every pair of chromosomes is crossed'),
('P14', 'effect|nnet.syncpr.syncpr, native implementation: simulate_dynamic(int_step)', 'the native dynamic simulation of syncpr ignores the integration step given by the user'),
('P14', 'effect|nnet.syncpr.syncpr, native implementation: simulate_dynamic(threshold_changes)', 'the native dynamic simulation of syncpr ignores the threshold of changes given by the user'),
('P14', 'native-kept|clst::syncnet(input_data, connectivity_radius, enable_conn_weight, initial_phases): initial_phases', 'the native syncnet (and hsyncnet) always starts from random phases; passing initial_phases on makes the existing test testImageSegmentationSimple15 fail'),
('P05', 'attribute|cluster.hsyncnet.hsyncnet: hsyncnet._ccore_network_pointer', 'sync_order() and the other methods inherited from the Sync network fail with AttributeError on a native hsyncnet, whose base class is not initialised'),
('P05', 'attribute|cluster.hsyncnet.hsyncnet: hsyncnet._phases', 'the same for the phases that these methods read'),
('P05', 'result|cluster.hsyncnet.hsyncnet.sync_order after process, native implementation: _phases', 'the same after process(): the native implementation leaves the phases unset'),
('P05', 'result|cluster.hsyncnet.hsyncnet.sync_local_order after process, native implementation: _osc_conn, _phases', 'the same after process() for the local order'),
('P05', 'switch|nnet.syncsegm.syncsegm: cluster.syncnet.syncnet.__init__(object_radius)', 'syncsegm(ccore=False) builds its second layer with ccore=True and so creates a native network (an existing test, testImageSegmentationSimple18, relies on the native result of this layer, so it is not repaired)'),
('P05', 'switch|nnet.syncsegm.syncsegm: cluster.syncnet.syncnet.process(object_radius)', 'the same layer of syncsegm(ccore=False) is simulated by the native library'),
('P03', 'unused|sync_simulate_dynamic: step_int', 'the native simulation of sync networks ignores the integration step given by the user (int_step)'),
('P03', 'unused|sync_simulate_dynamic: threshold_changes', 'the native simulation of sync networks ignores the threshold of changes given by the user'),
]
