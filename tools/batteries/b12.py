CHECKS = ['P12']
K = 'pyclustering/cluster/kmeans.py'
W = "        while maximum_change > self.__tolerance and iteration < self.__itermax:\n"
INC = "            self.__centers = updated_centers    # assign center after change calculation\n            iteration += 1\n"
MD = 'pyclustering/cluster/kmedoids.py'
SY = 'pyclustering/nnet/sync.py'
KC = 'ccore/src/cluster/kmeans.cpp'
FOR = "    for(std::size_t iteration = 0; iteration < m_itermax && current_change > m_tolerance; iteration++) {\n"
CASES = [
    ('xmeans limit', 1, [('pyclustering/cluster/xmeans.py', "(split_require is True) and (amount_free_centers > 0)", "(split_require is True) and (amount_free_centers >= 0)")]),
    ('xmeans limit in another way', 0, [('pyclustering/cluster/xmeans.py', "        amount_free_centers = self.__kmax - len(centers)\n", "        free = self.__kmax - len(clusters)\n"), ('pyclustering/cluster/xmeans.py', "if (split_require is True) and (amount_free_centers > 0):", "if split_require and free != 0:"), ('pyclustering/cluster/xmeans.py', "                    amount_free_centers -= 1\n", "                    free = free - 1\n")]),
    ('xmeans not counted', 1, [('pyclustering/cluster/xmeans.py', "                    amount_free_centers -= 1\n", "                    pass\n")]),
    ('gmeans limit', 1, [('pyclustering/cluster/gmeans.py', "(potential_amount_clusters >= self.__k_max)", "(len(centers) >= self.__k_max)")]),
    ('gmeans native limit', 1, [('ccore/src/cluster/gmeans.cpp', "            potential_amount_clusters++;\n", "")]),
    ('gmeans native limit kept', 0, [('ccore/src/cluster/gmeans.cpp', "(potential_amount_clusters >= m_kmax)", "!(potential_amount_clusters < m_kmax)")]),
    ('xmeans native limit', 1, [('ccore/src/cluster/xmeans.cpp', "            amount_free_centers--;\n", "")]),
    ('xmeans native limit kept', 0, [('ccore/src/cluster/xmeans.cpp', "(centers.size() > 1) && (amount_free_centers > 0)", "allocated_centers.size() + 1 <= m_maximum_clusters && amount_free_centers && centers.size() > 1")]),
    ('native kmeans helper', 0, [(KC, FOR, "    for(std::size_t iteration = 0; goes_on(iteration, current_change); iteration++) {\n"), (KC, "void kmeans::update_clusters(", "bool kmeans::goes_on(const std::size_t p_done, const double p_change) const {\n    return p_done < m_itermax && p_change > m_tolerance;\n}\n\n\nvoid kmeans::update_clusters("), ('ccore/include/pyclustering/cluster/kmeans.hpp', "    void update_clusters(", "    bool goes_on(const std::size_t p_done, const double p_change) const;\n\n    void update_clusters(")]),
    ('kmeans helper condition', 0, [(K, W, "        while self.__goes_on(maximum_change, iteration):\n"), (K, "    def predict(self, points):\n", "    def __goes_on(self, change, done):\n        if done >= self.__itermax:\n            return False\n        return change > self.__tolerance\n\n    def predict(self, points):\n")]),
    ('kmeans for', 0, [(K, W, "        for _ in range(self.__itermax):\n            if maximum_change <= self.__tolerance:\n                break\n"), (K, "            iteration += 1\n", "")]),
    ('kmeans while true', 0, [(K, W, "        while True:\n            if iteration == self.__itermax or not maximum_change > self.__tolerance:\n                break\n")]),
    ('kmeans countdown', 0, [(K, "        iteration = 0\n", "        remaining = self.__itermax\n"), (K, W, "        while remaining and maximum_change > self.__tolerance:\n"), (K, "            iteration += 1\n", "            remaining -= 1\n")]),
    ('kmeans step helper', 0, [(K, W, "        while maximum_change > self.__tolerance and iteration < self.__itermax:\n            maximum_change = self.__make_pass()\n            iteration += 1\n\n        self.__calculate_total_wce()\n\n\n    def __make_pass(self):\n        if True:\n"), (K, "            maximum_change = self.__calculate_changes(updated_centers)\n", "            change = self.__calculate_changes(updated_centers)\n"), (K, INC, "            self.__centers = updated_centers\n            return change\n"), (K, "        self.__calculate_total_wce()\n\n\n    def predict", "    def predict")]),
    ('kmeans one more', 1, [(K, W, W.replace('<', '<='))]),
    ('kmeans no budget', 1, [(K, W, "        while maximum_change > self.__tolerance:\n")]),
    ('kmeans counts with an observer', 1, [(K, INC, INC.replace("            iteration += 1\n", "            if self.__observer is None:\n                iteration += 1\n"))]),
    ('kmeans or', 1, [(K, W, W.replace(' and ', ' or '))]),
    ('kmedoids counts late', 1, [(MD, "                self.__iterations += 1\n                swap_cost", "                swap_cost"), (MD, "                    changes = previous_deviation - self.__total_deviation\n", "                    changes = previous_deviation - self.__total_deviation\n                    if changes > 1.0:\n                        self.__iterations += 1\n")]),
    ('sync helper', 0, [(SY, "    def simulate_static(self, steps,", "    def _record(self, phases, times, when):\n        phases.append(self._phases)\n        times.append(when)\n\n    def simulate_static(self, steps,"), (SY, "        for index_step in range(1, steps + 1):\n            t = index_step * step\n\n            # update states of oscillators\n            self._phases = self._calculate_phases(solution, t, step, int_step);\n\n            # update states of oscillators\n            if (collect_dynamic == True):\n                dyn_phase.append(self._phases);\n                dyn_time.append(t);\n", "        for done in range(steps):\n            now = step + done * step\n            self._phases = self._calculate_phases(solution, now, step, int_step)\n            if collect_dynamic:\n                self._record(dyn_phase, dyn_time, now)\n")]),
    ('bsas more', 1, [('pyclustering/cluster/bsas.py', "(len(self._clusters) < self._amount)", "(len(self._clusters) <= self._amount)")]),
    ('bsas reordered', 0, [('pyclustering/cluster/bsas.py', "if (distance > self._threshold) and (len(self._clusters) < self._amount):", "if self._amount > len(self._clusters) and distance > self._threshold:")]),
    ('mbsas second pass makes clusters', 1, [('pyclustering/cluster/mbsas.py', "            index_cluster, _ = self._find_nearest_cluster(point)\n", "            index_cluster, gap = self._find_nearest_cluster(point)\n            if gap > 2 * self._threshold:\n                self._representatives.append(list(point))\n                self._clusters.append([i])\n                continue\n")]),
    ('gmeans repeat', 1, [('pyclustering/cluster/gmeans.py', "        for _ in range(self.__repeat):\n", "        for _ in range(1, self.__repeat):\n")]),
    ('native kmeans while', 0, [(KC, FOR, "    std::size_t iteration = 0;\n    while (iteration < m_itermax) {\n        if (current_change <= m_tolerance) { break; }\n        ++iteration;\n")]),
    ('native kmeans observed', 1, [(KC, FOR, FOR.replace('iteration++', '')), (KC, "            m_ptr_result->evolution_clusters().push_back(m_ptr_result->clusters());\n        }\n    }\n", "            m_ptr_result->evolution_clusters().push_back(m_ptr_result->clusters());\n            iteration++;\n        }\n    }\n")]),
    ('native kmedians unbounded', 1, [('ccore/src/cluster/kmedians.cpp', "(iteration < m_max_iter) && ", "")]),
    ('native som', 1, [('ccore/src/nnet/som.cpp', "epouch < (m_epouchs + 1)", "epouch < m_epouchs")]),
    ('native som 0-based', 0, [('ccore/src/nnet/som.cpp', "epouch < (m_epouchs + 1)", "epouch <= num_epochs")]),
    ('native legion store', 1, [('ccore/src/nnet/legion.cpp', "cur_step = 1; cur_step < steps; cur_step++", "cur_step = 1; cur_step <= steps; cur_step++")]),
    ('native hhn time', 1, [('ccore/src/nnet/hhn.cpp', "        cur_time += step;\n\n        store_dynamic(cur_time,", "        store_dynamic(cur_time,")]),
    ('native sync two stores', 1, [('ccore/src/nnet/sync.cpp', "    double cur_time = step;\n    for (std::size_t cur_step = 0;", "    double cur_time = step;\n    store_dynamic(cur_time, collect_dynamic, output_dynamic);\n    for (std::size_t cur_step = 0;")]),
    ('native gmeans', 1, [('ccore/src/cluster/gmeans.cpp', "for (std::size_t i = 0; i < m_repeat; i++) {", "for (std::size_t i = 1; i < m_repeat; i++) {")]),
    ('native fcm while', 0, [('ccore/src/cluster/fcm.cpp', "for(std::size_t iteration = 0; iteration < m_itermax && current_change > m_tolerance; iteration++) {", "for(std::size_t left = m_itermax; left > 0 && current_change > m_tolerance; --left) {")]),
]
