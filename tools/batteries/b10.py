CHECKS = ['P10']
KM = 'ccore/src/cluster/kmeans.cpp'
MD = 'ccore/src/cluster/kmedoids.cpp'
FC = 'ccore/src/cluster/fcm.cpp'
SY = 'ccore/src/nnet/sync.cpp'
HH = 'ccore/src/nnet/hhn.cpp'
XM = 'ccore/src/cluster/xmeans.cpp'
KD = 'ccore/src/cluster/kmedians.cpp'
PP = 'ccore/include/pyclustering/parallel/parallel.hpp'
CASES = [
    ('accumulator', 1, [(FC, "    std::vector<double> changes(amount_centers, 0.0);\n", "    double total = 0.0;\n    std::vector<double> changes(amount_centers, 0.0);\n"), (FC, "[this, &changes](const std::size_t p_index) {\n        changes[p_index] = update_center(p_index);", "[this, &changes, &total](const std::size_t p_index) {\n        changes[p_index] = update_center(p_index); total += changes[p_index];")]),
    ('vector<bool>', 1, [(FC, "    std::vector<double> changes(amount_centers, 0.0);\n", "    std::vector<bool> flags(amount_centers, false);\n    std::vector<double> changes(amount_centers, 0.0);\n"), (FC, "[this, &changes](const std::size_t p_index) {\n        changes[p_index] = update_center(p_index);", "[this, &changes, &flags](const std::size_t p_index) {\n        changes[p_index] = update_center(p_index); flags[p_index] = changes[p_index] > 0.1;")]),
    ('static local', 1, [(KM, "    double    minimum_distance = std::numeric_limits<double>::max();\n", "    static double minimum_distance; minimum_distance = std::numeric_limits<double>::max();\n")]),
    ('member scratch', 1, [(FC, "    std::vector<double> dividend(dimensions, 0.0);\n", "    m_ptr_result->partition_max() = 0.0;\n    std::vector<double> dividend(dimensions, 0.0);\n"), ('ccore/include/pyclustering/cluster/fcm_data.hpp', "public:\n", "    double m_pm = 0.0;\npublic:\n    double & partition_max() { return m_pm; }\n")]),
    ('push_back', 1, [(XM, "improve_region_structure(clusters[p_index], current_centers[p_index], region_allocated_centers[p_index]);", "dataset d; improve_region_structure(clusters[p_index], current_centers[p_index], d); region_allocated_centers.push_back(d);")]),
    ('in place phase', 1, [(SY, "            p_next_phases[index] = phase_normalization(result);", "            m_oscillators[index].phase = phase_normalization(result);")]),
    ('centers in place', 0, [(KM, "        calculated_clusters[p_index] = centers[p_index];\n        changes[p_index] = update_center(clusters[p_index], calculated_clusters[p_index]);", "        changes[p_index] = update_center(clusters[p_index], centers[p_index]);")]),
    ('wrong index', 1, [(KM, "        changes[p_index] = update_center(", "        changes[0] = update_center(")]),
    ('div index', 1, [(KM, "        changes[p_index] = update_center(", "        changes[p_index / 2] = update_center(")]),
    ('neighbour read', 1, [(KD, "        changes[index_cluster] = m_metric(prev_medians[index_cluster], medians[index_cluster]);", "        changes[index_cluster] = m_metric(medians[index_cluster], medians[0]);")]),
    ('capture by ref', 1, [(PP, "[&p_task, current_start, current_end, p_step]", "[&p_task, &current_start, current_end, p_step]")]),
    ('capture all', 1, [(PP, "[&p_task, current_start, current_end, p_step]", "[&]")]),
    ('chunk off', 1, [(PP, "        current_start = current_end;\n        current_end += interval_thread_length;", "        current_start = current_end + p_step;\n        current_end += interval_thread_length;")]),
    ('threads zero', 1, [(PP, "(AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 1", "(AMOUNT_HARDWARE_THREADS > 0) ? (AMOUNT_HARDWARE_THREADS - 1) : 1")]),
    ('chunk in kmedoids shared', 1, [(MD, "        optimal_chunk & chunk = cluster_chunks[index_cluster];\n", "        optimal_chunk & chunk = cluster_chunks[0];\n")]),
    ('labels in loop', 1, [(MD, "        cluster_markers[p_index] = find_appropriate_cluster(p_index, medoids);", "        cluster_markers[p_index] = find_appropriate_cluster(p_index, medoids); m_labels[medoids[0]] = 1;")]),
    ('member vector field', 1, [(KM, "    p_clusters[p_index_point] = suitable_index_cluster;", "    p_clusters[p_index_point] = suitable_index_cluster; m_ptr_result->wce() += minimum_distance;")]),
    ('hhn pulse', 1, [(HH, "        pack_equation_input(m_central[p_index], inputs);", "        pack_equation_input(m_central[p_index], inputs); m_central[0].m_pulse_generation = true;")]),
    # nothing changes
    ('b: threads max', 0, [(PP, "(AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 1", "std::max(AMOUNT_HARDWARE_THREADS, std::size_t(2)) - 1")]),
    ('b: helper', 0, [(KM, "        calculated_clusters[p_index] = centers[p_index];\n        changes[p_index] = update_center(clusters[p_index], calculated_clusters[p_index]);", "        auto & target = calculated_clusters[p_index];\n        target = centers[p_index];\n        auto & change = changes[p_index];\n        const auto & source = clusters[p_index];\n        change = update_center(source, target);")]),
    ('b: pointer', 0, [(KM, "        changes[p_index] = update_center(clusters[p_index], calculated_clusters[p_index]);", "        double * p = changes.data() + p_index; *p = update_center(clusters[p_index], calculated_clusters[p_index]);")]),
    ('b: local index', 0, [(KM, "        calculated_clusters[p_index] = centers[p_index];", "        const std::size_t i = p_index; calculated_clusters[i] = centers[i];")]),
    ('b: at', 0, [(KM, "        changes[p_index] = update_center(", "        changes.at(p_index) = update_center(")]),
    ('b: lambda var', 0, [(KM, "    parallel_for(std::size_t(0), clusters.size(), [this, &clusters, &centers, &calculated_clusters, &changes](const std::size_t p_index) {\n        calculated_clusters[p_index] = centers[p_index];\n        changes[p_index] = update_center(clusters[p_index], calculated_clusters[p_index]);\n    });", "    const auto task = [&](const std::size_t p_index) {\n        calculated_clusters[p_index] = centers[p_index];\n        changes[p_index] = update_center(clusters[p_index], calculated_clusters[p_index]);\n    };\n    parallel_for(std::size_t(0), clusters.size(), task);")]),
    ('b: sequential', 0, [(KM, "parallel_for(std::size_t(0), clusters.size(), [this, &clusters, &centers, &calculated_clusters, &changes](const std::size_t p_index) {\n        calculated_clusters[p_index] = centers[p_index];\n        changes[p_index] = update_center(clusters[p_index], calculated_clusters[p_index]);\n    });", "for (std::size_t p_index = 0; p_index < clusters.size(); p_index++) {\n        calculated_clusters[p_index] = centers[p_index];\n        changes[p_index] = update_center(clusters[p_index], calculated_clusters[p_index]);\n    }")]),
    ('b: mutex', 0, [(FC, "    std::vector<double> changes(amount_centers, 0.0);\n", "    double total = 0.0; std::mutex lock;\n    std::vector<double> changes(amount_centers, 0.0);\n"), (FC, "[this, &changes](const std::size_t p_index) {\n        changes[p_index] = update_center(p_index);", "[this, &changes, &total, &lock](const std::size_t p_index) {\n        changes[p_index] = update_center(p_index); std::lock_guard<std::mutex> guard(lock); total += changes[p_index];"), (FC, "#include <", "#include <mutex>\n#include <")]),
    ('b: atomic', 0, [(FC, "    std::vector<double> changes(amount_centers, 0.0);\n", "    std::atomic<int> total(0);\n    std::vector<double> changes(amount_centers, 0.0);\n"), (FC, "[this, &changes](const std::size_t p_index) {\n        changes[p_index] = update_center(p_index);", "[this, &changes, &total](const std::size_t p_index) {\n        changes[p_index] = update_center(p_index); total++; total += 1;"), (FC, "#include <", "#include <atomic>\n#include <")]),
    ('b: chunk while', 0, [(PP, "        current_start = current_end;\n        current_end += interval_thread_length;", "        current_start += interval_thread_length;\n        current_end = current_start + interval_thread_length;")]),
    ('copy of all', 1, [(KM, "        calculated_clusters[p_index] = centers[p_index];", "        calculated_clusters[p_index] = centers[p_index]; const dataset all = calculated_clusters;")]),
    ('max of all', 1, [(KM, "        changes[p_index] = update_center(clusters[p_index], calculated_clusters[p_index]);", "        changes[p_index] = update_center(clusters[p_index], calculated_clusters[p_index]); if (*std::max_element(changes.begin(), changes.end()) > 5) return;")]),
    ('chunk each', 1, [(PP, "        current_end += step;", "        current_end += step + 1;")]),
    ('rest', 1, [(PP, "    for (auto iter = current_start; iter != p_end; ++iter) {", "    for (auto iter = current_end; iter != p_end; ++iter) {")]),
    ('unaligned', 1, [(PP, "    else if (interval_thread_length % p_step != 0) {\n        interval_thread_length = interval_thread_length - (interval_thread_length % p_step);\n    }\n", "")]),
    ('unaligned2', 1, [(PP, "        interval_thread_length = interval_thread_length - (interval_thread_length % p_step);\n", "        interval_thread_length = interval_thread_length - p_step;\n")]),
    ('b: aligned', 0, [(PP, "    if (interval_thread_length < p_step)  {\n        interval_thread_length = p_step;\n    }\n    else if (interval_thread_length % p_step != 0) {\n        interval_thread_length = interval_thread_length - (interval_thread_length % p_step);\n    }\n", "    interval_thread_length = interval_thread_length / p_step * p_step;\n    if (interval_thread_length < p_step) interval_thread_length = p_step;\n")]),
    ('b: aligned max', 0, [(PP, "    if (interval_thread_length < p_step)  {\n        interval_thread_length = p_step;\n    }\n    else if (interval_thread_length % p_step != 0) {\n        interval_thread_length = interval_thread_length - (interval_thread_length % p_step);\n    }\n", "    interval_thread_length -= interval_thread_length % p_step;\n    interval_thread_length = std::max(interval_thread_length, p_step);\n")]),
]
