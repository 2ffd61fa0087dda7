CHECKS = ['P09']
M = 'pyclustering/utils/metric.py'
U = 'pyclustering/utils/__init__.py'
H = 'ccore/include/pyclustering/utils/metric.hpp'
I = 'ccore/src/interface/metric_interface.cpp'
W = 'pyclustering/core/metric_wrapper.py'
SQ = "    distance = 0.0\n    for i in range(len(point1)):\n        distance += (point1[i] - point2[i]) ** 2.0\n\n    return distance\n"
MAN = "    distance = 0.0\n    dimension = len(point1)\n\n    for i in range(dimension):\n        distance += abs(point1[i] - point2[i])\n\n    return distance\n"
CHE = "    distance = 0.0\n    dimension = len(point1)\n\n    for i in range(dimension):\n        distance = max(distance, abs(point1[i] - point2[i]))\n\n    return distance\n"
CAN = "    distance = 0.0\n    for i in range(len(point1)):\n        divider = abs(point1[i]) + abs(point2[i])\n        if divider == 0.0:\n            continue\n\n        distance += abs(point1[i] - point2[i]) / divider\n\n    return distance\n"
GOW = "        if max_range[i] != 0.0:\n            distance += abs(point1[i] - point2[i]) / max_range[i]\n\n    return distance / dimensions\n"
CC = "        if (divider == 0) {\n            continue;\n        }\n\n        distance += std::abs(dim_point1 - dim_point2) / divider;\n"
CASES = [
    # behaviour kept
    ('sum of generator', 0, [(M, SQ, "    return sum((x - y) ** 2 for x, y in zip(point1, point2))\n")]),
    ('product', 0, [(M, SQ, "    distance = 0.0\n    for x, y in zip(point1, point2):\n        difference = y - x\n        distance = distance + difference * difference\n    return distance\n")]),
    ('enumerate', 0, [(M, SQ, "    total = 0\n    for index, value in enumerate(point1):\n        delta = value - point2[index]\n        total += delta * delta\n    return total\n")]),
    ('while', 0, [(M, SQ, "    distance, i = 0.0, 0\n    while i < len(point1):\n        distance += pow(point1[i] - point2[i], 2)\n        i += 1\n    return distance\n")]),
    ('comprehension', 0, [(M, MAN, "    return float(sum([abs(a - b) for a, b in zip(point1, point2)]))\n")]),
    ('map', 0, [(M, MAN, "    return sum(map(lambda a, b: abs(b - a), point1, point2))\n")]),
    ('sign by hand', 0, [(M, MAN, "    distance = 0.0\n    for i in range(len(point1)):\n        d = point1[i] - point2[i]\n        if d < 0:\n            d = -d\n        distance += d\n    return distance\n")]),
    ('compare and keep', 0, [(M, CHE, "    distance = 0.0\n    for a, b in zip(point1, point2):\n        candidate = abs(a - b)\n        if candidate > distance:\n            distance = candidate\n    return distance\n")]),
    ('max of generator', 0, [(M, CHE, "    return max(abs(point1[i] - point2[i]) for i in range(len(point1)))\n")]),
    ('canberra positive', 0, [(M, CAN, "    distance = 0.0\n    for x, y in zip(point1, point2):\n        divider = abs(x) + abs(y)\n        if divider > 0:\n            distance += abs(x - y) / divider\n    return distance\n")]),
    ('canberra equal', 0, [(M, CAN, "    distance = 0.0\n    for x, y in zip(point1, point2):\n        if x == 0 and y == 0:\n            continue\n        distance += abs(x - y) / (abs(x) + abs(y))\n    return distance\n")]),
    ('canberra helper', 0, [(M, CAN, "    return sum(_share(x, y) for x, y in zip(point1, point2))\n\n\ndef _share(x, y):\n    total = abs(x) + abs(y)\n    return abs(x - y) / total if total else 0.0\n")]),
    ('gower in the loop', 0, [(M, GOW, "        if max_range[i] != 0.0:\n            distance += abs(point1[i] - point2[i]) / (max_range[i] * dimensions)\n\n    return distance\n")]),
    ('numpy norm', 0, [(M, "        return numpy.sqrt(numpy.sum(numpy.square(object1 - object2)))\n", "        return numpy.linalg.norm(object1 - object2)\n")]),
    ('numpy operators', 0, [(M, "        return numpy.sum(numpy.absolute(object1 - object2), axis=1).T\n", "        return numpy.abs(object2 - object1).sum(axis=-1)\n")]),
    ('dict of calculators', 0, [(M, "        if self.__type == type_metric.CANBERRA:\n            return canberra_distance_numpy\n", "        if self.__type == type_metric.CANBERRA:\n            return canberra_distance_numpy\n")] if False else [(M, "        elif self.__type == type_metric.MINKOWSKI:\n            return lambda point1, point2: minkowski_distance(point1, point2, self.__args.get('degree', 2))\n", "        elif self.__type == type_metric.MINKOWSKI:\n            degree = self.__args.get('degree', 2)\n            return lambda point1, point2: minkowski_distance(point1, point2, degree)\n")]),
    ('numpy where', 0, [(M, "    return numpy.sum(result) / len(point1)", "    return numpy.sum(numpy.where(max_range != 0, result, 0)) / len(point1)")]),
    ('native index loop', 0, [(H, "    double distance = 0.0;\n    typename TypeContainer::const_iterator iter_point1 = point1.begin();\n\n    for (const auto & dim_point2 : point2) {\n        distance += std::abs(*iter_point1 - dim_point2);\n        ++iter_point1;\n    }\n", "    double distance = 0.0;\n    for (std::size_t i = 0; i < point1.size(); i++) {\n        distance += std::fabs(point2[i] - point1[i]);\n    }\n")]),
    ('native guard', 0, [(H, CC, "        if (divider != 0.0) {\n            distance += std::abs(dim_point1 - dim_point2) / divider;\n        }\n")]),
    ('native two iterators', 0, [(H, "        distance += difference * difference;\n\n        ++iter_point1;\n", "        iter_point1++;\n        distance = distance + std::pow(difference, 2.0);\n")]),
    ('native factory lambda', 0, [(H, "distance_metric<TypeContainer>(std::bind(manhattan_distance<TypeContainer>, std::placeholders::_1, std::placeholders::_2))", "distance_metric<TypeContainer>([](const TypeContainer & p1, const TypeContainer & p2) { return manhattan_distance<TypeContainer>(p1, p2); })")]),
    ('native shared body', 0, [(I, "            distance_metric<point> metric = distance_metric_factory<point>::canberra();\n            return new distance_metric<point>(std::move(metric));", "            return new distance_metric<point>(distance_metric_factory<point>::canberra());")]),
    # broken
    ('python skips the last', 1, [(M, MAN, MAN.replace("range(dimension)", "range(dimension - 1)"))]),
    ('python skips the first', 1, [(M, CHE, CHE.replace("range(dimension)", "range(1, dimension)"))]),
    ('no abs', 1, [(M, CHE, CHE.replace("abs(point1[i] - point2[i])", "point1[i] - point2[i]"))]),
    ('cube', 1, [(M, SQ, SQ.replace("2.0", "3.0"))]),
    ('sum of the two', 1, [(M, CAN, CAN.replace("abs(point1[i]) + abs(point2[i])", "abs(point1[i] + point2[i])"))]),
    ('break at zero', 1, [(M, CAN, CAN.replace("continue", "break"))]),
    ('stop in one', 1, [(M, CAN, CAN.replace("        if divider == 0.0:\n            continue\n\n", ""))]),
    ('gower counts', 1, [(M, GOW, GOW.replace("distance / dimensions", "distance / sum(1 for r in max_range if r != 0.0)"))]),
    ('gower divides in loop', 1, [(M, GOW, GOW.replace("            distance +=", "            distance = distance / dimensions +"))]),
    ('numpy axis', 1, [(M, "        return numpy.max(numpy.absolute(object1 - object2), axis=1).T\n", "        return numpy.max(numpy.absolute(object1 - object2), axis=0).T\n")]),
    ('numpy no axis', 1, [(M, "        return numpy.sum(numpy.nan_to_num(result), axis=1).T\n", "        return numpy.sum(numpy.nan_to_num(result)).T\n")]),
    ('numpy rows', 1, [(M, "numpy.sum(result, axis=1).T / len(result[0])", "numpy.sum(result, axis=1).T / len(result)")]),
    ('numpy only the first', 1, [(M, "    if len(object1.shape) > 1 or len(object2.shape) > 1:\n        return numpy.sum(numpy.absolute(", "    if len(object1.shape) > 1:\n        return numpy.sum(numpy.absolute(")]),
    ('data range', 1, [(M, "numpy.max(data, axis=0) - numpy.min(data, axis=0)", "numpy.max(data, axis=0) - numpy.mean(data, axis=0)")]),
    ('data range axis', 1, [(M, "numpy.max(data, axis=0) - numpy.min(data, axis=0)", "numpy.max(data) - numpy.min(data)")]),
    ('numpy degree lost', 1, [(M, "return lambda object1, object2: minkowski_distance_numpy(object1, object2, self.__args.get('degree', 2))", "return minkowski_distance_numpy")]),
    ('numpy choice', 1, [(M, "            return euclidean_distance_square_numpy\n", "            return euclidean_distance_numpy\n")]),
    ('switch without effect', 1, [(M, "        self.__numpy = True\n        if self.__type != type_metric.USER_DEFINED:\n            self.__calculator = self.__create_distance_calculator()\n", "        self.__calculator = self.__create_distance_calculator_basic()\n        self.__numpy = True\n")] if False else [(M, "        elif self.__type == type_metric.GOWER:\n            max_range = self.__get_gower_max_range()\n            return lambda object1, object2: gower", "        elif self.__type == type_metric.GOWER:\n            max_range = 1.0 / self.__get_gower_max_range()\n            return lambda object1, object2: gower")]),
    ('utils manhattan', 1, [(U, "        distance += abs(a[i] - b[i]);\n", "        distance += abs(a[i]) - abs(b[i]);\n")]),
    ('native int abs', 1, [(H, "        distance += std::abs(*iter_point1 - dim_point2);\n", "        distance += std::abs((int) (*iter_point1 - dim_point2));\n")]),
    ('native degree', 1, [(H, "std::pow(distance, 1.0 / p_degree)", "std::pow(distance, 1 / static_cast<int>(p_degree))")]),
    ('native guard twice', 1, [(H, CC, "        if (dim_point1 == 0 || dim_point2 == 0) {\n            continue;\n        }\n\n        distance += std::abs(dim_point1 - dim_point2) / divider;\n")]),
    ('native gower range', 1, [(H, "        ++iter_point1;\n        ++iter_range;\n", "        ++iter_point1;\n        if (*iter_range != 0.0) { ++iter_range; }\n")]),
    ('native choice', 1, [(I, "distance_metric_factory<point>::chebyshev()", "distance_metric_factory<point>::manhattan()")]),
    ('native factory', 1, [(H, "std::bind(euclidean_distance_square<TypeContainer>,", "std::bind(euclidean_distance<TypeContainer>,")]),
    ('native swapped user points', 1, [(I, "p_solver(point1, point2)", "p_solver(point2, point1)")]),
    ('native second argument', 1, [(I, "minkowski(arguments[0])", "minkowski(arguments.size())")]),
    ('wrapper degree', 1, [(W, "arguments = [metric.get_arguments().get('degree', 2)]", "arguments = [metric.get_arguments().get('power', 2)]")]),
    ('wrapper function', 1, [(W, "func(package_extractor(p1).extract(), package_extractor(p2).extract())", "func(package_extractor(p1).extract(), package_extractor(p1).extract())")]),
]
