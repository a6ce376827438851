"""rustworkx gives a node's neighbors in a different order each time it is asked (a hash set's).
Here the order changes from call to call too, but the same way in a replay."""
import operator

import rustworkx

_COUNTS = {}


def reset():
    _COUNTS.clear()


def _turned(nodes, node):
    nodes = sorted(nodes)
    t = _COUNTS.get(node, 0)
    _COUNTS[node] = t + 1
    k = (t // 2) % len(nodes) if nodes else 0
    nodes = nodes[k:] + nodes[:k]
    return nodes[::-1] if t % 2 else nodes


class PyDiGraph(rustworkx.PyDiGraph):
    def neighbors(self, node):
        node = operator.index(node)
        return _turned(super().neighbors(node), node)


class PyGraph(rustworkx.PyGraph):
    def neighbors(self, node):
        node = operator.index(node)
        return _turned(super().neighbors(node), node)


def install():
    rustworkx.PyDiGraph, rustworkx.PyGraph = PyDiGraph, PyGraph
