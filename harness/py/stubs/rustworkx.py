"""Stand-in for the part of rustworkx that PyMatching names: undirected graphs with attributes."""


class PyGraph:
    def __init__(self, multigraph=True):
        self.multigraph = multigraph
        self._nodes = []
        self._edges = []

    def __len__(self):
        return len(self._nodes)

    def __getitem__(self, i):
        return self._nodes[i]

    def add_node(self, attr):
        self._nodes.append(attr)
        return len(self._nodes) - 1

    def add_nodes_from(self, attrs):
        return [self.add_node(a) for a in attrs]

    def node_indices(self):
        return list(range(len(self._nodes)))

    def add_edge(self, u, v, attr):
        if not self.multigraph:
            for k, (a, b, _) in enumerate(self._edges):
                if {a, b} == {u, v}:
                    self._edges[k] = (a, b, attr)
                    return k
        self._edges.append((u, v, attr))
        return len(self._edges) - 1

    def add_edges_from(self, es):
        return [self.add_edge(*e) for e in es]

    def extend_from_weighted_edge_list(self, es):
        for u, v, attr in es:
            while max(u, v) >= len(self._nodes):
                self._nodes.append(None)
            self.add_edge(u, v, attr)

    def weighted_edge_list(self):
        return list(self._edges)
