import networkit as _nk


class GraphTools:
    @staticmethod
    def merge(G, G1):
        """Adds the nodes and edges of G1 to G; restores nodes that are holes in G."""
        while G.upperNodeIdBound() < G1.upperNodeIdBound():
            G.addNode()
        for u in G1.iterNodes():
            if not G.hasNode(u):
                G.restoreNode(u)
        for u, v, w in list(G1.iterEdgesWeights()):
            if not G.hasEdge(u, v):
                G.addEdge(u, v, w)

    @staticmethod
    def append(G, G1):
        m = {}
        for u in G1.iterNodes():
            m[u] = G.addNode()
        for u, v, w in list(G1.iterEdgesWeights()):
            G.addEdge(m[u], m[v], w)

    @staticmethod
    def copyNodes(G):
        g = _nk.Graph(G)
        g.removeAllEdges()
        return g

    @staticmethod
    def subgraphFromNodes(G, nodes, includeOutNeighbors=False, includeInNeighbors=False, compact=False):
        keep = set(nodes)
        g = _nk.Graph(G)
        for u in list(g.iterNodes()):
            if u not in keep:
                g.removeNode(u)
        return g

    @staticmethod
    def getContinuousNodeIds(G):
        return {u: i for i, u in enumerate(G.iterNodes())}

    @staticmethod
    def removeEdgesFromIsolatedSet(graph, nodes):
        for u in nodes:
            for v in list(graph.iterNeighbors(u)):
                if graph.hasEdge(u, v):
                    graph.removeEdge(u, v)

    @staticmethod
    def maxDegree(G):
        return max((G.degree(u) for u in G.iterNodes()), default=0)

    @staticmethod
    def size(G):
        return G.size()


for _n in ("merge", "append", "copyNodes", "subgraphFromNodes", "maxDegree", "size"):
    globals()[_n] = getattr(GraphTools, _n)
