"""Stand-in for the parts of networkit (absent here) that roadmaps use or could use.

It keeps the library's observable habits: ids of removed nodes stay holes until restored, addNodes returns the
last id, an edge is removed from an adjacency list by moving the last entry into its place (so removing while
iterating skips edges), unreachable targets are at the largest finite double, paths of point-to-point searches
leave their end points out, and self loops and parallel edges are accepted unless checkMultiEdge is set.
"""
import heapq
import os
import pickle
import sys
import types

import numpy as np

none = 2 ** 64 - 1
_INF = sys.float_info.max
STATS = {"addEdge": 0, "removeEdge": 0, "addNode": 0, "removeNode": 0, "writeGraph": 0, "readGraph": 0, "search": 0}
LOG = []          # paths of graph files written and read


def _ix(u):
    if isinstance(u, (float, np.floating)):
        if u != int(u):
            raise TypeError("an integer is required")
        return int(u)
    return u.__index__()


class Graph:
    def __init__(self, n=0, weighted=False, directed=False, edgesIndexed=False):
        if isinstance(n, Graph):
            src = n
            self._adj = [dict_copy(a) for a in src._adj]
            self._exists = list(src._exists)
            self._n, self._m = src._n, src._m
            self._weighted, self._directed = src._weighted, src._directed
            self._indexed = src._indexed
            return
        if n < 0:
            raise OverflowError("can't convert negative value to count")
        if directed:
            raise NotImplementedError("stand-in: undirected graphs only")
        self._adj = [[] for _ in range(_ix(n))]     # lists of [v, w], position matters
        self._exists = [True] * _ix(n)
        self._n, self._m = _ix(n), 0
        self._weighted, self._directed = bool(weighted), False
        self._indexed = bool(edgesIndexed)

    def __copy__(self):
        return Graph(self)

    def __deepcopy__(self, memo):
        return Graph(self)

    # -- nodes
    def addNode(self):
        STATS["addNode"] += 1
        self._adj.append([])
        self._exists.append(True)
        self._n += 1
        return len(self._adj) - 1

    def addNodes(self, numberOfNewNodes):
        k = _ix(numberOfNewNodes)
        if k < 0:
            raise OverflowError("can't convert negative value to count")
        for _ in range(k):
            self.addNode()
        return len(self._adj) - 1 if self._adj else none

    def hasNode(self, u):
        u = _ix(u)
        return 0 <= u < len(self._exists) and self._exists[u]

    def _need(self, u):
        u = _ix(u)
        if not (0 <= u < len(self._exists)) or not self._exists[u]:
            raise RuntimeError("node %d does not exist" % u)
        return u

    def removeNode(self, u):
        u = self._need(u)
        STATS["removeNode"] += 1
        for v, _ in list(self._adj[u]):
            self.removeEdge(u, v)
        self._exists[u] = False
        self._n -= 1

    def restoreNode(self, u):
        u = _ix(u)
        if u >= len(self._exists) or self._exists[u]:
            raise RuntimeError("cannot restore node %d" % u)
        self._exists[u] = True
        self._n += 1

    def numberOfNodes(self):
        return self._n

    def upperNodeIdBound(self):
        return len(self._adj)

    def iterNodes(self):
        return (u for u in range(len(self._adj)) if self._exists[u])

    def forNodes(self, cb):
        for u in self.iterNodes():
            cb(u)

    # -- edges
    def _find(self, u, v):
        for i, e in enumerate(self._adj[u]):
            if e[0] == v:
                return i
        return -1

    def hasEdge(self, u, v):
        if not (self.hasNode(u) and self.hasNode(v)):
            return False
        return self._find(_ix(u), _ix(v)) >= 0

    def addEdge(self, u, v, w=1.0, addMissing=False, checkMultiEdge=False):
        if addMissing:
            for x in (_ix(u), _ix(v)):
                while x >= len(self._adj):
                    self.addNode()
                    self._exists[-1] = False
                    self._n -= 1
                if not self._exists[x]:
                    self.restoreNode(x)
        u, v = self._need(u), self._need(v)
        if checkMultiEdge and self._find(u, v) >= 0:
            return False
        STATS["addEdge"] += 1
        w = float(w) if self._weighted else 1.0
        self._adj[u].append([v, w])
        if u != v:
            self._adj[v].append([u, w])
        self._m += 1
        return True

    def addEdges(self, inputData, addMissing=False, checkMultiEdge=False):
        if hasattr(inputData, "tocoo"):
            c = inputData.tocoo()
            inputData = (c.data, (c.row, c.col))
        if len(inputData) == 2 and isinstance(inputData[1], (tuple, list)) and len(inputData[1]) == 2:
            data, (row, col) = inputData
        else:
            row, col = inputData
            data = np.ones(len(row))
        for w, a, b in zip(data, row, col):
            self.addEdge(a, b, w, addMissing, checkMultiEdge)
        return self

    def _drop(self, u, v):
        i = self._find(u, v)
        a = self._adj[u]
        a[i] = a[-1]
        a.pop()

    def removeEdge(self, u, v):
        u, v = self._need(u), self._need(v)
        if self._find(u, v) < 0:
            raise RuntimeError("The edge (%d,%d) does not exist" % (u, v))
        STATS["removeEdge"] += 1
        self._drop(u, v)
        if u != v:
            self._drop(v, u)
        self._m -= 1

    def removeAllEdges(self):
        for a in self._adj:
            a.clear()
        self._m = 0

    def removeSelfLoops(self):
        for u in self.iterNodes():
            while self._find(u, u) >= 0:
                self.removeEdge(u, u)

    def removeMultiEdges(self):
        for u in list(self.iterNodes()):
            seen = set()
            for v, _ in list(self._adj[u]):
                if v in seen:
                    self.removeEdge(u, v)
                seen.add(v)

    def numberOfSelfLoops(self):
        return sum(1 for u in self.iterNodes() for e in self._adj[u] if e[0] == u)

    def numberOfEdges(self):
        return self._m

    def size(self):
        return (self._n, self._m)

    def weight(self, u, v):
        u, v = self._need(u), self._need(v)
        i = self._find(u, v)
        return self._adj[u][i][1] if i >= 0 else 0.0

    def setWeight(self, u, v, w):
        u, v = self._need(u), self._need(v)
        if self._find(u, v) < 0:
            self.addEdge(u, v, w)
            return
        self._adj[u][self._find(u, v)][1] = float(w)
        self._adj[v][self._find(v, u)][1] = float(w)

    def isWeighted(self):
        return self._weighted

    def isDirected(self):
        return False

    def isEmpty(self):
        return self._n == 0

    def degree(self, u):
        return len(self._adj[self._need(u)])

    degreeOut = degreeIn = degree

    def isIsolated(self, u):
        return self.degree(u) == 0

    def weightedDegree(self, u, countSelfLoopsTwice=False):
        return sum(w for _, w in self._adj[self._need(u)])

    def totalEdgeWeight(self):
        return sum(w for _, _, w in self.iterEdgesWeights())

    def iterEdgesWeights(self):
        # walks the live lists, as the library's iterators do
        u = 0
        while u < len(self._adj):
            if self._exists[u]:
                i = 0
                while i < len(self._adj[u]):
                    v, w = self._adj[u][i]
                    if u <= v:
                        yield u, v, w
                    i += 1
            u += 1

    def iterEdges(self):
        for u, v, _ in self.iterEdgesWeights():
            yield u, v

    def forEdges(self, cb):
        for k, (u, v, w) in enumerate(list(self.iterEdgesWeights())):
            cb(u, v, w, k)

    def iterNeighbors(self, u):
        a = self._adj[self._need(u)]
        i = 0
        while i < len(a):
            yield a[i][0]
            i += 1

    def iterNeighborsWeights(self, u):
        a = self._adj[self._need(u)]
        i = 0
        while i < len(a):
            yield tuple(a[i])
            i += 1

    iterInNeighbors = iterNeighbors

    def forEdgesOf(self, u, cb):
        for k, (v, w) in enumerate(list(self._adj[self._need(u)])):
            cb(u, v, w, k)

    def indexEdges(self, force=False):
        self._indexed = True

    def hasEdgeIds(self):
        return self._indexed

    def sortEdges(self):
        for a in self._adj:
            a.sort(key=lambda e: e[0])

    def shrinkToFit(self):
        pass

    compactEdges = shrinkToFit

    def checkConsistency(self):
        return True


def dict_copy(a):
    return [list(e) for e in a]


# ---------------------------------------------------------------------------------------- files
class Format:
    NetworkitBinary = "NetworkitBinary"
    GML = "GML"
    METIS = "METIS"
    EdgeListTabZero = "EdgeListTabZero"


def writeGraph(G, path, fileformat, *kargs, **kwargs):
    path = os.fspath(path)
    if fileformat != Format.NetworkitBinary:
        raise NotImplementedError("stand-in: NetworkitBinary only")
    STATS["writeGraph"] += 1
    LOG.append(("write", path))
    with open(path, "wb") as f:
        pickle.dump((G._adj, G._exists, G._n, G._m, G._weighted), f)


def readGraph(path, fileformat, *kargs, **kwargs):
    path = os.fspath(path)
    if fileformat != Format.NetworkitBinary:
        raise NotImplementedError("stand-in: NetworkitBinary only")
    if not os.path.isfile(path):
        raise IOError("{0} is not a file".format(path))
    STATS["readGraph"] += 1
    LOG.append(("read", path))
    g = Graph(0)
    with open(path, "rb") as f:
        g._adj, g._exists, g._n, g._m, g._weighted = pickle.load(f)
    return g


# ---------------------------------------------------------------------------------------- searches
def _dijkstra(g, s, target=None):
    dist, pred = {s: 0.0}, {}
    done, q = set(), [(0.0, s)]
    order = []
    while q:
        d, u = heapq.heappop(q)
        if u in done:
            continue
        done.add(u)
        order.append(u)
        if u == target:
            break
        for v, w in g._adj[u]:
            nd = d + w
            if v not in done and nd < dist.get(v, _INF):
                dist[v] = nd
                pred[v] = u
                heapq.heappush(q, (nd, v))
    return dist, pred, order, done


class _Algorithm:
    _ran = False

    def run(self):
        STATS["search"] += 1
        self._run()
        self._ran = True
        return self

    def hasFinished(self):
        return self._ran

    def _check(self):
        if not self._ran:
            raise RuntimeError("Error, run must be called first")


class _STSP(_Algorithm):
    def __init__(self, G, source, target, storePred=True):
        self._g, self._s, self._t, self._store = G, G._need(source), G._need(target), storePred

    def setSource(self, s):
        self._s = self._g._need(s)

    def setTarget(self, t):
        self._t = self._g._need(t)

    def setTargets(self, ts):
        self._ts = [self._g._need(t) for t in ts]

    def _run(self):
        dist, pred, _, done = _dijkstra(self._g, self._s, self._t)
        self._d = dist[self._t] if self._t in done else _INF
        self._p = []
        if self._t in done and self._t != self._s:
            u = pred[self._t]
            while u != self._s:
                self._p.append(u)
                u = pred[u]
            self._p.reverse()

    def getDistance(self):
        self._check()
        return self._d

    def getPath(self):
        self._check()
        return list(self._p) if self._store else []


class BidirectionalDijkstra(_STSP):
    pass


class BidirectionalBFS(_STSP):
    def __init__(self, *a, **k):
        raise NotImplementedError("stand-in")


class AStar(_STSP):
    def __init__(self, G, heu, source, target, storePred=True):
        super().__init__(G, source, target, storePred)


class Dijkstra(_Algorithm):
    def __init__(self, G, source, storePaths=True, storeNodesSortedByDistance=False, target=none):
        self._g, self._s, self._t = G, G._need(source), None if target == none else G._need(target)

    def setSource(self, s):
        self._s = self._g._need(s)

    def setTarget(self, t):
        self._t = self._g._need(t)

    def _run(self):
        self._dist, self._pred, self._order, self._done = _dijkstra(self._g, self._s, self._t)

    def distance(self, t):
        self._check()
        return self._dist[t] if t in self._done else _INF

    def getDistances(self, asarray=True):
        self._check()
        d = [self._dist[u] if u in self._done else _INF for u in range(self._g.upperNodeIdBound())]
        return np.array(d) if asarray else d

    def getPath(self, t):
        self._check()
        if t not in self._done:
            return []
        p = [t]
        while p[-1] != self._s:
            p.append(self._pred[p[-1]])
        return p[::-1]

    def getNodesSortedByDistance(self):
        return list(self._order)


class SPSP(_Algorithm):
    def __init__(self, G, sources):
        self._g = G
        self.setSources(sources)
        self._targets = None

    def setSources(self, sources):
        self._sources = [self._g._need(s) for s in sources]

    def setTargets(self, targets):
        self._targets = [self._g._need(t) for t in targets]

    def _run(self):
        ts = self._targets if self._targets is not None else list(range(self._g.upperNodeIdBound()))
        rows = []
        for s in self._sources:
            dist, _, _, done = _dijkstra(self._g, s)
            rows.append([dist[t] if t in done else _INF for t in ts])
        self._d = rows
        self._six = {s: i for i, s in enumerate(self._sources)}
        self._tix = {t: i for i, t in enumerate(ts)}

    def getDistances(self, asarray=True):
        self._check()
        return np.array(self._d, dtype=float).reshape(len(self._sources), len(self._tix)) if asarray else [list(r) for r in self._d]

    def getDistance(self, u, v):
        self._check()
        return self._d[self._six[u]][self._tix[v]]


class APSP(SPSP):
    def __init__(self, G):
        super().__init__(G, list(G.iterNodes()))


class ConnectedComponents(_Algorithm):
    def __init__(self, G):
        self._g = G

    def _run(self):
        self._c, left = [], set(self._g.iterNodes())
        for s in list(self._g.iterNodes()):
            if s in left:
                comp, st = [], [s]
                left.discard(s)
                while st:
                    u = st.pop()
                    comp.append(u)
                    for v, _ in self._g._adj[u]:
                        if v in left:
                            left.discard(v)
                            st.append(v)
                self._c.append(comp)

    def getComponents(self):
        return self._c

    def numberOfComponents(self):
        return len(self._c)

    def componentOfNode(self, u):
        return next(i for i, c in enumerate(self._c) if u in c)


def _module(name, **members):
    m = types.ModuleType("networkit." + name)
    m.__dict__.update(members)
    sys.modules["networkit." + name] = m
    return m


from networkit import graphtools  # noqa: E402
distance = _module("distance", BidirectionalDijkstra=BidirectionalDijkstra, Dijkstra=Dijkstra, SPSP=SPSP, APSP=APSP, AStar=AStar)
graph = _module("graph", Graph=Graph)
graphio = _module("graphio", Format=Format, readGraph=readGraph, writeGraph=writeGraph)
components = _module("components", ConnectedComponents=ConnectedComponents)


def setNumberOfThreads(n):
    pass


def getMaxNumberOfThreads():
    return 1


def setSeed(seed, useThreadId):
    pass
