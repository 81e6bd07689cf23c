ID = "distance-of-last-parallel-link-py"
PROPERTY = "C19"
NEEDS = "two links from the same node to the same node, the longer one added later, and a shortest path through them"
BREAKS = "shortest distances between nodes use the length of the last parallel link instead of the shortest one"
EDITS = [("uxsim/Utilities/Utilities.py", """        distances[i, j] = min(distances[i, j], link.length)

    # Use Dijkstra""", """        distances[i, j] = link.length

    # Use Dijkstra""")]
DEMO = '''
from uxsim.Utilities import *
W = World(deltan=5, tmax=1200, random_seed=1, **Q)
W.addNode("a", 0, 0); W.addNode("b", 1, 0); W.addNode("c", 2, 0)
W.addLink("r", "a", "b", 1000); W.addLink("s", "a", "b", 1500); W.addLink("t", "b", "c", 700)
d = get_shortest_path_distance_between_all_nodes(W)
expect(abs(d["a", "c"]-1700) < 1e-6 and abs(d["a", "b"]-1000) < 1e-6, (d["a", "c"], d["a", "b"]))
'''
