ID = "cyclic-routing-last-node-py"
PROPERTY = "C08"
NEEDS = "no_cyclic_routing, a vehicle that has gone through a loop-forming node as the start of its most recent link only"
BREAKS = "the start node of the link just travelled is not counted as visited"
EDITS = [("uxsim/uxsim.py", """                        traveled_nodes = set([l[1].start_node for l in s.log_t_link[1:]])""",
"""                        traveled_nodes = set([l[1].start_node for l in s.log_t_link[1:-1]])""")]
DEMO = '''
for seed in range(6):
    W = World(deltan=5, tmax=3000, no_cyclic_routing=True, random_seed=seed, **Q)
    for n, x in (("a", 0), ("b", 1), ("c", 2), ("d", 3)): W.addNode(n, x, 0)
    W.addLink("ab", "a", "b", 500); W.addLink("ba", "b", "a", 500); W.addLink("bc", "b", "c", 500); W.addLink("ac", "a", "c", 5000)
    W.addLink("cd", "c", "d", 500)
    W.addNode("z", 9, 9)
    vs = [W.addVehicle("a", "z", 0, trip_abort=1) for _ in range(6)]       # unreachable: wanders at random
    W.exec_simulation()
    for v in vs:
        names = [l.name for l in v.traveled_route()[0]]
        for i, n in enumerate(names[:-1]):
            expect(not (n == "ab" and names[i+1] == "ba"), names)
'''
