ID = "override-signal-last-group-py"
PROPERTY = "C20"
NEEDS = "a signal overridden during the run with groups in which one link is green in more than one phase"
BREAKS = "only the last phase of a link counts, so the link stays red in the other phases in which it should be green"
EDITS = [("uxsim/uxsim.py", """                    raise ValueError(f"Link {l.name} is not an incoming link of node {s.name}.")
                phase_info[l].append(i)
""", """                    raise ValueError(f"Link {l.name} is not an incoming link of node {s.name}.")
                phase_info[l] = [i]
""")]
DEMO = '''
W = World(deltan=5, tmax=3000, random_seed=1, **Q)
for n, x, y in [("a",0,0),("b",0,1),("d",2,0)]:
    W.addNode(n, x, y)
m = W.addNode("m", 1, 0, signal=[60, 60])
am = W.addLink("am", "a", "m", 1000, 20, signal_group=[0]); bm = W.addLink("bm", "b", "m", 1000, 20, signal_group=[1]); W.addLink("md", "m", "d", 1000, 20)
W.adddemand("a", "d", 0, 2500, 0.5)
W.exec_simulation(until_t=600)
m.override_signal([40, 40, 40], groups=[["am"], ["am", "bm"], ["bm"]])
expect(sorted(am.signal_group) == [0, 1] and sorted(bm.signal_group) == [1, 2], (am.signal_group, bm.signal_group))
n0 = am.departure_count(700)
W.exec_simulation(until_t=2000)
q = (am.departure_count(1900) - n0)/1200
expect(q > 0.45, q)
'''
