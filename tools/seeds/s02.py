ID = "merge-tie-last-py"
PROPERTY = "C07"
NEEDS = "hard deterministic mode and three competing links of which two share the highest priority"
BREAKS = "ties of merge priority are broken towards the last instead of the first vehicle"
EDITS = [("uxsim/uxsim.py", """                    veh = max(zip(merge_priorities, vehs), key=lambda x:x[0])[1]
                
""", """                    veh = vehs[np.argsort(merge_priorities, kind="stable")[-1]]
                
""")]
DEMO = '''
W = World(deltan=5, tmax=600, hard_deterministic_mode=True, **Q)
for n, x in (("a", 0), ("b", 1), ("c", 2), ("d", 3)): W.addNode(n, x, 0)
W.addLink("l1", "a", "c", 500); W.addLink("l2", "b", "c", 500); W.addLink("l3", "c", "d", 500)
v1 = W.addVehicle("a", "d", 0); v2 = W.addVehicle("b", "d", 0)
W.exec_simulation()
expect(v1.arrival_time < v2.arrival_time, (v1.arrival_time, v2.arrival_time))
'''
