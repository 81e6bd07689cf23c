ID = "spacing-multilane-entry-py"
PROPERTY = "C05"
NEEDS = "a spilled-back multi-lane link whose newest vehicle is far in but the one it would follow is not"
BREAKS = "the entrance of a multi-lane link is judged by the last entrant instead of the vehicle ahead in the lane"
EDITS = [("uxsim/uxsim.py", """            if (len(outlink.vehicles) < outlink.number_of_lanes or outlink.vehicles[-outlink.number_of_lanes].x > outlink.delta_per_lane*s.W.DELTAN) and outlink.capacity_in_remain >= s.W.DELTAN and s.flow_capacity_remain >= s.W.DELTAN:""",
"""            lanes_here = min(outlink.number_of_lanes, 2)
            if (len(outlink.vehicles) < outlink.number_of_lanes or outlink.vehicles[-outlink.number_of_lanes].x > outlink.delta_per_lane*s.W.DELTAN*lanes_here/outlink.number_of_lanes) and outlink.capacity_in_remain >= s.W.DELTAN and s.flow_capacity_remain >= s.W.DELTAN:""")]
DEMO = '''
W = World(deltan=5, tmax=1000, random_seed=1, **Q)
for n, x in (("a", 0), ("b", 1), ("c", 2), ("d", 3)): W.addNode(n, x, 0)
W.addLink("l1", "a", "b", 1000, number_of_lanes=3)
l2 = W.addLink("l2", "b", "c", 520, number_of_lanes=3)
W.addLink("l3", "c", "d", 500, capacity_in=0.2)
W.adddemand("a", "d", 0, 600, 1.5)
while W.check_simulation_ongoing():
    W.exec_simulation(duration_t2=5)
    vs = list(l2.vehicles)
    for i in range(3, len(vs)):
        expect(vs[i-3].x - vs[i].x >= l2.delta_per_lane*5 - 1e-6, (W.T, vs[i-3].x, vs[i].x))
'''
