ID = "leader-lost-on-lane-change-py"
PROPERTY = "C02"
NEEDS = "a transfer from a congested multi-lane link: the vehicle behind in the lane keeps following the one that left"
BREAKS = "the follower of a vehicle that left the link is only released when it sits right behind it in the queue"
EDITS = [("uxsim/uxsim.py", """                if len(outlink.vehicles) > 0:
                    veh.lane = (outlink.vehicles[-1].lane + 1)%outlink.number_of_lanes
                else:
                    veh.lane = 0
                
                veh.leader = None
                if len(outlink.vehicles) >= outlink.number_of_lanes:""", """                if len(outlink.vehicles) > 0:
                    veh.lane = (outlink.vehicles[-1].lane + 1)%outlink.number_of_lanes
                else:
                    veh.lane = 0
                
                veh.leader = None
                if len(outlink.vehicles) >= outlink.number_of_lanes and (outlink.number_of_lanes < 3 or inlink.number_of_lanes >= 3):""")]
DEMO = '''
W = World(deltan=5, tmax=1500, random_seed=1, **Q)
for n, x in (("a", 0), ("b", 1), ("c", 2), ("d", 3)): W.addNode(n, x, 0)
W.addLink("l1", "a", "b", 1000, number_of_lanes=2)
l2 = W.addLink("l2", "b", "c", 1000, number_of_lanes=3)
W.addLink("l3", "c", "d", 500, capacity_in=0.2)
W.adddemand("a", "d", 0, 600, 1.0)
while W.check_simulation_ongoing():
    W.exec_simulation(duration_t2=5)
    vs = list(l2.vehicles)
    for i in range(3, len(vs)):
        expect(vs[i-3].x - vs[i].x >= l2.delta_per_lane*5 - 1e-6, (W.T, vs[i-3].x, vs[i].x))
'''
