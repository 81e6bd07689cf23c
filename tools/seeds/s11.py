ID = "resume-refreshes-routes-py"
PROPERTY = "C11"
NEEDS = "a run split at a time step that is not a route update, while the travel times of alternative routes differ from those at the last update"
BREAKS = "route choice is updated additionally at the first step of every exec_simulation call, so a split run differs from an uninterrupted one"
EDITS = [("uxsim/uxsim.py", """            else:
                if W.T % W.DELTAT_ROUTE == 0:
                    W.ROUTECHOICE""", """            else:
                if W.T % W.DELTAT_ROUTE == 0 or W.T == start_ts:
                    W.ROUTECHOICE""")]
DEMO = '''
def build():
    W = World(deltan=5, tmax=2400, random_seed=3, duo_update_time=300, **Q)
    for n, x, y in (("a", 0, 0), ("b", 1, 0), ("p", 2, 1), ("q", 2, -1), ("c", 3, 0), ("d", 4, 0)): W.addNode(n, x, y)
    W.addLink("l0", "a", "b", 500, number_of_lanes=2)
    W.addLink("u1", "b", "p", 1000); W.addLink("u2", "p", "c", 1000, capacity_out=0.3)
    W.addLink("w1", "b", "q", 1300); W.addLink("w2", "q", "c", 1300, capacity_out=0.3)
    W.addLink("l9", "c", "d", 500, number_of_lanes=2)
    W.adddemand("a", "d", 0, 1500, 0.7)
    return W
A = build(); A.exec_simulation()
B = build()
B.exec_simulation(duration_t2=415); B.exec_simulation(duration_t2=700); B.exec_simulation()
for k in A.VEHICLES:
    expect(A.VEHICLES[k].travel_time == B.VEHICLES[k].travel_time, k)
    expect([l.name for l in A.VEHICLES[k].traveled_route()[0]] == [l.name for l in B.VEHICLES[k].traveled_route()[0]], k)
'''
