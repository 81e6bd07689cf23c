ID = "abort-departure-curve-cpp"
PROPERTY = "C01"
NEEDS = "trips aborted at a dead end, C++ engine"
BREAKS = "vehicles whose trip is aborted at a dead end are not counted as having left the link"
EDITS = [("uxsim/trafficpp/traffi.cpp", """    w->link_trips_completed[link->id] += 1.0;
    link->departure_curve[w->timestep] += w->delta_n;""", """    w->link_trips_completed[link->id] += 1.0;
    if (!flag_trip_aborted || follower != nullptr){
        link->departure_curve[w->timestep] += w->delta_n;
    }""")]
DEMO = '''
W = World(cpp=True, deltan=5, tmax=1000, **Q)
for n, x in (("a", 0), ("b", 1), ("c", 2)): W.addNode(n, x, 0)
W.addNode("z", 9, 9)
l = W.addLink("l1", "a", "b", 500); m = W.addLink("l2", "b", "c", 500)
vs = [W.addVehicle("a", "z", 0), W.addVehicle("a", "z", 0), W.addVehicle("a", "z", 300)]
W.exec_simulation()
expect(m.cum_arrival[-1] == 15 and m.cum_departure[-1] == 15, (m.cum_arrival[-1], m.cum_departure[-1]))
'''
