ID = "entry-behind-moving-leader-cpp"
PROPERTY = "C03"
NEEDS = "two vehicles that cross a node in consecutive steps with distance left over, onto a slower link, C++ engine"
BREAKS = "the distance left over at a crossing is limited by where the leader is now instead of where it was one reaction time ago"
EDITS = [("uxsim/trafficpp/traffi.cpp", """            double x_cong = chosen_veh->leader->x_old - outlink->delta_per_lane * w->delta_n;""",
"""            double x_cong = chosen_veh->leader->x - outlink->delta_per_lane * w->delta_n;""")]
DEMO = '''
def run(cpp):
    W = World(cpp=cpp, deltan=5, tmax=600, **Q)
    for n, x in (("a", 0), ("b", 1), ("c", 2)): W.addNode(n, x, 0)
    W.addLink("l1", "a", "b", 470, free_flow_speed=10); W.addLink("l2", "b", "c", 2000, free_flow_speed=5)
    vs = [W.addVehicle("a", "c", 0), W.addVehicle("a", "c", 5)]
    out = []
    while W.check_simulation_ongoing():
        W.exec_simulation(duration_t2=5)
        out.append([(v.state, v.link.name, round(v.x, 6), round(v.v, 6), round(v.distance_traveled, 6)) if v.state == "run" else v.state for v in vs])
    return out
a, b = run(False), run(True)
expect(a == b, [z for z in zip(a, b) if z[0] != z[1]][:2])
'''
