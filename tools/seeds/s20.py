ID = "traveltime-materialized-once-cpp"
PROPERTY = "C23"
NEEDS = "C++ engine; a query of an actual travel time during the run, then more vehicles leaving the link, then another query"
BREAKS = "the actual travel times of a link are frozen by the first query of them: later vehicles leave no trace in them"
EDITS = [("uxsim/trafficpp/traffi.cpp", """    if (traveltime_real_events_applied >= n_events) return;
""", """    if (n_events == 0 || traveltime_real_events_applied > 0) return; // already materialized
""")]
DEMO = '''
def run(ask):
    W = World(cpp=True, deltan=5, tmax=2400, random_seed=1, **Q)
    W.addNode("a", 0, 0); W.addNode("b", 1, 0); W.addNode("c", 2, 0)
    l = W.addLink("ab", "a", "b", 1000, 20); W.addLink("bc", "b", "c", 1000, 20, capacity_in=0.3)
    W.adddemand("a", "c", 0, 1500, 0.6)
    for t in (300, 700, 1500, 2400):
        W.exec_simulation(until_t=t)
        if ask:
            l.actual_travel_time(100)
    return [l.actual_travel_time(t) for t in range(0, 2000, 50)]
a, b = run(0), run(1)
expect(a == b, [x for x in zip(a, b) if x[0] != x[1]][:5])
'''
