ID = "route-update-shorter-than-step-cpp"
PROPERTY = "C13"
NEEDS = "C++ engine with a route update interval that is shorter than a timestep"
BREAKS = "the interval of the route updates in timesteps is rounded up beyond one timestep's minimum, so that the C++ engine updates routes half as often as the Python engine"
EDITS = [("uxsim/trafficpp/traffi.cpp", """    if (timestep_for_route_update == 0){
        timestep_for_route_update = 1;
    }
""", """    if (timestep_for_route_update < 2){
        timestep_for_route_update = 2;
    }
""")]
DEMO = '''
def run(cpp):
    W = World(cpp=cpp, deltan=5, tmax=1200, random_seed=1, duo_update_time=2, duo_update_weight=1, hard_deterministic_mode=True, **Q)
    for n, x, y in [("o",0,0),("a",1,1),("b",1,-1),("d",2,0)]:
        W.addNode(n, x, y)
    W.addLink("oa", "o", "a", 1000, 20, jam_density=0.2); W.addLink("ad", "a", "d", 1000, 20, capacity_in=0.2)
    W.addLink("ob", "o", "b", 1100, 20); W.addLink("bd", "b", "d", 1100, 20, capacity_in=0.2)
    W.adddemand("o", "d", 0, 1000, 0.7)
    W.exec_simulation()
    return [[l.cum_arrival[i] for i in range(0, 230)] for l in W.LINKS]
a, b = run(False), run(True)
expect([list(map(float, x)) for x in a] == [list(map(float, x)) for x in b], "curves differ")
'''
