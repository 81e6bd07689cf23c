ID = "route-memory-active-when-closed-cpp"
PROPERTY = "C09"
NEEDS = "C++ engine; every entrance to a destination closed (capacity_in 0) at the first route updates, opened later, then a change of the shortest path"
BREAKS = "the memory of route preferences counts as started although no link was preferred yet, so the first real preference gets only a fraction of its weight and later updates swing too far"
EDITS = [("uxsim/trafficpp/traffi.cpp", """        // A reinforced on-path link makes route_preference[k] strictly positive.
        if (reinforced) route_pref_active[k] = 1;
""", """        (void)reinforced;
        route_pref_active[k] = 1; // initialized
""")]
DEMO = '''
W = World(cpp=True, deltan=1, tmax=3000, random_seed=1, duo_update_time=300, duo_update_weight=0.25, **Q)
for n, x, y in [("o",0,0),("m",1,0),("a",2,1),("b",2,-1),("d",3,0)]:
    W.addNode(n, x, y)
W.addLink("om", "o", "m", 500, 20, number_of_lanes=3)
ma = W.addLink("ma", "m", "a", 1000, 20, number_of_lanes=3); ad = W.addLink("ad", "a", "d", 1000, 20, capacity_in=0, number_of_lanes=3)
mb = W.addLink("mb", "m", "b", 1200, 20, number_of_lanes=3); bd = W.addLink("bd", "b", "d", 1200, 20, capacity_in=0, number_of_lanes=3)
W.adddemand("o", "d", 1000, 1600, 1.0)
W.exec_simulation(until_t=650)
ad.capacity_in = 10; bd.capacity_in = 10
W.exec_simulation(until_t=950)      # a is preferred since 900
ma.route_choice_penalty = 10000     # from the update at 1200 on, b is the shortest
W.exec_simulation(until_t=1500)
nb = mb.cum_arrival[1480]-mb.cum_arrival[1205]; na = ma.cum_arrival[1480]-ma.cum_arrival[1205]
share = nb/(na+nb)                  # 0.25 after the first update that prefers b
expect(na + nb > 200 and share < 0.42, (na, nb, share))
'''
