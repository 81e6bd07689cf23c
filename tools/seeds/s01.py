ID = "gen-no-inflow-spend-cpp"
PROPERTY = "C04"
NEEDS = "vehicles generated at a node that also passes through traffic into a link with a limited inflow capacity, C++ engine"
BREAKS = "vehicles starting their trip on a link do not use up its inflow capacity"
EDITS = [("uxsim/trafficpp/traffi.cpp", """        outlink->arrival_curve[w->timestep] += w->delta_n;
        outlink->capacity_in_remain -= w->delta_n;
    }
}""", """        outlink->arrival_curve[w->timestep] += w->delta_n;
        if (outlink->start_node->in_links.empty()){
            outlink->capacity_in_remain -= w->delta_n;
        }
    }
}""")]
DEMO = '''
W = World(cpp=True, deltan=5, tmax=2000, random_seed=0, **Q)
for n, x in (("a", 0), ("b", 1), ("c", 2)): W.addNode(n, x, 0)
W.addLink("l1", "a", "b", 1000)
l2 = W.addLink("l2", "b", "c", 1000, capacity_in=0.3)
W.adddemand("a", "c", 0, 1000, 0.4)
W.adddemand("b", "c", 0, 1000, 0.4)
W.exec_simulation()
a = np.array(l2.cum_arrival)
for i in range(0, len(a), 20):
    for j in range(i, len(a), 20):
        expect(a[j] - a[i] <= 0.3 * 5 * (j - i) + 7, (i, j, a[j] - a[i]))
'''
