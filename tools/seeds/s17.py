ID = "edie-extrapolates-unfinished-py"
PROPERTY = "C21"
NEEDS = "vehicles still in the middle of a link when the run ends (or stuck), and a look at the aggregate states there"
BREAKS = "the recorded trajectory is completed to the end of the link even if its last record is far from it, so distance not travelled is counted"
EDITS = [("uxsim/analyzer.py", """                    if l.length-l.u*s.W.DELTAT <= l.xss[i][-1] < l.length:
""", """                    if l.xss[i][-1] < l.length:
""")]
DEMO = '''
W = World(deltan=5, tmax=600, random_seed=1, **Q)
W.addNode("a", 0, 0); W.addNode("b", 1, 0); W.addNode("c", 2, 0)
l = W.addLink("ab", "a", "b", 4000, eular_dx=250); W.addLink("bc", "b", "c", 1000)
W.adddemand("a", "c", 0, 600, 0.4)
W.exec_simulation(until_t=300)
W.analyzer.compute_edie_state()
tot = 5*sum(v.x if v.link is l else (4000 if v.link or v.state in ('end',) else 0) for v in W.VEHICLES.values() if v.state in ('run', 'end'))
expect(l.dn_mat.sum() <= tot + 1e-6, (l.dn_mat.sum(), tot))
'''
