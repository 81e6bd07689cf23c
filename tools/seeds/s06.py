ID = "route-log-at-logging-steps-py"
PROPERTY = "C10"
NEEDS = "vehicle_logging_timestep_interval larger than 1 and a vehicle entering a link between two logging steps"
BREAKS = "the route log (traveled_route, log_t_link) is only written at the logging steps, so entry times are late"
EDITS = [("uxsim/uxsim.py", """        if s.link != s.link_old:
            if s.state == "run":
                s.log_t_link.append""", """        if s.link != s.link_old and (enforce_log or s.W.T%max(s.W.vehicle_logging_timestep_interval, 1) == 0):
            if s.state == "run":
                s.log_t_link.append""")]
DEMO = '''
W = World(deltan=5, tmax=1500, random_seed=1, vehicle_logging_timestep_interval=3, **Q)
for n, x in (("a", 0), ("b", 1), ("c", 2), ("d", 3)): W.addNode(n, x, 0)
ls = [W.addLink("l1", "a", "b", 500), W.addLink("l2", "b", "c", 700), W.addLink("l3", "c", "d", 500)]
W.adddemand("a", "d", 0, 600, 0.5)
W.exec_simulation()
for v in W.VEHICLES.values():
    r, ts = v.traveled_route()
    for l, t in zip(r, ts):
        if l.name != "l1":
            expect(l.vehicles_enter_log.get(t) is v, (v.name, l.name, t))
'''
