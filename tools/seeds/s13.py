ID = "demand-one-platoon-per-step-py"
PROPERTY = "C14"
NEEDS = "a demand flow of more than one platoon per time step (flow * DELTAT > DELTAN, for example 1.5 veh/s with the default reaction time)"
BREAKS = "at most one vehicle object departs per time step, so demands above one platoon per step lose volume"
EDITS = [("uxsim/uxsim.py", """                W.addVehicle(orig, dest, t, departure_time_is_time_step=1, attribute=attribute, direct_call=False)
                f -= W.DELTAN
""", """                W.addVehicle(orig, dest, t, departure_time_is_time_step=1, attribute=attribute, direct_call=False)
                f = f - W.DELTAN
                break
""")]
DEMO = '''
W = World(deltan=5, tmax=1500, **Q)
W.addNode("a", 0, 0); W.addNode("b", 1, 0); W.addLink("l", "a", "b", 1000, number_of_lanes=3)
W.adddemand("a", "b", 0, 500, 1.6)
n = len(W.VEHICLES)*5
expect(abs(n - 800) <= 5, n)
'''
