ID = "matching-skips-after-assignment-py"
PROPERTY = "C17"
NEEDS = "the radius-limited nearest handler with two or more waiting requests and two or more vacant taxis in reach at one matching"
BREAKS = "the list of requests is iterated while assigned requests are removed from it, so the request after an assigned one is skipped"
EDITS = [("uxsim/TaxiHandler/TaxiHandler.py", """        Assigns trip request to nearest available taxi that is within the radious of the origin node.
        \"\"\"
        vacant_taxis = [veh for veh in s.W.VEHICLES.values() if veh.mode == "taxi" and veh.state == "run" and veh.dest == None]
        for trip_request in s.trip_requests[:]:""", """        Assigns trip request to nearest available taxi that is within the radious of the origin node.
        \"\"\"
        vacant_taxis = [veh for veh in s.W.VEHICLES.values() if veh.mode == "taxi" and veh.state == "run" and veh.dest == None]
        for trip_request in s.trip_requests:""")]
DEMO = '''
from uxsim.TaxiHandler import *
from uxsim.TaxiHandler.TaxiHandler import TaxiHandler_nearest_matching_radious
W = World(deltan=1, tmax=800, random_seed=1, **Q)
W.addNode("a", 0, 0); W.addNode("b", 1000, 0)
W.addLink("ab", "a", "b", 1000); W.addLink("ba", "b", "a", 1000)
for i in range(3): W.addVehicle("a", None, i, mode="taxi")
H = TaxiHandler_nearest_matching_radious(W, 1500)
for i in range(3): H.add_trip_request("a", "b", 0)
W.exec_simulation(duration_t2=20)
H.assign_trip_request_to_taxi()
expect(len(H.trip_requests) == 0, len(H.trip_requests))
'''
