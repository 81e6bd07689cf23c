ID = "area-mean-weighted-by-all-trips-py"
PROPERTY = "C16"
NEEDS = "an area-to-area table over OD pairs of which some complete a smaller share of their trips than others"
BREAKS = "the mean travel time between areas weights each OD pair by all its trips and divides by the completed ones"
EDITS = [("uxsim/analyzer.py", """                    average_travel_time = (completed_tripss*average_travel_times).sum()/completed_trips
                    var_""", """                    average_travel_time = (total_tripss*average_travel_times).sum()/total_trips
                    var_""")]
DEMO = '''
W = World(deltan=5, tmax=900, random_seed=1, **Q)
for n, x, y in (("a", 0, 1), ("b", 0, -1), ("m", 1, 0), ("e", 2, 0)): W.addNode(n, x, y)
W.addLink("am", "a", "m", 500, merge_priority=1); W.addLink("bm", "b", "m", 1500, merge_priority=1); W.addLink("me", "m", "e", 500)
W.adddemand("a", "e", 0, 300, 0.3); W.adddemand("b", "e", 0, 880, 0.4)
W.exec_simulation()
t = W.analyzer.areas2areas_to_pandas([["a", "b"], ["e"]], ["x", "y"])
tt = [v.travel_time for v in W.VEHICLES.values() if v.state == "end"]
expect(len(tt) < len(W.VEHICLES))
row = t[(t.origin_area == "x") & (t.destination_area == "y")]
expect(abs(float(row.average_travel_time.iloc[0]) - sum(tt)/len(tt)) < 1e-6, (row, sum(tt)/len(tt)))
'''
