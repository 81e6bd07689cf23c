ID = "false-attributes-not-saved-py"
PROPERTY = "C15"
NEEDS = "a network whose link has a falsy but meaningful attribute (merge priority 0 or an inflow capacity of 0) saved and loaded again"
BREAKS = "attributes with a false value are treated as not given and left out of the saved scenario"
EDITS = [("uxsim/scenario_reader_writer.py", """        args[param_name] = value
        for param in""", """        if param.default is not inspect.Parameter.empty and not value: #nothing to be saved
            continue

        args[param_name] = value
        for param in""")]
DEMO = '''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    W = World(deltan=5, tmax=1500, hard_deterministic_mode=False, random_seed=1, **Q)
    for n, x, y in (("a", 0, 1), ("b", 0, -1), ("m", 1, 0), ("e", 2, 0)): W.addNode(n, x, y)
    W.addLink("am", "a", "m", 500, merge_priority=0); W.addLink("bm", "b", "m", 500, merge_priority=1); W.addLink("me", "m", "e", 500)
    W.adddemand("a", "e", 0, 500, 0.5); W.adddemand("b", "e", 0, 500, 0.6)
    W.save_scenario(d + "/s.pkl")
    W2 = World(deltan=5, tmax=1500, random_seed=1, **Q)
    W2.load_scenario(d + "/s.pkl")
    expect(W2.get_link("am").merge_priority == 0, W2.get_link("am").merge_priority)
    expect(W2.get_node("a").x == 0 and W2.get_node("a").y == 1)
finally:
    shutil.rmtree(d)
'''
