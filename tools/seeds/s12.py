ID = "color-drawn-only-for-output-py"
PROPERTY = "C12"
NEEDS = "comparing a run with output (save_mode or show_mode) against the same run without, in a scenario with random choices"
BREAKS = "vehicle colours are drawn from the world's random stream only when there will be visual output, so output settings change the history"
EDITS = [("uxsim/uxsim.py", """        s.color = (s.W.rng.random(), s.W.rng.random(), s.W.rng.random())
""", """        if s.W.save_mode or s.W.show_mode:
            s.color = (s.W.rng.random(), s.W.rng.random(), s.W.rng.random())
        else:
            s.color = (0.5, 0.5, 0.5) #not drawn
""")]
DEMO = '''
import tempfile
os.environ["PYTHONPATH"] = os.getcwd()
def run(save):
    W = World(deltan=5, tmax=1500, random_seed=4, print_mode=0, save_mode=save, show_mode=0)
    for n, x, y in (("a", 0, 0), ("b", 1, 1), ("c", 1, -1), ("d", 2, 0), ("e", 3, 0)): W.addNode(n, x, y)
    W.addLink("ab", "a", "b", 600); W.addLink("ac", "a", "c", 600); W.addLink("bd", "b", "d", 600); W.addLink("cd", "c", "d", 600); W.addLink("de", "d", "e", 600)
    W.adddemand("a", "e", 0, 700, 0.9); W.adddemand("b", "e", 0, 700, 0.3)
    W.exec_simulation()
    return [(v.travel_time, [l.name for l in v.traveled_route()[0]]) for v in W.VEHICLES.values()]
d = tempfile.mkdtemp(); cwd = os.getcwd(); os.chdir(d)
x = run(0); y = run(1)
os.chdir(cwd)
import shutil; shutil.rmtree(d)
expect(x == y, "history depends on save_mode")
'''
