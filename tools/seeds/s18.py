ID = "due-toll-at-departure-py"
PROPERTY = "C18"
NEEDS = "a toll that depends on time and is on a later link of an alternative route, and vehicles whose arrival time at that link is in another toll period than their departure"
BREAKS = "the Python DUE solver compares the toll of alternative routes at the departure time of the trip instead of at the time each link would be entered, so vehicles swap to costlier routes"
EDITS = [("uxsim/DTAsolvers/DTAsolvers.py", "l.get_toll(ts[0]+sum(alt_route_tts[:i])) for i,l in enumerate(alt_route)", "l.get_toll(ts[0]) for i,l in enumerate(alt_route)")]
DEMO = '''
import random
from uxsim.DTAsolvers import DTAsolvers as D
from uxsim.DTAsolvers.DTAsolvers import *
def build():
    W = World(deltan=5, tmax=3000, random_seed=1, **Q)
    for n, x, y in [("o",0,0),("a",1,1),("b",1,-1),("d",2,0)]:
        W.addNode(n, x, y)
    W.addLink("oa", "o", "a", 4000, 20)
    W.addLink("ad", "a", "d", 4000, 20, congestion_pricing=lambda t: 0 if t < 150 else 100000)
    W.addLink("ob", "o", "b", 4000, 20)
    W.addLink("bd", "b", "d", 4400, 20)
    W.adddemand("o", "d", 0, 100, 0.2)
    return W
rs = {("o","d"): [["ob","bd"], ["oa","ad"]]}
random.seed(3); np.random.seed(3)
s = SolverDUE(build)
W = s.solve(max_iter=4, swap_prob=1, route_sets=rs, print_progress=False)
# leaving before 100 s, "ad" is always entered after 200 s, when its toll is prohibitive
bad = [(i, k) for i, rl in enumerate(s.route_log) if i >= 2 for k, r in rl.items() if r == ["oa", "ad"]]
expect(not bad, bad[:5])
'''
