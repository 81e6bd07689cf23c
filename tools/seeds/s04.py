ID = "signal-carry-over-cpp"
PROPERTY = "C06"
NEEDS = "a signal plan with phase durations that are not multiples of the time step, C++ engine"
BREAKS = "time over a phase end is carried into the next phase instead of starting it afresh, so phases end early"
EDITS = [("uxsim/trafficpp/traffi.cpp", """            signal_phase++;
            signal_t = 0;""", """            signal_t = (signal_t - signal_intervals[signal_phase] < w->delta_t) ? 0 : signal_t - signal_intervals[signal_phase];
            signal_phase++;""")]
DEMO = '''
W = World(cpp=True, deltan=5, tmax=600, **Q)
for n, x in (("a", 0), ("b", 1), ("d", 3)): W.addNode(n, x, 0)
c = W.addNode("c", 2, 0, signal=[60, 20])
W.addLink("l1", "a", "c", 500, signal_group=[0]); W.addLink("l2", "b", "c", 500, signal_group=[1]); W.addLink("l3", "c", "d", 500)
W.adddemand("a", "d", 0, 100, 0.2)
W.exec_simulation(until_t=50)
c.override_signal([20, 40])          # phase 0 has already lasted longer than its new duration
W.exec_simulation(until_t=300)
log = list(c.signal_log)
runs = []
for p in log:
    if runs and runs[-1][0] == p: runs[-1][1] += 1
    else: runs.append([p, 1])
expect(runs[1][1] == 9, runs)
'''
