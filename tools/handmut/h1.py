U = "uxsim/uxsim.py"; C = "uxsim/trafficpp/traffi.cpp"
M = [
("late-never-departs", U, "if s.W.T >= s.departure_time:", "if s.W.T == int(s.departure_time):", "C20"),
("capin-burst-one-lane", U, "            if s.capacity_in_remain < s.W.DELTAN*s.number_of_lanes:", "            if s.capacity_in_remain < s.W.DELTAN:", "C04"),
("unsignalised-blocks", U, "or len(s.signal)<=1)", "or len(s.signal)<1)", "C06"),
("continue-break", U, "                if len(vehs) == 0:\n                    continue", "                if len(vehs) == 0:\n                    break", "C07"),
("nocyclic-2", U, "for l in s.log_t_link[1:]]", "for l in s.log_t_link[2:]]", "C08"),
("endtrip-one-per-step", U, "            for lane in range(link.number_of_lanes):\n                if len(link.vehicles) and link.vehicles[0].flag_waiting", "            for lane in range(1):\n                if len(link.vehicles) and link.vehicles[0].flag_waiting", "C08"),
("abort-tt", U, "            s.arrival_time = -1\n            s.travel_time = -1\n", "            s.arrival_time = -1\n", "C10"),
("toll-now-0", U, "link.traveltime_instant[-1] + link.get_toll(t)", "link.traveltime_instant[-1] + link.get_toll(0)", "C09"),
("taxi-pop-last", U, "s.dest = s.dest_list.pop(0)", "s.dest = s.dest_list.pop()", "C17"),
("taxi-order-insert", U, "s.dest_list.insert(order, s.W.get_node(dest))", "s.dest_list.insert(order+1, s.W.get_node(dest))", "C17"),
("adddest-pref", U, "                s.dest = s.W.get_node(dest)\n                s.route_pref_update(weight=1)", "                s.dest = s.W.get_node(dest)", "C17"),
("xy-right", U, "            i = bisect.bisect_left(s.log_t, t)\n            if i == len(s.log_t) or s.log_t[i] > t:\n                i -= 1  #the latest log before t", "            i = min(bisect.bisect_left(s.log_t, t), len(s.log_t)-1)", "C23"),
("gen-cap-strict", U, "outlink.capacity_in_remain >= s.W.DELTAN:\n                        #受け入れ可能な場合", "outlink.capacity_in_remain > s.W.DELTAN:\n                        #受け入れ可能な場合", "C05"),
("node-cap-strict", U, "and s.flow_capacity_remain >= s.W.DELTAN:", "and s.flow_capacity_remain > s.W.DELTAN:", "C07"),
("node-lanes-from-cap", U, "s.number_of_lanes = math.ceil(flow_capacity/0.8)", "s.number_of_lanes = math.ceil(flow_capacity/0.4)", "C04 C22"),
("remain-leader-now", U, "x_cong = veh.leader.x_old - veh.link.delta_per_lane*veh.W.DELTAN", "x_cong = veh.leader.x - veh.link.delta_per_lane*veh.W.DELTAN", "C03"),
("open-links-mask", U, "(end_nodes == s.next[start_nodes, k]) & open_links", "(end_nodes == s.next[start_nodes, k])", "C09"),
("tt-instant-floor", U, "if speed > s.u/100:", "if speed > s.u/20:", "C10"),
("override-reset-t", U, "            s.signal_phase = 0\n            s.signal_t = 0\n        if signal_offset_old", "            s.signal_phase = 0\n            s.signal_t = getattr(s, 'signal_t', 0)\n        if signal_offset_old", "C20"),
("speed-change-capacity", U, "            s.u = new_value\n            s.w = 1/s.tau/s.kappa\n            s.capacity = s.u*s.w*s.kappa/(s.u+s.w)", "            s.u = new_value\n            s.w = 1/s.tau/s.kappa", "C20"),
("density-change-lane", U, "            s.delta = 1/s.kappa\n            s.delta_per_lane = s.delta*s.number_of_lanes\n        else:\n            warnings.warn(f\"ignored negative jam_density", "            s.delta = 1/s.kappa\n            s.delta_per_lane = s.delta\n        else:\n            warnings.warn(f\"ignored negative jam_density", "C20"),
("tt-overwrite-after-only", U, "inlink.traveltime_actual[round(veh.link_arrival_time/s.W.DELTAT):] =", "inlink.traveltime_actual[round(veh.link_arrival_time/s.W.DELTAT)+1:] =", "C10"),
("tt-end-same", U, "(s.W.T+1)*s.W.DELTAT - s.link_arrival_time  #", "(s.W.T)*s.W.DELTAT - s.link_arrival_time  #", "C10"),
("merge-zero-pos", U, "                if sum(merge_priorities) == 0:\n                    merge_priorities = np.ones", "                if min(merge_priorities) == 0:\n                    merge_priorities = np.ones", "C07"),
("move-remain-kept", U, "                veh.move_remain = 0\n\n", "\n", "C03"),
("enforce-keeps-avoid", U, "        if set_avoid:\n            s.links_avoid = [s.W.get_link(l) for l in s.W.LINKS if l not in s.links_prefer]", "        if set_avoid:\n            s.links_avoid = [s.W.get_link(l) for l in s.W.LINKS if l in s.links_prefer]", "C08"),
("running-not-popped", U, "        s.W.VEHICLES_RUNNING.pop(s.name)\n", "        s.W.VEHICLES_RUNNING.pop(s.name) if not s.flag_trip_aborted else None\n", "C01"),
("signal-ge", U, "if s.signal_t > s.signal[s.signal_phase]:", "if s.signal_t >= s.signal[s.signal_phase]:", "C06"),
("offset-ignored-zero-phase", U, "            offset = (s.cycle_length-s.signal_offset)%s.cycle_length\n", "            offset = s.signal_offset%s.cycle_length\n", "C06"),
("gradual-weight", U, "weight0 = min(s.W.DUO_UPDATE_WEIGHT * (s.W.DELTAT / s.W.DUO_UPDATE_TIME), 1)", "weight0 = min(s.W.DUO_UPDATE_WEIGHT / max(int(s.W.DUO_UPDATE_TIME/s.W.DELTAT), 1), 1)", "C09"),
]
