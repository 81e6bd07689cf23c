P, W, C, T, D, UT = "uxsim/uxsim.py", "uxsim/uxsim_cpp_wrapper.py", "uxsim/trafficpp/traffi.cpp", "uxsim/TaxiHandler/TaxiHandler.py", "uxsim/DTAsolvers/DTAsolvers.py", "uxsim/Utilities/Utilities.py"
M = [
# wrapper
("w-avgtt-unweighted", W, "return np.average([self.actual_travel_time(t) for t in t_list], weights=n_list)", "return np.average([self.actual_travel_time(t) for t in t_list])", "C23"),
("w-prefer-first", W, "self._cpp_vehicle.links_preferred = [self.W.get_link(l)._cpp_link for l in links]", "self._cpp_vehicle.links_preferred = list(self._cpp_vehicle.links_preferred) + [self.W.get_link(l)._cpp_link for l in links]", "C20 C08"),
("w-offset-old", W, "self._cpp_node.signal_offset = float(self.signal_offset)\n", "self._cpp_node.signal_offset = float(self.signal_offset) % self.cycle_length\n", "C20"),
("w-route-tt-depart", W, "ltt = link.actual_travel_time(ct)", "ltt = link.actual_travel_time(t)", "C19"),
("w-route-conn-last", W, "for i in range(len(self.links) - 1):\n                if self.links[i].end_node", "for i in range(len(self.links) - 2):\n                if self.links[i].end_node", "C22 C19"),
("w-coords-search-right", W, "i = int(np.searchsorted(self.log_t, t))\n            if i == len(self.log_t) or self.log_t[i] > t:", "i = int(np.searchsorted(self.log_t, t))\n            if i == len(self.log_t):", "C23"),
("w-traveled-depart", W, 'if l == "home" and include_departure_time:', 'if l == "home" and include_departure_time and len(self.log_t_link) > 2:', "C23"),
("w-toll-floor", W, "float(self._congestion_pricing(t * self.W.DELTAT)) for t in range(self.W.TSIZE)", "float(self._congestion_pricing(int(t * self.W.DELTAT))) for t in range(self.W.TSIZE)", "C09 C13"),
("w-kstar", W, "self.k_star = self.capacity / self.u if self.u > 0 else 0", "pass", "C20"),
("w-signal-phase-reset", W, "if self._cpp_node.signal_phase >= len(value):", "if self._cpp_node.signal_phase > len(value):", "C20"),
# demand
("d-area2-orig-only", P, "                if any(dd!=d for dd in dests):\n                    d2 = W.rng.choice([dd for dd in dests if dd!=d])\n                else:\n                    o2 = W.rng.choice([oo for oo in origs if oo!=o])\n            W.addVehicle(o2, d2, t, attribute=attribute, direct_call=False)\n\n\n", "                if any(dd!=d for dd in dests):\n                    d2 = W.rng.choice([dd for dd in dests if dd!=d])\n            W.addVehicle(o2, d2, t, attribute=attribute, direct_call=False)\n\n\n", "C14"),
("d-horizon", P, "W.TMAX = (tmax//1800+2)*1800", "W.TMAX = (tmax//1800+1)*1800 + 1800*(tmax%1800 > 0)", "C22"),
# taxi
("t-nearest-open-only", T, "        del s.taxi.node_event[s.orig]\n\n        s.taxi.add_dest(s.dest)\n", "        s.taxi.add_dest(s.dest)\n        del s.taxi.node_event[s.orig]\n", "C17"),
("t-same-od", T, "        s.taxi.node_event[s.dest] = s.arrive_at_dest\n", "        s.taxi.node_event.setdefault(s.dest, s.arrive_at_dest)\n", "C17"),
("t-radius-strict", T, "if dist <= s.matching_radious and dist <= dist_tmp:", "if dist < s.matching_radious and dist <= dist_tmp:", "C17"),
("t-radius-break", T, "                if taxi_tmp != None:\n                    vacant_taxis.remove(taxi_tmp)\n                    s.assign_taxi(taxi_tmp, trip_request)\n\n\nclass TaxiHandler_nearest_network", "                if taxi_tmp == None:\n                    break\n                vacant_taxis.remove(taxi_tmp)\n                s.assign_taxi(taxi_tmp, trip_request)\n\n\nclass TaxiHandler_nearest_network", "C17"),
("t-wait-unassigned", T, "            if tr.get_taxi_time != None:\n                s.waiting_times.append(tr.get_taxi_time - tr.depart_time)", "                s.waiting_times.append(tr.get_taxi_time - tr.depart_time)", "C17"),
("t-depart-strict", T, "            if trip_request.depart_time <= s.W.TIME:\n                taxi = vacant", "            if trip_request.depart_time < s.W.TIME:\n                taxi = vacant", "C17"),
# DTA
("dta-toll-at-departure", D, "cost_alt = alt_route.actual_travel_time(ts[0]) + sum([l.get_toll(ts[0]+sum(alt_route_tts[:i])) for i,l in enumerate(alt_route)])", "cost_alt = alt_route.actual_travel_time(ts[0]) + sum([l.get_toll(ts[0]) for i,l in enumerate(alt_route)])", "C18") if 0 else ("dta-gap-mean", D, "            t_gap_per_vehicle = total_t_gap/len(W.VEHICLES)\n            if print_progress:\n                print(f' iter {i}: time gap: {t_gap_per_vehicle:.1f}, potential route change: {potential_n_swap}, route change: {n_swap}, total travel time: {W.analyzer.total_travel_time: .1f}, delay ratio: {W.analyzer.average_delay/W.analyzer.average_travel_time: .3f}')\n\n            s.route_log.append(route_actual)\n            s.cost_log.append(cost_actual)\n", "", "C18") if 0 else ("dta-names-od", D, "o = W_orig.get_node(key[0]).name", "o = str(key[0])", "C18") if 0 else
("ut-kshort-strict", UT, "G.add_edge(l.start_node.name, l, weight=cost_function(l, t))", "G.add_edge(l.start_node.name, l, weight=cost_function(l, t - W.DELTAT))", "C19"),
("ut-random-parallel", UT, 'or weight < G[l.start_node.name][l.end_node.name]["weight"]:', 'or (iteration == 0 and weight < G[l.start_node.name][l.end_node.name]["weight"]):', "C19"),
# C++
("c-route-enum-parallel", C, "", "", "C19") if 0 else ("w-cum-executed", W, "return self._cpp_link.get_cum_departure_np()[:self.W._cpp_world.timestep] #only the executed timesteps", "return self._cpp_link.get_cum_departure_np()[:self.W._cpp_world.timestep+1] #only the executed timesteps", "C23"),
]
