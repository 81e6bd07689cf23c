P, C, U = "uxsim/uxsim.py", "uxsim/trafficpp/traffi.cpp", "uxsim/trafficpp/utils.h"
M = [
("py-uniform-route", P, "s.route_next_link = s.W.rng.choice(outlinks, p=preference/sum(preference))", "s.route_next_link = s.W.rng.choice([l for l, p in zip(outlinks, preference) if p > 0])", "C09"),
("py-sqrt-route", P, "s.route_next_link = s.W.rng.choice(outlinks, p=preference/sum(preference))", "s.route_next_link = s.W.rng.choice(outlinks, p=preference**0.5/sum(preference**0.5))", "C09"),
("py-uniform-origin", P, "outlink = s.W.rng.choice(outlinks, p=preference/sum(preference))", "outlink = s.W.rng.choice([l for l, p in zip(outlinks, preference) if p > 0])", "C09"),
("py-argmax-route", P, "s.route_next_link = s.W.rng.choice(outlinks, p=preference/sum(preference))", "s.route_next_link = outlinks[int(np.argmax(preference))]", "C09"),
("py-uniform-merge", P, "veh = s.W.rng.choice(vehs, p=merge_priorities/sum(merge_priorities))", "veh = s.W.rng.choice([v for v, p in zip(vehs, merge_priorities) if p > 0])", "C07"),
("py-square-merge", P, "veh = s.W.rng.choice(vehs, p=merge_priorities/sum(merge_priorities))", "veh = s.W.rng.choice(vehs, p=merge_priorities**2/sum(merge_priorities**2))", "C07"),
("c-uniform-merge", C, "merge_priorities.push_back(veh->link ? veh->link->merge_priority : 1.0);", "merge_priorities.push_back(veh->link && veh->link->merge_priority > 0 ? 1.0 : 0.0);", "C07"),
("c-lanes-merge", C, "merge_priorities.push_back(veh->link ? veh->link->merge_priority : 1.0);", "merge_priorities.push_back(veh->link ? veh->link->merge_priority + 0.3 : 1.0);", "C07"),
("c-uniform-route", C, "outlink_pref.push_back(w->route_preference[dest->id][ln->id]);", "outlink_pref.push_back(w->route_preference[dest->id][ln->id] > 0 ? 1.0 : 0.0);", "C09"),
]
