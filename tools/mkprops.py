#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
PY = "uxsim/uxsim.py"; CPP = "uxsim/trafficpp/traffi.cpp"; CH = "uxsim/trafficpp/traffi.h"; WR = "uxsim/uxsim_cpp_wrapper.py"
FONT = ("The 18 stable tests drive eight small hand-written scenarios through the raw C++ engine and check a handful of "
        "end-of-run averages with 10% tolerance; no Python-engine simulation runs at all. ")
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=hook)))
ENG = [PY, CPP, WR]
add("C01", "Vehicles are conserved and follow the trip life cycle",
    "At every time step, in both engines, each vehicle is in exactly one stage, moves only forward through home, waiting at its origin, running, and ended or aborted, starts waiting exactly at its departure time step, and is on exactly one link's vehicle list exactly while it runs. On every link the cumulative arrival minus cumulative departure count always equals the number of vehicles on it, each curve grows exactly by the vehicles that entered or left in that step and never decreases. No vehicle is lost, duplicated or created by moving.",
    ["histories", "inputs"], "all networks, demands, signals, capacities and every time step of every run, both engines",
    FONT + "They never look at per-step vehicle lists or at the balance of curves and vehicles.",
    ENG, [("Vehicle.update / end_trip", PY), ("Node.generate / Node.transfer", PY), ("Link.update cumulative curves", PY), ("C++ Node::generate/transfer, Vehicle::update/end_trip", CPP)],
    [dict(name="Vehicle.state, Link.vehicles, Link.cum_arrival/cum_departure, Node.generation_queue", meaning="where each vehicle is", where=PY)],
    ["after every exec_simulation(duration_t2=DELTAT)"])
add("C02", "Links are FIFO per lane with jam spacing and bounded speed",
    "On every link vehicles leave in the order in which they entered, vehicles in the same lane never overtake or come closer than the jam spacing (platoon size divided by per-lane jam density), and consecutive entrants are assigned to lanes in cyclic order. A vehicle's position stays between 0 and the link length, never decreases while on a link, and its speed stays between 0 and the free-flow speed of the link.",
    ["histories", "inputs"], "all networks with any number of lanes, speeds, densities, and all time steps of all runs, both engines",
    FONT + "Positions, lanes and spacing of individual vehicles are never asserted.",
    ENG, [("Vehicle.carfollow", PY), ("lane/leader assignment in generate/transfer", PY), ("C++ car_follow_newell, RUN pass", CPP)],
    [dict(name="Vehicle.x, v, lane, leader; Link.vehicles", meaning="kinematic state", where=PY)], ["after every time step"])
add("C03", "Vehicles move by Newell's car-following law",
    "In every time step each running vehicle advances to exactly the minimum of its free-flow reach, the position that keeps the jam spacing behind its leader's previous position, and the end of the link; an unobstructed vehicle therefore always travels at free-flow speed. Distance left over at the end of a link is carried over to the next link, scaled by the ratio of the free-flow speeds and limited by the vehicle ahead, and the reported speed is displacement over time.",
    ["histories", "inputs"], "all vehicles, links, leaders and time steps, both engines",
    FONT + "They check average travel times within 10%, which hides any per-step deviation.",
    ENG, [("Vehicle.carfollow / update", PY), ("move_remain handling in Node.transfer", PY), ("C++ equivalents", CPP)], None, ["after every time step"])
add("C04", "Link and node flow capacities bound the flow in every window",
    "Over every time window, vehicles pass from a link to the next only within its outflow capacity, enter a link only within its inflow capacity, and cross a node with a flow capacity only within that capacity, up to the fixed burst allowance of the capacity bucket. A link with zero inflow capacity is never entered, and unused capacity is not saved beyond the burst allowance.",
    ["histories", "inputs", "configurations"], "all capacity settings (including 0, fractions of a platoon per step, and very large), all windows, both engines",
    FONT + "No stable test sets an inflow, outflow or node capacity.",
    ENG, [("Link.in_out_flow_constraint", PY), ("Node.flow_capacity_update", PY), ("capacity checks in generate/transfer", PY), ("C++ Link::update, Node::flow_capacity_update", CPP)],
    [dict(name="capacity_out_remain, capacity_in_remain, flow_capacity_remain", meaning="token buckets", where=PY)], ["entries and exits of each step"])
add("C05", "Full links spill back and origin queues drain in order",
    "A vehicle enters a link only if the vehicle that will precede it in its lane has already moved beyond the jam spacing from the link entrance, so a link never holds more vehicles than its jam density allows; otherwise it stays, first in line, on the upstream link or in the origin's queue. Origin queues are served first-in first-out in order of departure, and as soon as the chosen first link can accept a vehicle the first waiting vehicle enters it.",
    ["histories", "inputs"], "all congestion patterns (spillback over several links, gridlock, simultaneous departures), both engines",
    FONT + "No stable test lets a queue spill back or an origin queue form and checks it.",
    ENG, [("Node.generate", PY), ("acceptance test in Node.transfer", PY), ("C++ Node::generate / transfer", CPP)], None, ["after every time step"])
add("C06", "Signals run their plan and nobody crosses on red",
    "At a signalised node the phases follow each other cyclically, each ending at the first step by which more than its configured duration has elapsed, starting from the point of the cycle given by the offset, regardless of how the run is split. A vehicle leaves a link towards the node only during a phase listed in that link's signal group; nodes without a signal never block.",
    ["histories", "inputs", "configurations"], "all numbers of phases, phase lengths (including ones that are no multiple of the time step), offsets of either sign and beyond one cycle, groups with several phases, both engines",
    FONT + "One stable test has a two-phase signal and only checks flows on average.",
    ENG, [("Node.signal_control", PY), ("offset initialisation in Node.__init__", PY), ("signal test in Node.transfer", PY), ("Node::signal_update", CPP)],
    [dict(name="Node.signal_phase, signal_t, signal_log", meaning="signal state", where=PY)], ["after every time step"])
add("C07", "Nodes are work-conserving and respect merge priority",
    "A vehicle first in line on a link whose next link can accept it, with green light and with outflow, inflow and node capacity left, is never left standing while nothing else entered that next link in that step. When several vehicles compete for the same next link, one with zero priority never beats one with positive priority, otherwise each is let in with probability proportional to the priority of its link (evenly if all are zero), and in hard deterministic mode the highest priority always wins, with ties broken by vehicle order; at most one vehicle per lane enters a link from upstream per step.",
    ["histories", "inputs", "schedules"], "all merging and diverging situations, all random orders of links within a node, both engines",
    FONT + "The merge test checks only throughput of one free-flow merge.",
    ENG, [("Node.transfer", PY), ("Node::transfer", CPP)], None, ["after every time step"])
add("C08", "Trips follow connected, permitted routes and end where they should",
    "The links a vehicle travels form a connected path from its origin, and its trip is completed exactly when it reaches the end of a link ending at its destination; it is aborted exactly when it reaches a dead end with trip abortion enabled. A vehicle with a specified route travels exactly that route; otherwise preferred links are always taken and avoided links never taken where the network leaves the choice, and with cyclic routing forbidden a node already visited is not revisited while an alternative exists.",
    ["histories", "inputs"], "all networks, origin-destination pairs, specified routes, preferences and avoidances, both engines",
    FONT + "One test checks a specified route of a single demand.",
    ENG, [("Vehicle.route_next_link_choice", PY), ("Vehicle.update / end_trip", PY), ("Vehicle::route_next_link_choice", CPP)], None, ["after every time step, Vehicle.traveled_route"])
add("C09", "Route choice follows current shortest paths",
    "At each route update the distance table equals the true minimum over all routes of the current travel time plus toll, with links closed to inflow excluded and open parallel links between the same two nodes counted with their average, and every preferred next link lies on such a shortest path. The preference moves from its old value towards the shortest-path link with exactly the configured weight (all at once the first time), and a vehicle that is free to choose takes links with probability proportional to the preference towards its destination, or in hard deterministic mode the most preferred one.",
    ["histories", "inputs"], "all networks, travel times, tolls, closures, update intervals and weights, both engines",
    FONT + "One test checks that the faster of two routes is used.",
    ENG, [("RouteChoice.route_search_all / homogeneous_DUO_update", PY), ("World::route_search_all, route_choice_duo", CPP)],
    [dict(name="RouteChoice.dist/next/route_pref", meaning="shortest path tables and preference", where=PY)], ["after every route update"])
add("C10", "Recorded times, logs and curves are those of the actual run",
    "A completed vehicle's travel time is its arrival minus its departure, an aborted one reports -1, its log has exactly one entry per logged time step with the state, link, position, speed and lane it really had, and its travelled route and entry times match. Each link's actual travel time at time t is that of the vehicle leaving last among those that entered by t, its instantaneous travel time is length over current mean speed, and time-indexed queries return the recorded value for that time, clamped at both ends.",
    ["histories", "inputs"], "all runs, vehicles, links and query times, both engines",
    FONT + "Logs are not inspected; queries are not tested.",
    ENG, [("Vehicle.record_log / traveled_route", PY), ("Link.set_traveltime_instant, traveltime_actual, *_count, *_travel_time", PY), ("log_data, ensure_traveltime_real", CPP)], None,
    ["Vehicle.log_*, Vehicle.traveled_route, Link query methods"])
add("C11", "A run may be split at will without changing the result",
    "Executing a simulation in any sequence of partial runs, by end time or by duration, advances the clock exactly to the requested time steps, reports completion exactly when the final time is reached, runs every time step exactly once, and yields the same history as a single uninterrupted run. A request that would not move the clock forward is rejected and leaves the run unharmed, and requests beyond the final time stop there.",
    ["histories", "schedules", "inputs"], "all partitions of the horizon into until/duration calls, all time step sizes, both engines",
    FONT + "Two tests run one scenario with one fixed splitting and check final averages.",
    ENG, [("World.exec_simulation / check_simulation_ongoing", PY), ("CppWorld.exec_simulation", WR), ("World::main_loop", CPP)],
    [dict(name="World.T, TIME, TSIZE", meaning="clock", where=PY)], ["W.T, return values, all logs"])
add("C12", "Same seed, same history; copies and threads change nothing",
    "Two runs of the same scenario with the same seed give identical histories, whatever else the process did before, and in the C++ engine whatever the number of threads. A copy of a world, or a world saved to a file and loaded again in the middle of a run, continues exactly as the original would have and does not influence it, and switching off output or progress display does not change the history.",
    ["histories", "schedules", "configurations"], "all scenarios with random route choice and merging, all thread counts, all copy/save points",
    FONT + "No stable test repeats a run or compares thread counts.",
    ENG + ["uxsim/utils.py"], [("World.rng, World.copy/save, load_world", PY), ("node_rngs/link_rngs, OpenMP main loop", CPP)], None, ["complete histories"])
add("C13", "The Python and the C++ engine agree",
    "For the same scenario in hard deterministic mode the Python engine and the C++ engine (through the same World interface) produce the same trajectory of every vehicle, the same lanes, signals, cumulative curves, travel times and trip results at every time step.",
    ["inputs", "histories"], "all deterministic scenarios of features both engines support",
    FONT + "The Python engine is never run by the stable tests, so nothing compares the two.",
    ENG, [("exec_simulation", PY), ("CppWorld", WR), ("main_loop", CPP)], None, ["complete histories of both engines"])
add("C14", "Generated demand has the requested volume, times and places",
    "A demand of given flow or volume over a period produces, up to one platoon, the requested number of vehicles, all departing within the period and evenly spread at the requested rate, from the given origin to the given destination, in both engines. Area and multi-node demands draw only from the nodes in the requested areas or lists (the nearest node if an area contains none), leaving out nodes without an outgoing link as origins and without an incoming one as destinations; the recommended variants adddemand_area2area2 and adddemand_nodes2nodes2 never use identical origin and destination and create the requested total volume, the deprecated ones split it evenly over all pairs.",
    ["inputs"], "all periods, flows, volumes, platoon sizes, reaction times, areas and node lists",
    FONT + "Demand is only used as input and its vehicles are never counted.",
    ENG, [("World.adddemand*", PY), ("CppWorld.adddemand*", WR), ("add_demand", CPP)], None, ["W.VEHICLES after adddemand*"])
add("C15", "Saving and loading a scenario preserves it",
    "A scenario written to a file and loaded into a new world (network, demand, or both) gives a world with the same nodes, links, demand vehicles and parameters, whose simulation produces the same history as the original given the same random state, no matter whether it was saved before or after its run; network and demand read from CSV are exactly what the file says. Demand given by the adddemand family is saved, with its attributes and with preferred and avoided links; rejected calls are not.",
    ["inputs", "configurations"], "all combinations of node, link and vehicle parameters, also after automatic renaming",
    FONT + "Saving and loading is not exercised by the stable tests.",
    [PY, "uxsim/scenario_reader_writer.py"], [("save_scenario/load_scenario", "uxsim/scenario_reader_writer.py"), ("generate_*_from_csv", PY)], None, ["attributes and history of the loaded world"])
add("C16", "Result tables agree with what the vehicles did",
    "The summary, origin-destination, trip, link, area and vehicle-group tables report exactly the counts, volumes, mean and spread of travel times and distances, free-flow times, delays and remaining vehicles that follow from the vehicles' histories, counting each vehicle by platoon size (tables of vehicle groups count the listed vehicle objects). The tables are mutually consistent: totals over origin-destination pairs equal the summary, and link volumes equal the cumulative curves.",
    ["histories", "inputs"], "all runs (complete, truncated, aborted trips, empty links), both engines",
    FONT + "No result table is computed by a stable test.",
    ["uxsim/analyzer.py", WR], [("basic_analysis, od_analysis, link_analysis_coarse, *_to_pandas", "uxsim/analyzer.py")], None, ["Analyzer.*_to_pandas"])
add("C17", "Taxi dispatch serves every request once, pickup before drop-off",
    "Every trip request is at any time either open, assigned to exactly one taxi, or finished, and a taxi serves a request only after it was made, visiting the pickup node before the drop-off node; recorded times are non-decreasing from request through assignment, pickup and drop-off, and are within one time step of when the taxi really was at those nodes. With the supplied matching handlers a taxi serves a single request at a time, keeps running after serving and is offered again, requests are considered in the order they were made, no vacant taxi is left unassigned while requests wait after a matching (unless outside the matching radius), and nearest-vehicle matching picks a nearest one (Euclidean distance). While it has a destination a taxi takes preferred links towards it, and it visits its destinations in the order of its list.",
    ["histories", "schedules", "inputs"], "all request streams, fleet sizes, networks and matching methods",
    FONT + "Taxi handling is not exercised by the stable tests.",
    ["uxsim/TaxiHandler/TaxiHandler.py", PY], [("TaxiHandler.assign_* and events", "uxsim/TaxiHandler/TaxiHandler.py"), ("taxi branch of Vehicle.update, add_dest", PY)], None, ["trip request records, Vehicle.log_t_link"])
add("C18", "Assignment solvers only make admissible, improving route swaps",
    "In each iteration of the equilibrium and system-optimum solvers, a vehicle is given only routes of the route set of its own origin and destination, and changes its route only if the new one is strictly cheaper at its departure time by the cost the solver stands for (actual travel time plus toll, or marginal cost). Recorded swap counts, gaps and route histories match what happened, and the returned solution is the iteration the method promises.",
    ["histories", "inputs", "schedules"], "all networks, demands, swap probabilities and iteration counts, both the Python solvers and their C++ adapters",
    FONT + "No solver is run by the stable tests (only signatures are compared).",
    ["uxsim/DTAsolvers/DTAsolvers.py", "uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py", "uxsim/trafficpp/dta_solver.cpp"],
    [("SolverDUE.solve, SolverDSO_D2D.solve", "uxsim/DTAsolvers/DTAsolvers.py"), ("dta_route_swap_due/dso", "uxsim/trafficpp/dta_solver.cpp")], None, ["solver records, vehicles of every iteration"])
add("C19", "Enumerated routes are valid, distinct and complete",
    "Every route returned by the route enumeration utilities is a connected link sequence from the requested origin to the requested destination, no two returned routes are equal, the shortest-path enumeration returns them in non-decreasing cost starting with a true shortest path and finds as many as exist up to the requested number, and every reachable pair gets at least one route, random enumeration including a shortest free-flow route. Multiple links between the same nodes are different routes. Shortest-distance queries give the true minimum over all routes. Route objects accept exactly the connected sequences and report as travel time the sum of link travel times as experienced along the way.",
    ["inputs"], "all small networks, origin-destination pairs and requested numbers of routes, Python and C++ enumeration",
    FONT + "No enumeration utility is called by the stable tests.",
    ["uxsim/Utilities/Utilities.py", PY, CPP], [("enumerate_k_shortest_routes, enumerate_k_random_routes", "uxsim/Utilities/Utilities.py"), ("Route", PY), ("enumerate_k_random_routes_cpp", CPP)], None, ["returned routes"])
add("C20", "Changes made during a run take effect at once and only as asked",
    "When the user changes a link's speed, jam density or capacities, closes or reopens it, overrides a signal, sets a toll, adds vehicles or enforces a route between two time steps, all movement from the next time step on obeys the new values exactly as if they had been in force from the start, and nothing else changes. Derived quantities such as capacity and spacing follow the new values.",
    ["histories", "schedules", "inputs"], "all change kinds at all time steps, both engines where supported",
    FONT + "No stable test changes anything during a run.",
    ENG, [("Link.change_free_flow_speed/change_jam_density, capacity attributes", PY), ("Node.override_signal", PY), ("Vehicle.enforce_route", PY), ("C++ change_* and wrapper forwarding", WR)], None, ["after every time step"])
add("C21", "Aggregate traffic states conserve distance and time travelled",
    "The flow, density and speed that the analysis reports per space-time cell of a link follow Edie's definitions from the vehicles' recorded positions: summed over the grid, density times cell area equals the total time and flow times cell area the total distance travelled on the covered part of the link, and speed is their ratio, where a vehicle's recorded trajectory is completed to the ends of the link at free-flow speed. The network-average flow and density are the total distance and total time travelled on the chosen links over their total length times the interval.",
    ["histories", "inputs"], "all runs, cell sizes and link subsets",
    FONT + "No aggregate state is computed by a stable test.",
    ["uxsim/analyzer.py"], [("compute_accurate_traj, compute_edie_state, compute_mfd", "uxsim/analyzer.py")], None, ["Link.q_mat/k_mat/v_mat, mfd_to_pandas, link_traffic_state_to_pandas"])
add("C22", "A network is built exactly as described or rejected",
    "Every added node, link and vehicle is registered once, under its own unique name, connected to the given endpoints, and retrievable by name or object; a duplicate name, unknown name or disconnected route (defRoute, Route) is rejected with an error and leaves the scenario unchanged, and with automatic renaming a fresh unique name is used instead. Derived link parameters (capacity, backward wave speed, spacing per lane, default capacities) and the automatic horizon follow their documented formulas.",
    ["inputs", "histories"], "all construction sequences with valid and invalid names and parameters, both engines",
    FONT + "Only valid unique names are used and lookups are not compared.",
    ENG, [("Node/Link/Vehicle.__init__, get_node, get_link, finalize_scenario", PY), ("CppNode/CppLink, _add_node", WR)], None, ["W.NODES, LINKS, VEHICLES, get_*"])
add("C23", "Queries answer correctly at any time and never disturb the run",
    "At any moment (between partial runs, inside user functions, after the end, and after changes by the user) a link's present speed, density, flow, number of vehicles and queue are those of the vehicles on it, and its time-indexed queries (arrival, departure and vehicle counts, density, instantaneous and actual travel time, speed, flow, inflow between two times, mean travel time of the vehicles that entered in a period, toll) are the documented functions of what was recorded up to then, clamped at both ends of the executed part of the run. A vehicle's coordinates, present or past, lie at its position on its link and are (-1,-1) off the network, and its travelled route has exactly the requested times. Asking changes neither the run nor earlier answers, and both engines answer alike.",
    ["inputs", "histories"], "all query arguments at all moments of all runs, both engines",
    FONT + "Queries are asked a few times after complete runs; pauses, user functions and times outside the run are not sampled.",
    ENG, [("Link.arrival_count ... get_toll, speed/density/flow properties, Vehicle.get_xy_coords, traveled_route", PY), ("CppLink, CppVehicle", WR)], None, ["Link and Vehicle query methods"])
add("C24", "Imported road maps and grids become the networks they describe",
    "Every road segment of an imported map becomes exactly one link per permitted direction between the nodes at its ends, with the length, lanes and speed of the map or, where the map has none, the defaults of its road type (those given by the user first); merging short links only unites the ends of short links, never leaves a link whose end does not exist, a loop or two links between the same ordered pair, keeps the attributes of the links it keeps and every connection, adds reverse links exactly if asked, and repeated rounds equal rounds one by one. Loading a map into a world adds every node and link under a unique name, connected to the map's own nodes even where names are already taken, and leaves existing content as it was. A generated grid has exactly the links between neighbours.",
    ["inputs"], "all maps (nodes, segments, road types, missing or listed attributes), thresholds, rounds and worlds with or without content, both engines",
    FONT + "No importer is run by the stable tests.",
    ["uxsim/OSMImporter/OSMImporter.py", "uxsim/OSMImporter2/OSMImporter2.py", "uxsim/Utilities/Utilities.py"],
    [("import_osm_data, osm_network_postprocessing, osm_network_to_World", "uxsim/OSMImporter/OSMImporter.py"), ("osm_network_to_World", "uxsim/OSMImporter2/OSMImporter2.py"), ("generate_grid_network", "uxsim/Utilities/Utilities.py")], None, ["returned node and link lists, W.NODES, W.LINKS"])
with open(H, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
