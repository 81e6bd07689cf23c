C = "uxsim/trafficpp/traffi.cpp"; W = "uxsim/uxsim_cpp_wrapper.py"
M = [
("c-tt-floor-index", C, "            int start_idx = (int)std::lround(chosen_veh->arrival_time_link / w->delta_t);", "            int start_idx = (int)(chosen_veh->arrival_time_link / w->delta_t);", "C10"),
("c-follower-kept", C, "        if (chosen_veh->follower){\n            chosen_veh->follower->leader = nullptr;\n        }\n", "        if (chosen_veh->follower && inlink->number_of_lanes == 1){\n            chosen_veh->follower->leader = nullptr;\n        }\n", "C03"),
("c-node-burst-one", C, "if (flow_capacity_remain < w->delta_n * (number_of_lanes > 0 ? number_of_lanes : 1)){", "if (flow_capacity_remain <= w->delta_n * (number_of_lanes > 0 ? number_of_lanes : 1)){", "C04 C13"),
("c-inc-sort", C, "[](Vehicle *a, Vehicle *b){ return a->id < b->id; }", "[](Vehicle *a, Vehicle *b){ return a->arrival_time_link < b->arrival_time_link; }", "C07"),
("c-merge-tie", C, "if (merge_priorities[i] > merge_priorities[best_idx]){", "if (merge_priorities[i] >= merge_priorities[best_idx]){", "C07"),
("c-remain-x", C, "double x_cong = chosen_veh->leader->x_old - outlink", "double x_cong = chosen_veh->leader->x - outlink", "C03"),
("c-tti-hold", C, "if (w->timestep % w->instantaneous_TT_timestep_interval != 0){", "if (w->timestep % w->instantaneous_TT_timestep_interval > 1){", "C10"),
("c-mat-last", C, "            if (s_next < n) e = s_next;", "            if (s_next < n && s_next > s) e = s_next;", "C10"),
("c-abort-deadend-dest", C, "else if (link->end_node->out_links.empty() && trip_abort == 1){", "else if (link->end_node->out_links.empty()){", "C08 C13"),
("c-avoid-only-if-left", C, "        if (_buf_filtered.size() != outlinks.size()){\n            outlinks.swap(_buf_filtered);\n        }\n        if (outlinks.empty()){\n            throw std::invalid_argument(\"Vehicle", "        if (!_buf_filtered.empty() && links_preferred.empty()){\n            outlinks.swap(_buf_filtered);\n        }\n        if (outlinks.empty()){\n            throw std::invalid_argument(\"Vehicle", "C08"),
("c-nocyc-current", C, "        chosen_veh->_traveled_nodes[outlink->start_node->id] = true;\n", "        chosen_veh->_traveled_nodes[inlink->start_node->id] = true;\n", "C08"),
("c-pref-dest", C, "outlink_pref.push_back(w->route_preference[dest->id][ln->id]);", "outlink_pref.push_back(w->route_preference[dest->id][ln->id] > 0.01 ? w->route_preference[dest->id][ln->id] : 0.0);", "C09"),
("c-parallel-first", C, "adj_mat_time[i][j] = adj_mat_time[i][j] * n / (n + 1.0) + new_link_tt / (n + 1.0);", "adj_mat_time[i][j] = n > 0 ? std::min(adj_mat_time[i][j], new_link_tt) : new_link_tt;", "C09"),
("c-toll-step", C, "penalty = ln->toll_timeseries[timestep];", "penalty = ln->toll_timeseries[timestep - timestep % timestep_for_route_update];", "C09"),
("c-gradual-min", C, "std::min(1.0, duo_update_weight * (delta_t / duo_update_time))", "std::min(1.0, duo_update_weight / std::max(1.0, (double)timestep_for_route_update))", "C09"),
("c-past-due", C, "if (ts0 < start_ts) ts0 = start_ts;", "if (ts0 < start_ts) continue;", "C20"),
("c-until-exact", C, "end_ts = static_cast<size_t>(floor(until_t/delta_t)) + 1;", "end_ts = static_cast<size_t>(ceil(until_t/delta_t)) + 1;", "C11"),
("c-gen-noroute-mark", C, "        veh->_traveled_nodes[outlink->start_node->id] = true;\n", "", "C08"),
("c-noise-max", C, "random_range_float64(1.0, 1.0 + noise, link_rngs[ln->id])", "random_range_float64(1.0, 1.0 + noise, link_rngs[0])", "C12"),
("c-jam-change-lanes", C, "", "", "C20") if 0 else ("c-endtrip-follower", C, "    if (follower){\n        follower->leader = nullptr;\n    }\n    link = nullptr;", "    if (follower && !flag_trip_aborted){\n        follower->leader = nullptr;\n    }\n    link = nullptr;", "C03 C01"),
("c-enterlog-reentry", C, "            if (lid >= 0 && lid != prev_link_id) {\n                double t = v->log_t_at(i);\n                result.push_back({lid, t, static_cast<int>(vi)});\n                prev_link_id = lid;\n            }", "            if (lid >= 0 && lid > prev_link_id) {\n                double t = v->log_t_at(i);\n                result.push_back({lid, t, static_cast<int>(vi)});\n                prev_link_id = lid;\n            }", "C23"),
("c-log-wait", C, "        if (state == vsWAIT) log_wait_count++;", "        if (state == vsWAIT && log_wait_count < 40) log_wait_count++;", "C10"),
("c-set-tmax-ff", C, "ln->traveltime_real.resize(total_timesteps, ln->length / ln->vmax);", "ln->traveltime_real.resize(total_timesteps, 0.0);", "C10"),
("c-capadj", C, "for (auto l : out_links) capacity_out = std::max(capacity_out, l->capacity);", "for (auto l : out_links) capacity_out = std::min(capacity_out, l->capacity);", "C22 C13"),
]
