#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Vehicles are conserved during network loading",
 "At every step of a network loading (single-class or car/truck), every vehicle created so far is in exactly one place: waiting at its origin, on exactly one link, or arrived at its own destination. No vehicle is lost, duplicated, invented or moved to a place that is not connected to the one it left, and the reported totals satisfy created = en route + arrived. A loading that runs until the network is empty ends with every created vehicle arrived, in the interval of the last arrival (never before all demand intervals are over); one with a configured number of intervals runs exactly that many (or the demand intervals, if more).",
 ["inputs", "histories", "configurations"],
 "every network, demand table, link and node model, routing type, unit time, flow scalar and random seed; every interval and every phase of an interval",
 "The tests load one 7-link network and compare a few totals at the end; a loss that is compensated, or that needs spill-back, multiple destinations, mixed link types or a particular rounding, is not seen.",
 ["src/dta.cpp", "src/dlink.cpp", "src/dnode.cpp", "src/od.cpp", "src/factory.cpp", "src/multiclass.cpp"],
 [("load_once phase order", "src/dta.cpp MNM_Dta::load_once"), ("node transfers", "src/dnode.cpp move_vehicle"), ("receive/remove_finished", "src/od.cpp MNM_Destination::receive"), ("multiclass nodes and links", "src/multiclass.cpp")],
 ["contents of origin queues, link queues, destination queues and vehicle totals after each phase of each interval"])

prop("C02", "Demand is released exactly as the demand table says",
 "At each assignment interval, each origin-destination pair releases demand x flow scalar vehicles, rounded to one of the two neighbouring integers (exactly, if it is an integer), each with the right origin, destination, class and departure interval, and nothing is released at any other time. In car/truck loading the interval demand is either released in its first minute, or, when splitting is requested, spread evenly over the leading minutes of that interval only. The share of vehicles marked as adaptive follows the configured ratio (none for 0, all for 1), by O-D pair, class and interval where such a table is given, and each vehicle's label is drawn with the ratios declared for its origin and class. None of this depends on comments, blank lines or spacing in the input files.",
 ["inputs", "configurations", "histories"],
 "every demand table, number of O-D pairs, interval count, assignment frequency, flow scalar and split setting",
 "The tests use one demand table and check no release counts per interval and O-D pair.",
 ["src/od.cpp", "src/multiclass.cpp", "src/dta.cpp", "src/io.cpp", "src/ults.cpp"],
 [("release_one_interval", "src/od.cpp"), ("multiclass release and minute split", "src/multiclass.cpp MNM_Origin_Multiclass, add_OD_demand"), ("release schedule", "src/dta.cpp load_once")],
 ["vehicles added at each release: origin, destination, class, type, departure interval"])

prop("C03", "Cumulative curves record exactly the vehicle movements",
 "For every link and every time, the arrival (departure) cumulative curve equals the number of vehicles that had entered (left) the link by then, divided by the flow scalar, per vehicle class. Curves are non-decreasing, departures never exceed arrivals, and their difference is the number of vehicles on the link. The per-path, per-departure-interval curves likewise count exactly the vehicles of that path and departure interval that passed.",
 ["inputs", "histories", "configurations"],
 "every network, demand, link and node model, routing and random seed; every link and every interval",
 "The tests compare a few curve-based outputs on a single network with recorded values and never compare curves with the movements of vehicles.",
 ["src/dnode.cpp", "src/dlink.cpp", "src/cc_tree.cpp", "src/multiclass.cpp"],
 [("record_cumulative_curve", "src/dnode.cpp"), ("add_increment", "src/dlink.cpp"), ("tree curves", "src/cc_tree.cpp"), ("multiclass curves", "src/multiclass.cpp")],
 ["curves of every link after every interval versus the moves between containers"])

prop("C04", "Link and cell capacities are never exceeded",
 "In each interval no link takes in more traffic than the supply it offered at the start of that interval, no link or cell sends on more than its flow capacity per interval, and no cell or link that models storage holds more than its jam storage, each up to rounding to a whole vehicle. A full link therefore blocks its upstream (spill-back) instead of overfilling.",
 ["inputs", "histories", "configurations"],
 "every network, congested or not, all storage-limited link models, lanes, unit times, flow scalars and seeds",
 "The tests never drive a link to capacity and check no bound.",
 ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp"],
 [("get_link_supply", "src/dlink.cpp, src/multiclass.cpp"), ("supply-limited transfers", "src/dnode.cpp MNM_DMOND::evolve, round_flow_to_vehicle")],
 ["contents of cells and links before and after each phase"])

prop("C05", "Link models follow their stated traffic dynamics",
 "Within each interval, a cell-transmission link moves between successive cells the minimum of what the upstream cell can send and the downstream cell can receive under its triangular flow-density relation; a point-queue link releases a vehicle exactly one free-flow time after it entered; a link-queue link releases what its density-based demand allows; car/truck links follow the car/truck versions of these models. Amounts may differ from the exact value only by rounding to a whole vehicle, and no vehicle traverses a link faster than its free-flow time in whole intervals.",
 ["inputs", "histories", "configurations"],
 "every link length, free-flow speed, capacity, jam density, lanes, unit time, flow scalar and every occupancy history",
 "The tests check no intra-link dynamics.",
 ["src/dlink.cpp", "src/multiclass.cpp"],
 [("CTM", "src/dlink.cpp MNM_Dlink_Ctm, Ctm_Cell"), ("PQ", "src/dlink.cpp MNM_Dlink_Pq"), ("LQ", "src/dlink.cpp MNM_Dlink_Lq"), ("multiclass CTM/PQ/LQ", "src/multiclass.cpp")],
 ["cell and queue contents before and after each link update"])

prop("C06", "Vehicles are served first-in first-out",
 "Vehicles of the same class never overtake each other inside a link: they reach its downstream end in the order in which they entered it. At a node, the vehicles from one link bound for the same next link are served in the order in which they reached the node, and vehicles from an origin bound for the same link leave in queue order.",
 ["inputs", "histories", "configurations"],
 "every network, link model, node model, routing and seed; every pair of vehicles",
 "The tests never track individual vehicles.",
 ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp"],
 [("move_veh_queue", "src/dlink.cpp"), ("move_vehicle", "src/dnode.cpp"), ("multiclass moves", "src/multiclass.cpp")],
 ["order of vehicles in every queue before and after each phase"])

prop("C07", "Junctions share limited receiving capacity in proportion to demand",
 "At a first-come-first-served junction, each movement passes its full demand if the downstream link can take the total, and otherwise a share of the downstream supply proportional to its demand, up to rounding to a whole vehicle. Junctions never hold vehicles back when there is both demand and room for at least one vehicle more than rounding explains, and destination junctions discharge everything that has arrived.",
 ["inputs", "histories", "configurations"],
 "every junction with any number of in- and out-links, every demand vector and supply vector, every seed",
 "The tests use one network, with little merging and no supply limits.",
 ["src/dnode.cpp", "src/multiclass.cpp"],
 [("FWJ compute_flow", "src/dnode.cpp MNM_Dnode_FWJ::compute_flow"), ("round_flow_to_vehicle", "src/dnode.cpp"), ("multiclass FWJ", "src/multiclass.cpp MNM_Dnode_FWJ_Multiclass")],
 ["finished and incoming queues before and after the node phase; supply of each downstream link"])

prop("C08", "Vehicles follow their assigned path or the current best tree",
 "A vehicle with a fixed path traverses exactly the links of one path of its O-D pair's path set, in order, from its origin to its destination. An adaptive vehicle's next link is always an out-link of its current node that lies on a minimum-cost route to its destination for the link costs (travel time x value of time + toll) at the latest routing update. Every arrived vehicle arrived at its own destination.",
 ["inputs", "histories", "configurations"],
 "every network with alternatives, path table, portions, routing frequency, hybrid ratio and seed",
 "The tests never check the links that a vehicle traverses.",
 ["src/routing.cpp", "src/path.cpp", "src/shortest_path.cpp"],
 [("Fixed routing", "src/routing.cpp MNM_Routing_Fixed::update_routing, register_veh"), ("Adaptive routing", "src/routing.cpp MNM_Routing_Adaptive"), ("Hybrid routing", "src/routing.cpp MNM_Routing_Hybrid, MNM_Routing_Biclass_Hybrid")],
 ["next link and current link of every vehicle after routing and after node phases; link costs and routing tables"])

prop("C09", "Path choice portions in force are those of the current interval",
 "At each routing interval the choice probabilities of the paths of an O-D pair are the path-table values for that interval (of the vehicle's class, if classes have their own), normalised to sum to one; they stay in force until the next routing interval. A departing fixed-path vehicle is given a path with a positive portion, and in the long run paths are drawn with these probabilities.",
 ["inputs", "configurations", "histories"],
 "every path table and buffer, number of intervals, routing frequency, class",
 "The tests use one path table and check no portions.",
 ["src/routing.cpp", "src/path.cpp", "src/io.cpp"],
 [("change_choice_portion", "src/routing.cpp"), ("copy_buffer_to_p, normalize_p", "src/path.cpp")],
 ["path portions after each routing update; path drawn by each vehicle"])

prop("C10", "Shortest-path results are optimal",
 "For non-negative (possibly infinite) link costs and no node costs, the next link reported for every node lies on a minimum-cost route to the destination, following it reaches the destination, the reported cost is the minimum, and nodes that cannot reach the destination are marked so, whatever the output maps held before; Dijkstra, FIFO and LIFO label correcting agree on the cost. The time-dependent variant (C++ and Python TDSP) yields for every node and departure interval the minimum over all routes of the time-dependent cost, with the cost and travel time of a link taken at the interval in which it is entered (the last interval for later times), and the route, cost and travel time it returns for a query belong together.",
 ["inputs", "histories"],
 "every directed multigraph, cost assignment (including zero and infinite costs and ties) and destination; every time-dependent cost table; repeated use of the same output maps",
 "The tests do not call the static shortest-path routines directly and use a graph with no interesting ties, cycles or unreachable nodes.",
 ["src/shortest_path.cpp", "macposts/_ext/tdsp.cpp"],
 [("all_to_one_*", "src/shortest_path.cpp MNM_Shortest_Path"), ("MNM_TDSP_Tree", "src/shortest_path.cpp"), ("Python TDSP", "macposts/_ext/tdsp.cpp")],
 ["next links and distances the routines return on generated graphs"])

prop("C11", "Travel times are the ones implied by the cumulative curves",
 "A cumulative curve answers, at any time, the sum of the increments recorded up to that time; asked for a count with rounding up it answers the earliest time at which the count is reached, with rounding down the earliest time at which the largest recorded count not above it is reached, and -1 if the count is never reached (or zero) - for horizons and counts of any size. The last valid time of a link is the horizon if everything that entered has left, otherwise the last interval by which no more had entered than has left. The travel time of a link at a departure time is the (rounded-down) time at which the count that had entered by then has left, minus the departure time, but at least the link's free-flow time in whole loading intervals; departures after the last valid time get the value of the last valid time; free-flow time applies when nothing has entered or left. The robust travel time is the mean over its samples, and the travel time and cost of a path add those of its links, each taken at the interval in which the link is reached (rounded up to whole intervals, at least one). Single-class links, cars and trucks alike.",
 ["inputs", "histories"],
 "every history of increments of a FIFO link, every departure time and count, every path, link type, flow scalar and unit time, horizons beyond 10000 intervals and counts beyond 10000 vehicles",
 "The tests compare travel times of a single network at a few times.",
 ["src/dlink.cpp", "src/dta_gradient_utls.cpp", "src/multiclass.cpp"],
 [("Cumulative curve lookups", "src/dlink.cpp MNM_Cumulative_Curve"), ("get_travel_time, get_last_valid_time, get_path_travel_time", "src/dta_gradient_utls.cpp"), ("car and truck variants", "src/multiclass.cpp MNM_DTA_GRADIENT")],
 ["answers of the lookup and travel-time routines on curves built by add_increment"])

prop("C12", "The assignment-ratio matrix matches the vehicles that were driven",
 "During a loading, every vehicle with a path that moves from one link to the next is counted, in the interval in which it enters, under its link, class, path and departure (assignment) interval, and nowhere else. For every registered link, registered path and window of intervals, a row of the dynamic assignment-ratio (DAR) table - single class, car or truck - is exactly the flow of the vehicles of that path and departure interval that entered that link inside the window; there is no row without flow, none missing and none twice. The complete DAR matrix and the saved DAR file hold the same numbers, divided by the given path flow, at the position of (link, window) x (path, departure interval). Summed over paths and departure intervals the flows equal what entered the link.",
 ["inputs", "histories", "configurations"],
 "every loading with any network, path table, registered links and paths, windows, and class",
 "The tests compare the matrix of a single loading with a tolerance.",
 ["src/dta_gradient_utls.cpp", "src/cc_tree.cpp", "src/multiclass.cpp", "src/dnode.cpp", "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"],
 [("add_dar_records", "src/dta_gradient_utls.cpp, src/multiclass.cpp"), ("tree curves", "src/cc_tree.cpp MNM_Tree_Cumulative_Curve"), ("Python DAR functions", "macposts/_ext/dta.cpp, mcdta.cpp get_*dar_matrix, save_*dar_matrix")],
 ["per-path curves against the movements of the recorded loading; rows, matrices and files of the Python interface against those curves"])

prop("C13", "The graph container behaves as a multigraph",
 "After any sequence of node and link insertions, sizes, emptiness, iteration over nodes and links (each listed once), lookups by id, end points, attached data, neighbours (each listed once) and incident links in either direction reflect exactly the nodes and links inserted. Inserting a duplicate id, or a link with a missing end point or equal end points, fails and leaves the graph unchanged; so does looking up a missing id. This holds for the directed and the undirected container and for the Python graph.",
 ["histories", "inputs"],
 "every sequence of operations, including parallel links, failed operations in between and re-use of ids",
 "The tests run a handful of fixed operation sequences.",
 ["src/graph.h", "macposts/graph.py", "macposts/_ext/macposts.cpp"],
 [("Graph", "src/graph.h"), ("Python graph", "macposts/graph.py")],
 ["answers of the public operations after each step of generated histories"])

prop("C14", "The Python interface reports the loading that was run",
 "After a loading, every question the Dta and Mcdta classes answer is answered from that loading alone: cumulative curves (per link, and as matrices over all intervals with one column per link asked for), inflow per window, link travel times per departure interval (in seconds, bounded by - or infinite beyond - twenty free-flow times), robust travel times as the mean of their samples, travel times and costs of given and registered paths, coverage of links by paths, totals of vehicles released, on the road and finished and their travel time, and for car/truck loadings free-flow times, speeds, waiting times at intersections, spill-back flags, vehicles on the road and queued per interval and link, and departures by a time - each in the order of the registered (or given) links, paths and intervals, in real vehicles (simulated vehicles divided by the flow scalar). The answers do not depend on the memory layout or integer type of the arrays passed in, nor on which links are registered. Windows that are empty, reversed or outside the loading, and links registered twice, are refused.",
 ["inputs", "histories", "configurations"],
 "every loading, selection and order of links and paths, set of intervals and windows, array layout",
 "The tests compare a few answers of two fixed networks with stored numbers.",
 ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "macposts/dta.py", "src/dta_gradient_utls.cpp"],
 [("Dta", "macposts/_ext/dta.cpp"), ("Mcdta", "macposts/_ext/mcdta.cpp"), ("wrappers", "macposts/dta.py")],
 ["answers of the Python methods against the curves and counters of the same loading"])

prop("C15", "The same input and seed give the same loading",
 "A loading is determined by its input files and the random seed: two runs with the same files and seed release the same vehicles in the same order, move them along the same links in the same intervals, and end with the same curves, totals and portions - whatever other loadings ran before in the process, wherever objects lie in memory, and in another process. Recording is passive: which links or paths are registered, and whether curves or per-path curves are recorded, changes nothing about the loading.",
 ["inputs", "histories", "configurations"],
 "every network, routing type, class, seed, and history of the process",
 "The tests run each network once per process; an order that depends on addresses, on state left over, or on recording cannot show.",
 ["src/od.cpp", "src/multiclass.cpp", "src/dta.cpp", "src/routing.cpp", "src/ults.cpp", "macposts/_ext/utils.h"],
 [("release order", "src/od.cpp MNM_Origin::release_one_interval"), ("set_random_state", "src/ults.cpp, macposts/_ext/utils.h"), ("load_once", "src/dta.cpp MNM_Dta::load_once")],
 ["all events of runs under different memory layouts and recordings; results of repeated Python loadings"])

prop("C16", "Silencing output changes nothing else",
 "Inside a macposts.utils.silence() block nothing written to the given file descriptor comes out; writes to other descriptors do. When the block ends - normally or by an exception, nested in any way, for the same or different descriptors - the descriptor goes where it went before, no descriptor is left open, and an exception comes out of the block. With a descriptor that is not valid, nothing is done.",
 ["histories", "fault_sequences"],
 "every nesting of blocks, writes, normal and exceptional exits, valid and invalid descriptors",
 "The tests use one block around a few writes, and no exceptions.",
 ["macposts/utils.py"],
 [("silence", "macposts/utils.py silence")],
 ["files behind the descriptors, open descriptors and exceptions after every step of enumerated histories"])

prop("C17", "Equilibrium iterations conserve demand and follow their step rule",
 "In a dynamic user equilibrium or system optimum run (method of successive averages, gradient projection, departure time choice), in every iteration: path flows are never negative; the flows of an O-D pair add up to its demand in every interval (with departure time choice: in total), through the initial split over the cheapest free-flow paths and every update; the loading is given exactly these flows; link travel times are those of the cumulative curves of that loading, link costs are value of time x travel time + toll, path costs add the schedule delay of the arrival time; the reported total travel time and gap are computed from these; and the new flows are those that the step rule gives for a time-dependent cheapest path (for system optimum, by marginal costs).",
 ["inputs", "histories", "configurations"],
 "every network, demand, toll, schedule penalty, method, number of iterations and random seed; every iteration, O-D pair, path and interval",
 "The tests run no equilibrium at all.",
 ["src/due.cpp", "src/dso.cpp", "src/path.cpp", "src/shortest_path.cpp", "macposts/_ext/dta.cpp"],
 [("update of path flows", "src/due.cpp update_path_table, update_path_table_gp_fixed_departure_time_choice, update_path_table_fixed_departure_time_choice"), ("costs", "src/due.cpp build_link_cost_map, get_disutility, compute_total_gap"), ("marginal costs", "src/dso.cpp")],
 ["path flows, demand given to the loading, link cost maps, gap after every iteration"])

prop("C18", "Path sets are routes, kept and portioned as declared",
 "Every path of a path set - read from a file, generated, or added to cover links - is a sequence of adjacent links from the node of an origin to the node of a destination. A generated path set has, for every O-D pair with demand, first a cheapest path by free-flow cost (value of time x time + toll) at least as long as the minimum, and each round adds at most the cheapest paths under raised costs of the links used so far, never a path twice and never one with a cycle. A path table read from file has the paths of the file in their order, numbered from 0, with their buffers; a table that does not fit the network or has fewer rows than announced is refused. Saving a table and reading it back gives the same paths and portions (six decimals). Copying, normalising and storing portions change nothing else; normalised portions are non-negative and add up to 1 (equal shares when all are 0), negative ones are refused. Cycles cut from a walk leave a route with the same ends made of its links. Link coverage reports exactly the links that are on registered paths, and paths generated to cover links contain the links asked for whenever a route of an O-D pair with demand can. (Networks without parallel links.)",
 ["inputs", "configurations"],
 "every network, path table file, number of rounds, cost parameter, set of portions, walk, registered links and paths",
 "The tests load prepared path tables only; path generation, coverage and saving are not tested at all.",
 ["src/path.cpp", "src/io.cpp", "src/shortest_path.cpp", "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"],
 [("generation", "src/path.cpp build_pathset, build_pathset_multiclass, build_shortest_pathset"), ("portions and tables", "src/path.cpp MNM_Pathset::normalize_p, save_path_table, copy_p_to_buffer"), ("reading", "src/io.cpp load_path_table"), ("coverage", "macposts/_ext/dta.cpp, mcdta.cpp generate_paths_to_cover_links, check_registered_links_covered_by_registered_paths")],
 ["path tables in memory and on disk after every operation, return values of the coverage functions"])

prop("C19", "Reported link statistics, queues and emissions are those of the loading",
 "In every interval of a loading, the volume reported for a link is the number of vehicles on it (in its cells or queue and at its end, each counted once, divided by the flow scalar), in total and per class; its reported travel time is the free-flow time up to the critical density, grows with the density as the triangular fundamental diagram of the whole link (all lanes) gives, and is the maximum from the jam density on; values per recording period are the mean of the values of its intervals and stay until the next; the queue of a link is the number of vehicles at its end, queued and en-route totals are their sums. The record files have one row per interval (or period) and a column per link with exactly these values. For the links selected for emissions, vehicle miles are the sums of reported speed x interval length over the vehicles on them, vehicle hours the time spent on them, trips the distinct vehicles that were ever on one (cars and trucks), electric vehicles are those with the configured label and burn nothing, and fuel, CO2, HC, CO and NOx are vehicle miles times the rate at that speed (class factor for trucks).",
 ["inputs", "histories", "configurations"],
 "every network, link model, number of lanes, demand, recording period, label configuration and set of emission links; every link and interval",
 "The tests never look at a statistic, a record file or an emission figure.",
 ["src/statistics.cpp", "src/emission.cpp", "src/dlink.cpp", "src/multiclass.cpp", "src/dta.cpp"],
 [("volumes and travel times", "src/dlink.cpp, src/multiclass.cpp get_link_flow*, get_link_tt*"), ("recording", "src/statistics.cpp MNM_Statistics_Lrn::update_record, src/multiclass.cpp MNM_Statistics_Lrn_Multiclass"), ("emissions", "src/emission.cpp, src/multiclass.cpp MNM_Cumulative_Emission_Multiclass"), ("queues", "src/dta.cpp, src/multiclass.cpp record_queue_vehicles, record_enroute_vehicles")],
 ["recorded statistics after every interval, the record files, the emission report"])

prop("C20", "Time-dependent link attributes take effect when declared, and only then",
 "In a car/truck loading, a row of the time-dependent link attribute file for a link and an interval replaces the link's attributes (speeds, capacities, jam densities, lanes, toll) from that interval on, until the next row for that link: flows, storage, perceived densities, junction supplies, routing costs and reported travel times follow the attributes in force; links and intervals without a row are not affected; vehicles on the link stay on it, in their order, and every other guarantee of the loading (conservation, capacities, order, routes, statistics) holds through the changes. A fractional toll is kept as declared.",
 ["inputs", "histories", "configurations"],
 "every network, set of rows, demand and random seed; every link, interval before, at and after a change",
 "The tests have one network with such a file and look at no interval around a change.",
 ["src/multiclass.cpp", "src/io.cpp", "src/dta.cpp"],
 [("reading", "src/multiclass.cpp MNM_IO_Multiclass::build_link_td_attribute"), ("applying", "src/multiclass.cpp MNM_Dta_Multiclass::update_link_attribute, modify_property of the link classes")],
 ["contents of the links, flows, tolls, chosen routes and reported travel times in every interval"])

prop("C21", "Input files are read as declared, and inconsistent ones are refused",
 "Node, link, graph, O-D and demand files with the rows the configuration announces (whatever the order of rows within a file of nodes, links, graph or demand, comments, blank lines, spacing, and rows after the announced ones) are accepted, and the network built is exactly the one declared: the same nodes and links with their types, ends, lengths, speeds and lanes, every link hooked to its two nodes, the same origins and destinations at their nodes, the same demand for every pair, class and interval. Files that declare no consistent network - fewer rows than announced, rows with words missing or that are not numbers, unknown types, ids used twice, links, nodes, origins or destinations nobody declared, an origin (destination) at a node of another kind or with links into (out of) it, a link from a node to itself, a destination that cannot be reached from an origin, a file that is not there - are refused, by an error while reading or by the check before loading; reading never crashes, never runs forever and never builds another network.",
 ["inputs", "configurations"],
 "every set of input files, for single-class and car/truck networks",
 "The tests read the files of the example networks, which are all consistent; what a slip in one of many rows leads to depends on which one.",
 ["src/io.cpp", "src/multiclass.cpp", "src/dta.cpp", "src/graph.h"],
 [("reading", "src/io.cpp MNM_IO::build_node_factory, build_link_factory, build_od_factory, build_graph, build_demand; src/multiclass.cpp MNM_IO_Multiclass::build_*_multiclass"), ("putting together", "src/dta.cpp MNM_Dta::hook_up_node_and_link"), ("checking", "src/dta.cpp MNM_Dta::is_ok, check_origin_destination_connectivity")],
 ["whether files are accepted, and the network built from them"])

prop("C22", "The report of tracked vehicles follows them from departure to arrival",
 "Loading a car/truck network with vehicle tracking writes a report that starts with its column names and has rows only for the intervals that are multiples of the reporting frequency. The vehicles tracked are those that, in such an interval, depart, get onto the first link of their origin and have a next link, of the O-D pairs and departure intervals asked for (all when none are named), each taken with the sampling rate (all of them at rate 1). From then until it arrives a tracked vehicle has exactly one row in every reporting interval, and no other vehicle has one; the row states the vehicle's own id, routing type, departure interval, origin and destination with their nodes, the link it is on, the link it goes to next, and its position on the link: middle of its cell on cell transmission links (at least that in the last cell when it may leave), the middle of link-queue links. A loading with tracking releases, moves and delivers vehicles and ends as one without.",
 ["inputs", "histories", "configurations"],
 "every network, demand, request, sampling rate, frequency and random seed; every vehicle and interval",
 "No test loads with tracking; what a row must say depends on where each vehicle is in each interval.",
 ["src/multiclass.cpp", "src/io.cpp"],
 [("loading", "src/multiclass.cpp MNM_Dta_Multiclass::loading_vehicle_tracking"), ("report", "src/multiclass.cpp MNM::print_vehicle_route_results"), ("request", "src/io.cpp MNM_IO::read_vehicle_tracking_setting"), ("position", "src/multiclass.cpp MNM_Dlink_Ctm_Multiclass::move_veh_queue, clear_incoming_array")],
 ["the rows of vehicle_route_cong_raw.txt"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
