#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})
G, O, L, K, S, X, H = ("pyodrx/geometry.py", "pyodrx/opendrive.py", "pyodrx/lane.py", "pyodrx/links.py",
                       "pyodrx/signals_objects.py", "pyodrx/generators.py", "pyodrx/helpers.py")

prop("C01", "A road's geometry is one unbroken, correctly measured chain",
 "In the exported document of an adjusted network, every road lists exactly the geometries the user added, in that order, each starting at the position and heading where the previous one ends (or, on a road placed from its start, with the heading given for it, if one was) and at an s equal to the summed lengths before it (0 for the first), and the road's length is the sum of its geometries' lengths. "
 "This holds whether the road was placed from its start or from its end, and the start and end points the road reports are those of the chain.",
 ["inputs", "histories"],
 "every list of lines, arcs, spirals and cubic polynomials, every start pose, every road placed forwards or backwards by the adjustment",
 "The tests export a plan view only for single geometries and never read s, x, y, hdg of a chain; no test places a multi-geometry road from its end. The claim quantifies over all geometry lists, poses and placement directions.",
 [G, O], [("planview", "raw geometries and the placed chain", G), ("s/x/y/hdg", "start of each exported geometry", G)],
 [("PlanView.adjust_geometries (both directions)", G), ("get_end_data/get_start_data of each geometry", G)],
 ["exported <planView>", "PlanView.get_start_point/get_end_point", "Road.get_end_point"])

prop("C02", "After adjustment linked roads meet where their links say",
 "After a successful adjustment every road that was given a start position begins exactly there, or where set_start_point moved it before (the first added road, when none was given one, at the origin, heading 0, or where set_start_point put it), and every other road is chained to those through road links whose two sides coincide: same point and matching direction of travel at the declared contact points, displaced sideways by the declared number of 3 m lanes. "
 "When the links form no cycle and connect no two positioned roads with each other, every declared road link coincides this way, whichever of its two roads was placed first.",
 ["inputs", "configurations", "histories"],
 "every network of roads with road/junction predecessors and successors, every combination of contact points and lane offsets, every insertion order, every road shape and anchor pose",
 "The five link tests use one chain of three roads and check lane ids only, never a coordinate. Placement is a fixpoint over arbitrary link graphs and orders.",
 [O, G], [("pose of each road", "start/end point and heading after placement", G), ("links", "declared predecessor/successor, contact point, lane offset", O)],
 [("OpenDrive.adjust_startpoints / adjust_road_wrt_neighbour", O)], ["exported geometry poses", "PlanView.get_start_point/get_end_point"])

prop("C03", "Adjustment places every connected road once, or refuses the network",
 "Adjusting a network (once) always terminates; it succeeds, with every road placed exactly once, if and only if every road is reachable from a positioned road (one with a given start position, or the first added road if none has one), where a road is reached through its own predecessor or successor road link or through a connecting road's link to it. "
 "Otherwise it raises the undefined-network error; junction ids, the spelling of ids as numbers or text, and the insertion order of the other roads never change which of the two happens.",
 ["inputs", "configurations", "histories"],
 "every link graph over ordinary and connecting roads, every set of fixed roads, every insertion order, every assignment of road and junction ids",
 "Tests only adjust networks that succeed, with junction ids that happen to equal a road id, in one insertion order each.",
 [O], [("placed set", "roads already adjusted", O)], [("fixpoint loop and UndefinedRoadNetwork", O)],
 ["return or exception of OpenDrive.adjust_roads_and_lanes", "number of exported geometries per road"])

prop("C04", "Lane links between consecutive roads are complete, reciprocal and unique",
 "When one ordinary road is another's predecessor and that road is its successor, adjusting links every left and right lane of the first road's last lane section to the lane with the same id in the second road's first lane section, and back, each exactly once; no other lanes of ordinary roads are linked by the adjustment. "
 "If those two sections differ in their number of left or right lanes, the adjustment raises the lane-count error instead, and lane counts of any other section are irrelevant.",
 ["inputs", "configurations", "histories"],
 "every pair or chain or ring of consecutive roads, every number of lanes and lane sections, every insertion order, ids as numbers or text",
 "One test links three single-section roads with one lane per side in one insertion order; multi-section roads, unequal counts and other orders are unreached.",
 [K, O], [("lane links", "predecessor/successor id of each lane", K)], [("create_lane_links, _create_links_roads", K)],
 ["exported <lane>/<link>", "exception of adjust_roads_and_lanes"])

prop("C05", "Connecting-road lanes link to the lanes they physically continue",
 "Adjusting gives every left and right lane of a connecting road, in its first section, one predecessor link and, in its last section, one successor link, naming the lane it continues in the touching section of the linked ordinary road: same side if the two roads run in the same direction there, opposite side otherwise, counted outwards by the declared lane offset. "
 "Ordinary roads receive no lane link from a junction, and the result does not depend on insertion order or on lane counts of sections that do not touch.",
 ["inputs", "configurations", "histories"],
 "every combination of contact points, lane counts per side (including one-way roads), lane sections, lane offsets that stay on one side of the road, insertion orders and id values; the connecting road joins two different ordinary roads that have the lanes it continues",
 "Four tests cover the four contact-point combinations with one lane per side, one section and offset 0.",
 [K, O], [("lane links", "predecessor/successor id of each connecting lane", K), ("lane offset", "sideways displacement in lanes", O)],
 [("_create_links_connecting_road, _get_related_lanesection", K)], ["exported <lane>/<link>"])

prop("C06", "Lane links inside a road are reciprocal and applied exactly once",
 "Every predecessor/successor lane pair recorded in a lane linker that is handed over while lane sections are added yields exactly one successor link on the first lane and one predecessor link on the second, carrying the other lane's id, no matter how often, in which combination (single or list) or with which section the linker is handed over, or when pairs are added to it in between; pairs of linkers never handed over yield nothing. (Both lanes of a pair have been added to their sections when the linker is handed over.)",
 ["inputs", "histories"],
 "every set of lane pairs (splits and merges included), every sequence of linker creation, pair recording and section adding",
 "No test passes a lane linker at all; only example scripts do.",
 [L, K], [("lanelink.used", "pair already applied", K)], [("Lanes.add_lanesection", L), ("LaneLinker.add_link", K)], ["exported <lane>/<link>"])

prop("C07", "Lanes are numbered outwards from the centre and exported by side",
 "In every lane section the centre lane has id 0, the left lanes have ids 1,2,3,... and the right lanes -1,-2,-3,... in the order they were added, which is also the order of the export, independently of how left and right additions interleave and of other sections; the export lists each lane once, under its side, with the type and width polynomial it was created with, and omits an empty side. "
 "Lane sections appear in the order added, each with its own s.",
 ["inputs", "histories"],
 "every interleaving of left and right lane additions over any number of sections, every lane type and width coefficient",
 "The lane tests add one lane per side and only print the element.",
 [L], [("lane_id", "signed lane number", L)], [("LaneSection.add_left_lane/add_right_lane", L), ("LaneSection.get_element, Lanes.get_element", L)],
 ["exported <lanes>"])

prop("C08", "A created junction's lane table agrees with the connecting roads' own lane links",
 "A junction created from connecting roads contains, for each connecting road, exactly one connection from its successor road (touching its end) and one from its predecessor road (touching its start), and that connection's lane links are exactly the pairs (lane of the incoming road, lane of the connecting road) that the connecting road's own lane links name after adjustment, lane offsets and reversed contact included. "
 "Every lane and road named in the table exists.",
 ["inputs", "configurations"],
 "every set of connecting roads, contact points, lane counts per side, lane sections and lane offsets that stay on one side",
 "No test calls create_junction; the examples only use equal directions and are never compared with the lane links.",
 [X, K], [("connection table", "incoming road, connecting road, contact point, lane pairs", K)], [("create_junction, _create_junction_links", X)],
 ["exported <junction>", "exported <lane>/<link>"])

prop("C09", "Connections in a junction are numbered without collisions",
 "A connection added to a junction keeps the id it was given, even one that is there already; one added without an id receives an id that no connection already in that junction has, and ids given automatically never repeat. Connections are exported once each in the order they were added, with their lane links in the order recorded.",
 ["inputs", "histories"],
 "every sequence of connections with and without explicit ids (explicit ids distinct from those already present), over any number of junctions",
 "One test adds two connections without ids and prints the element.",
 [K], [("_id_counter", "next automatic id", K)], [("Junction.add_connection", K)], ["exported <junction>"])

prop("C10", "Signal and object ids are unique and respect the ids asked for",
 "All signals added to roads in a process have pairwise different exported ids, and so do all objects, whatever mixture of explicit, repeated and missing ids, single and list additions and roadside generation is used; an explicit id is kept if no earlier addition of that kind uses it. "
 "Signals and objects are counted separately and never influence each other's ids.",
 ["inputs", "histories"],
 "every sequence of additions of distinct signals and objects to any number of roads and networks",
 "One test adds two objects with the same id and prints; it does not look at the ids.",
 [S, O], [("_usedIDs/_IDCounter", "ids handed out per kind", S)], [("_SignalObjectBase._update_id", S), ("Road.add_object/add_signal", O)],
 ["exported signal/object ids"])

prop("C11", "Link limits hold and refused calls change nothing",
 "A road accepts at most one predecessor, one successor and two neighbours, in any order of calls; a further one, or a neighbour without a direction, is refused with a ValueError. A refused call leaves the road's exported links, and the later outcome of adjusting, exactly as if it had not been made, and every accepted link is exported once with the element type, id, contact point or direction given. What a road or a lane reports of its predecessor and successor (id, element type, contact point) is at any time what it exports.",
 ["inputs", "histories"],
 "every sequence of add-predecessor, add-successor and add-neighbour calls with any arguments on any number of roads",
 "No test makes a second link of a kind or a neighbour link.",
 [O, K], [("links", "accepted links in order", K)], [("Road.add_successor/add_predecessor/add_neighbor", O), ("_Link", K)],
 ["exported <road>/<link>", "exceptions"])

prop("C12", "The exported document says exactly what was built",
 "The document contains a header (the network's name, format version 1.5, a date, zero bounds), then each added road (no two with the same id) once in the order added, then each added junction once in the order added; each road carries its id, junction number, name, rule, links, geometry kinds and parameters, lane sections, road marks, signals and objects exactly as given, and nothing that was not given. "
 "Signals and objects of a road each come in the order added. Enumerated values are written with their OpenDRIVE spelling and numbers without loss.",
 ["inputs", "histories"],
 "every sequence of building calls and every argument value, over every enumeration member",
 "The tests print elements but never compare an attribute; they use two or three enumeration members.",
 [O, L, K, S, G, H], [("document", "tree returned by get_element", O)], [("get_element/get_attributes of every class", O), ("enum2str", H)],
 ["OpenDrive.get_element"])

prop("C13", "Writing is faithful, repeatable and free of side effects",
 "Reading a written file back gives the same document as the in-memory export (apart from the date), for pretty and plain printing, any printable text in names, any platform text encoding, and whatever the file contained before; a file written without a name is named after the network, with .xodr; what is pretty-printed to the terminal or put into a viewer's resources (run_road) is that document too. Exporting, showing or writing any number of times, at any point after adjustment, changes neither the network nor any later export.",
 ["inputs", "histories", "configurations"],
 "every built network, name, print mode, previous file content and locale encoding, every interleaving of exports with further building calls",
 "No test writes a file.",
 [H, O], [("file", "bytes on disk", H)], [("printToFile", H), ("OpenDrive.write_xml", O)], ["written .xodr file", "OpenDrive.get_element"])

prop("C14", "Walking a geometry backwards undoes walking it forwards",
 "For every geometry and pose, computing the end from the start and then the start from the end with direction reversed returns the original position and the reversed heading, with the same length both ways. The answers depend only on the geometry's parameters and the pose, not on which or how many computations were made on that geometry before.",
 ["inputs", "histories"],
 "every line, arc (by length or angle, either turning direction), spiral and cubic polynomial, every pose, every sequence of forward and backward computations",
 "Inverse tests exist for a handful of lines, arcs and spirals in one fixed call order; none for polynomials, none with repeated or backward-first calls.",
 [G], [("length/angle", "cached on arcs and polynomials", G)], [("get_end_data/get_start_data", G)],
 ["return values of get_end_data and get_start_data"])

prop("C15", "Roadside objects stand outside the lanes they accompany",
 "Adding an object along the roadside of an adjusted road creates, for each lane section and chosen side, one independent copy of the prototype placed at the section's start plus the given offset, laterally at the summed width of that side's lanes plus the lateral offset (positive on the left, negative on the right), facing pi on the left and 0 on the right, and repeated at the given distance exactly to the end of the road. "
 "The prototype itself is unchanged, and on a road that has not been adjusted the call is refused and adds nothing.",
 ["inputs", "histories"],
 "every adjusted road with lanes of constant width (lane counts, widths, sections, length), side choice, offsets, repeat distance and prototype",
 "One test calls it once with a one-lane road and prints.",
 [O, S], [("objects", "objects of the road", O)], [("Road.add_object_roadside", O), ("Object.repeat", S)], ["exported <object>/<repeat>", "exceptions"])

prop("C16", "Objects and signals export given values and sound fallbacks, never blanks",
 "An object's or signal's exported attributes are those given; a repeat entry takes every required value that was not given from its object at the time of the call (height 0 if the object has none), keeps earlier entries, and lists optional values only when given; radius excludes width and length, and width or length given alone is completed with 0. "
 "No attribute that was left out is exported as a placeholder such as 'None'. A dependency exports its id and type.",
 ["inputs", "histories"],
 "every combination of given and omitted arguments of objects, signals and repeat calls, any number of repeats",
 "Tests build three argument combinations and print.",
 [S], [("_repeats", "repeat entries", S)], [("Object.repeat, get_attributes", S)], ["exported <signal>, <object>, <repeat>"])

prop("C17", "A road mark's line pattern follows its arguments and type defaults",
 "A road mark exports its type, weight, color, height, s-offset, and width and lane-change only when given; if any of length, space, lateral offset (zero counts as not given) or rule is given it also exports one line carrying the given values, completed by the type's defaults (broken: 3/3, solid: 3/0, other types: 0/0; width 0.2 on line and mark alike, lateral offset 0, rule none), and otherwise exports no line. A line made on its own carries exactly its given values (0 where none).",
 ["inputs"],
 "every mark type, weight, color, rule and lane-change value combined with every subset of numeric arguments",
 "One test builds two solid marks and prints.",
 [L], [("_line", "line child of the mark", L)], [("RoadMark.__init__/get_element", L)], ["exported <roadMark>"])

prop("C18", "Generated junctions connect every pair of arms and close geometrically",
 "For three or four arms at the supported angles (multiples of 90 degrees or three at 120 degrees, first arm at 0, increasing), any radius, any spiral/arc split adding up to the whole turn, and arms whose touching sections have equally many left and right lanes, all of the same width, the generated junction has exactly one connecting road per pair of arms, numbered consecutively from the start number and belonging to the junction, whose turn is the difference of the arms' directions. "
 "After adjustment both ends of every connecting road coincide with the arms they name, arms carry their junction link, lanes are as many and as wide as the arms', and arms with different lane counts are refused with the lane-count error.",
 ["inputs", "configurations"],
 "every arm layout, radius, split, lane count and width, junction id, start number and arm shape",
 "No test generates a junction.",
 [X, O], [("junction roads", "generated connecting roads", X)], [("create_junction_roads, create_cloth_arc_cloth, get_lanes_offset", X)],
 ["exported document after adjust"])

prop("C19", "Ill-defined inputs are refused when they are given",
 "An arc needs exactly one of length and angle and a non-zero curvature, a spiral exactly one of length, angle and curvature rate, a polynomial over arc length needs its length, and a plan view's start position needs all or none of x, y and heading: every other combination is refused at construction with the documented error, and every allowed combination is accepted.",
 ["inputs"],
 "every subset of the optional arguments with arbitrary values, zeros included",
 "No test constructs an over- or under-defined geometry or plan view.",
 [G], [("constructor arguments", "which optional inputs are present", G)], [("constructors of Arc, Spiral, ParamPoly3, PlanView", G)],
 ["exceptions of the constructors"])

prop("C20", "Road generators deliver the road that was asked for",
 "The straight, free-form and spiral-arc-spiral generators return a road with the requested id, junction number, number of lanes per side, lane width and geometry (for spiral-arc-spiral the requested curvature and total turn, to the requested side), in one lane section; the free-form generator marks the outermost lane of each side solid, inner lanes broken and the centre as given. "
 "Every geometry type is accepted, alone or in a list, and roads generated separately share nothing that later calls on one could change in another.",
 ["inputs", "histories"],
 "every generator argument combination, every geometry type and list, any number of generated roads",
 "One test covers six straight roads, reading the widths of one lane; the other generators are not called.",
 [X], [("generated road", "lanes and plan view", X)], [("create_road, create_straight_road, create_cloth_arc_cloth", X)], ["exported road"])

prop("C21", "Networks built side by side do not influence each other",
 "Building, adjusting and exporting several networks in one process, with their calls interleaved in any way, gives each network the same document it would have if it had been built alone; only the automatically chosen ids of signals and objects may differ.",
 ["schedules", "histories"],
 "every interleaving of the call sequences of two or more networks that share no user-created element",
 "Every test builds a single network and none compares documents.",
 [O, L, K, S, X], [("module and class level state", "defaults, shared marks, id counters", S)], [("per-instance state initialisation", O)],
 ["OpenDrive.get_element of each network"])

prop("C22", "Curves turn and extend by exactly what was asked",
 "An arc or spiral defined by an angle turns by exactly that angle in the direction of its curvature; one defined by a length has that length; one defined by a curvature rate has the length at which that rate leads from its start to its end curvature; a polynomial has its arc length. "
 "The end pose is the one reached by following the curvature from start to end over that length, for every start pose, however small the curvature or its change.",
 ["inputs"],
 "every curvature pair (equal, opposite and zero included where defined), length, angle, rate, polynomial and start pose",
 "Expected values exist for arcs with unit-like curvature and spirals given by length from or to zero; angle- and rate-defined spirals and polynomials are unverified.",
 [G], [("length/angle", "derived extent", G)], [("Arc, Spiral, EulerSpiral, ParamPoly3", G)], ["return values of get_end_data", "exported length"])

prop("C23", "Placing and lane-linking can be done as separate steps",
 "Placing a network with adjust_startpoints puts every road exactly where adjust_roads_and_lanes would, with the same refusal, and creates no lane link. "
 "create_lane_links, given any two roads of a network in either order, before or after placing, creates exactly the lane links that adjusting creates between these two (none if they are not linked to each other; the same lane-count refusal), and changes no other road. "
 "Placing once and linking every pair once, in any order, therefore gives the document adjusting gives.",
 ["inputs", "histories"],
 "every network, every order of the pairs and of each pair's roads, placing at any point in between",
 "No test calls either on its own; the few networks of the tests are adjusted as a whole, with one order each.",
 [O, K], [("roads and their lanes", "positions and lane links", K)], [("adjust_startpoints", O), ("create_lane_links", K)], ["OpenDrive.get_element"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
