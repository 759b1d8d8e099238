#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

G, O, L, LA, SO, GEN, H, EN = ("pyodrx/geometry.py", "pyodrx/opendrive.py", "pyodrx/links.py", "pyodrx/lane.py",
                           "pyodrx/signals_objects.py", "pyodrx/generators.py", "pyodrx/helpers.py", "pyodrx/enumerations.py")

p("C01", "The end pose of a curve element is the true integral of the curve",
  "For every line, arc, spiral and cubic parametric element and every start pose, the end position and heading it reports are those reached by following the curve it describes (constant, zero, or linearly changing curvature, or the two polynomials) from that pose over its length. The length it reports is the requested one, or the one implied by the requested turning angle, curvature rate or polynomial arc length. A spiral or arc requested by angle turns by exactly that angle, in the direction of its curvature.",
  ["inputs"], "All finite start poses, all non-degenerate element parameters (positive length, curvatures of either sign incl. zero, equal, nearly equal and sign-changing; angles beyond a full turn; normalized and arcLength polynomials).",
  "The tests compare about 40 hand-computed poses; no spiral by angle or rate, no spiral with two different non-zero same-sign curvatures from an arbitrary pose, one polynomial, no extreme curvature ratio.",
  [G], [("Line/Arc/Spiral/ParamPoly3 end pose", G), ("EulerSpiral Fresnel evaluation", G)], ["get_end_data return values", "length attribute"])
p("C02", "Placing an element from its end exactly inverts placing it from its start",
  "For every element and every start pose, running the element to its end pose and then asking where it must start to arrive at that end pose gives back the original start pose and the same length. This holds for all four element types, whichever of the two directions is asked first.",
  ["inputs"], "All element kinds and parameters as in C01, all start poses.",
  "Tests try lines, 15 unit arcs of half turns and 16 spirals of one length; parametric cubics are never placed from the end.",
  [G], [("start pose from end pose of each element", G)], ["get_start_data return values"])
p("C03", "Asking an element or plan view for poses never changes it",
  "Any sequence of start-pose and end-pose queries, on any element, in any order and from any poses, returns for each query the same answer a freshly built element with the same parameters would give. One element object may be shared by several plan views (and placed forwards in one, backwards in another) without any of them being affected, and what is written for the element does not depend on the queries made.",
  ["histories"], "All sequences of queries and placements over all element kinds, including arcs given by angle with a sign that disagrees with the curvature and elements shared between roads.",
  "Each test builds a fresh element and makes at most one query of each kind; no test reuses an element.",
  [G], [("cached length/angle on the element", G)], ["get_end_data / get_start_data return values", "written geometry records"],
  state=[("length, angle", "derived values cached on the element at query time", G)])
p("C04", "A plan view is one continuous chain with consistent s, anchored at either end",
  "For every sequence of elements, whether the road is anchored at its start or at its end, the written geometry records appear in road order, the first at s=0, each beginning exactly where the previous one ends with the same heading (unless headings were given explicitly), with s equal to the sum of the preceding lengths, and the road's length equal to the total. The start and end points the road and its plan view report are those of the written chain.",
  ["inputs", "configurations"], "All sequences of 1..n elements of all kinds, all anchor poses, anchored by start pose, by predecessor or by successor link (start or end contact); with explicit headings when anchored at the start.",
  "No test checks a plan view of more than one element, nor any plan view anchored at its end, nor the s values.",
  [G, O], [("PlanView.adjust_geometries both directions", G), ("Road.get_end_point", O), ("road length attribute", O)], ["planView/geometry elements", "get_start_point/get_end_point", "road length attribute"])
p("C05", "After adjusting, linked roads meet in position and heading at the joint",
  "After adjust_roads_and_lanes, for every road whose predecessor or successor is a road (ordinary or connecting, no lane offset), this road's end of the link and the named contact point of the other road coincide in position, and the headings continue through the joint (equal for start-to-end joints, opposite for start-to-start and end-to-end joints). This holds for every road network whose links form a tree or geometrically closed loops, including joints made only through connecting roads of a junction.",
  ["programs", "configurations"], "All link topologies (chains, trees, loops that close, junctions with any number of connecting roads), the four contact combinations, any element sequence, any anchor, any insertion order, junction ids equal to or different from road ids, integer or string ids.",
  "Five three-road chains in one insertion order are adjusted in the tests, and only their lane ids are asserted, never a coordinate.",
  [O, G], [("adjust_startpoints worklist", O), ("adjust_road_wrt_neighbour contact cases", O)], ["planView of every road in the written document", "get_start_point/get_end_point"])
p("C06", "The network produced does not depend on the order in which roads are added",
  "For a connected road network, adding the same roads in any order yields the same relative placement of all roads (equal up to one rigid motion; exactly equal when a road carries an explicit start pose) and the same lane links on every lane. No insertion order makes an otherwise valid network fail.",
  ["programs", "histories"], "All permutations of the roads of all connected networks of C05.",
  "Every test adds roads in one order, predecessor first.",
  [O, L], [("pivot choice and worklist order", O), ("pairwise lane linking", L)], ["planView and lane link elements of the document for each order"])
p("C07", "Adjusting places every road or refuses; explicit start poses are honoured",
  "adjust_roads_and_lanes always finishes: either every road of the network is placed, or, when some road has no chain of road links to a placed one, it raises UndefinedRoadNetwork. Every road whose plan view was given a start pose is placed exactly there, and when none was, the first road added starts at the origin with heading zero.",
  ["programs", "configurations"], "All networks of at least one road, connected or not, with any subset of roads anchored (consistently with the links), any insertion order, junction ids that are or are not also road ids.",
  "Only single-component three-road networks without any explicit pose are adjusted in the tests; the refusal and multi-anchor cases are never run.",
  [O], [("fixed roads, pivot, progress check", O), ("start pose arguments", G)], ["exception type", "planView of every road", "step count of the call"])
p("C08", "Lanes are numbered outwards from the centre without gaps and written once",
  "In every lane section, for any interleaving of left and right additions, the left lanes carry ids 1, 2, 3, ... and the right lanes -1, -2, -3, ... in the order added, and the centre lane 0. Every lane and every lane section added is written exactly once, under the left, centre or right group of its own section, sections in the order added.",
  ["inputs", "histories"], "All interleavings of additions, any numbers of lanes (including none on a side, and more than nine), any number of sections.",
  "The tests add at most one lane per side and print the result.",
  [LA], [("LaneSection counters", LA)], ["laneSection/left|center|right/lane elements"])
p("C09", "Consecutive roads with equal lane counts get complete reciprocal lane links",
  "After adjusting, when one ordinary road's end is linked to the start of another (declared on both), every left and right lane of the first road's last section has exactly one successor link, to the equally numbered lane of the second road's first section, and that lane has exactly one predecessor link back; no other cross-road lane links appear. If the lane counts at that joint differ, NotSameAmountOfLanesError is raised instead.",
  ["programs", "configurations"], "All chains, trees and rings (also of two roads) of ordinary roads, any number of lanes and of lane sections whose counts differ along the road, integer or string ids, any insertion order.",
  "One chain of three roads, one lane per side and one section, is asserted; unequal counts and several sections are never tried.",
  [L, O], [("create_lane_links for two ordinary roads", L)], ["lane link elements", "lane.links getters", "exception type"])
p("C10", "Connecting roads' lanes link to the lanes they touch, with sign and offset",
  "After adjusting, each lane of a connecting road's first (last) section has exactly one predecessor (successor) link when the road declares that end, to the lane of the attached road with the same number if the two roads run the same way through the joint and the negated number otherwise, shifted by the declared lane offset (counted in the connecting road's own numbering, before the sign changes); the named lane exists in the attached road's section at that joint. Ordinary roads get no lane link from being attached to a junction.",
  ["programs", "configurations"], "All connecting roads with either contact point at either end, different left/right lane counts, lane offsets, several lane sections on either road, several connecting roads per junction and several junctions.",
  "Four three-road cases with one lane per side, one section and no offset are asserted.",
  [L, O], [("create_lane_links for connecting roads", L)], ["lane link elements of connecting and ordinary roads"])
p("C11", "Linked lanes physically coincide, also under lane offsets",
  "In an adjusted network whose lanes are all three metres wide, for every lane link written between two roads the two lanes occupy the same place: the lane's lateral strip at its end of the joint equals the linked lane's strip at the contact point. This includes connecting roads attached with a lane offset, whichever of the roads was placed first.",
  ["programs", "configurations"], "All networks with connecting roads and lane offsets (lanes staying on their side of the reference line), all contact combinations, any insertion order.",
  "No test uses a lane offset or relates lane links to coordinates.",
  [O, L], [("lane_offset displacement", O), ("lane offset in link ids", L)], ["planView, lane widths and lane links in the document"])
p("C12", "The junction table agrees with the lane links of its connecting roads",
  "create_junction yields for every connecting road exactly one connection per end, naming the attached road as incoming road, that connecting road, and that end as contact point, with one lane link per lane of the connecting road at that end. Each lane link goes from the very lane of the incoming road that the connecting road's lane is linked to after adjusting, so the junction table and the lane-level links of the document describe the same traffic.",
  ["programs", "configurations"], "All junctions with any connecting roads: one-way or asymmetric lanes, same or reversed direction, lane offsets on either end, several sections.",
  "No test calls create_junction.",
  [GEN, L], [("create_junction", GEN), ("sign of the joint", L)], ["junction/connection/laneLink elements versus lane/link elements"])
p("C13", "Connections keep content and order; automatic connection ids are unique",
  "For any sequence of connections added to a junction, each is written exactly once, in the order added, with its own incoming road, connecting road, contact point and lane links exactly as given. A connection that was given an id keeps it, and automatically assigned ids never repeat an id already used in that junction.",
  ["histories", "inputs"], "All sequences of connections with explicit and automatic ids in any mix, any lane link lists.",
  "One junction with two automatic ids is printed in the tests.",
  [L], [("Junction.add_connection numbering", L)], ["junction/connection elements"],
  state=[("id counter", "next automatic connection id", L)])
p("C14", "Generated junction roads connect every pair of roads without gaps",
  "For the supported crossings, create_junction_roads returns exactly one connecting road per pair of incoming roads, consecutively numbered from the start number and belonging to the junction, linked to both roads at the right contact points, with as many lanes of the same width as those roads have at the junction. Adjusting the resulting network leaves no gap in position or heading at any end of any connecting road, and every incoming road is linked to the junction at its junction end; roads with different lane counts are refused with NotSameAmountOfLanesError.",
  ["inputs", "configurations"], "Three-way T, three-way 120 degree and four-way crossings, any radius, any split between spiral and arc, any number of lanes and lane width, any road lengths and shapes, any junction id and start number.",
  "No test calls create_junction_roads.",
  [GEN, O], [("create_junction_roads geometry", GEN), ("get_lanes_offset", GEN)], ["returned roads", "planView of the adjusted document"])
p("C15", "The file written is the model: round trip through the file loses nothing",
  "For every model, write_xml (pretty or plain) produces a file that any XML parser reads back to exactly the tree the model reports - same elements, order, attributes and values - whatever characters the names and texts contain and whatever the locale of the process; without a file name it goes to the model's name with extension xodr. The text shown by prettyprint reads back to the same tree.",
  ["inputs", "configurations"], "All networks, names with any printable characters (non-ASCII, markup, quotes; no line breaks or tabs), both print modes, explicit and default file names, existing files, UTF-8 and ASCII/Latin-1 locales.",
  "No test writes a file.",
  [H, O], [("printToFile", H), ("write_xml", O)], ["bytes of the written file", "standard output of prettyprint"])
p("C16", "Producing the document is repeatable and changes nothing",
  "Asking a model, or any part of it, for its attributes or XML element any number of times, at any point while the model is being built or adjusted, gives equal results each time for the same state (apart from the header's date) and never influences anything produced later, also when several threads ask at once. Changing a returned element or attribute dictionary does not change the model.",
  ["histories"], "All interleavings of queries with building steps, all schedules of threads that query a finished network.",
  "Tests call get_element once per object and print it.",
  [O, LA, L, G, SO], [("get_element / get_attributes of every class", O)], ["serialized trees before/after"])
p("C17", "Object and signal ids are unique and chosen ids are kept when free",
  "Over any history of adding objects and signals (singly or as lists, to any roads, by roadside placement too; by several threads to roads of their own as well) no two objects and no two signals ever get the same id in one process. An id chosen by the user is kept exactly if no earlier object (respectively signal) uses it, and objects and signals are numbered independently of each other.",
  ["histories", "schedules"], "All sequences of additions with missing ids, chosen ids of integer or string type, repeats, ids that collide with earlier or later automatic ones, across several roads and networks.",
  "One duplicate pair of chosen ids is printed in the tests; automatic ids running into chosen ones are never tried.",
  [SO, O], [("_update_id registry and counter", SO), ("add_object/add_signal", O)], ["id attributes of object/signal elements"],
  state=[("used ids, id counters", "process-wide registry per class", SO)])
p("C18", "Roadside objects stand outside the lanes on the requested sides",
  "Placing a prototype along the roadside adds, for each lane section and each requested side, one object at the section start plus the s offset, at a lateral distance of the total lane width of that side in that section plus the t offset (positive on the left, negative on the right), facing backwards on the left and forwards on the right, repeated at the requested distance from there, no row running past the end of the road and the last section's row ending exactly there. The prototype itself is not changed and all its other properties are copied; on a road that is not adjusted yet the call is refused.",
  ["inputs", "configurations"], "All roads (any lane counts and widths per side, several sections), sides, offsets, distances and prototypes.",
  "One straight road with one lane per side, both sides, is printed in the tests.",
  [O, SO], [("add_object_roadside", O), ("Object.repeat", SO)], ["object and repeat elements"])
p("C19", "Objects, signals and repeats are written with exactly the values given",
  "Every value given for an object, signal, signal dependency or repeat entry appears unchanged in the written element under its OpenDRIVE attribute, optional values that were not given are left out (or, in a repeat, taken from the object), and each road writes exactly the objects and signals added to it, in order. A radius excludes width and length, and a missing one of width or length is written as zero.",
  ["inputs"], "All combinations of optional arguments, zero, negative, very small and large values, numpy and integer numbers, any text; country codes may be upper-cased and zero angles left out.",
  "Tests print two signals and five objects and assert nothing about them.",
  [SO, O], [("attribute dictionaries", SO), ("repeat defaults", SO)], ["object, repeat, signal, dependency elements"])
p("C20", "Lane widths, road marks and lines are written with exactly the values given",
  "Every coefficient, type, offset, mark and link given for a lane, and every value given for a road mark or its line, appears unchanged in the written document, and defaults fill in only what was not given (line length and spacing 3/3 for broken, 3/0 for solid, zero otherwise). A road mark has a line child exactly when a line property was given, carrying that road mark's own values.",
  ["inputs"], "All lane types, coefficients, road mark types with any subset of the optional arguments.",
  "Tests print three marks and assert nothing.",
  [LA], [("Lane/RoadMark/RoadLine attributes", LA)], ["lane, width, roadMark, type, line elements"])
p("C21", "Roads, links, junctions and header are written exactly as declared, each once",
  "The document contains one header with the network's name and format revision, then every added road once in the order added, then every added junction once in the order added; each road carries its id, junction membership, name and rule. Its link element holds exactly the declared predecessor, successor and neighbours with their element type, id, contact point or direction, and the link query functions report the same.",
  ["inputs", "programs"], "All numbers of roads and junctions, all link declarations incl. neighbours, ids 0, negative, large, integer or string.",
  "Two single-road documents are printed.",
  [O, L], [("OpenDrive.get_element", O), ("_Links getters and element", L)], ["OpenDRIVE, header, road, link elements", "road link getters"])
p("C22", "Contradictory or incomplete input is refused and leaves the model unchanged",
  "A second predecessor or successor, a third neighbour, a neighbour without direction, a partial start pose, an arc with zero curvature, an arc or spiral with none or several of its alternative size arguments, an arc-length polynomial without length, and a lane written without a number are each refused with the documented error at the call itself, whatever the values (zero included). After a refusal the model is exactly as it was and goes on working.",
  ["inputs", "histories"], "All combinations of given/omitted alternative arguments and all call sequences that exceed a cardinality.",
  "No test triggers any refusal.",
  [O, L, G, LA], [("argument checks", G), ("cardinality checks", O)], ["exception types", "document before/after"])
p("C23", "Every enumeration value is written as its OpenDRIVE literal",
  "Each member of every enumeration a user can pass (lane type, road mark type, weight, colour, rule, lane change, element type, contact point, direction, orientation, object type, dynamic) is written as the literal that OpenDRIVE defines for it, with blanks where the literal has blanks and +, - or none for orientations. Distinct members give distinct literals.",
  ["inputs"], "All members of all enumerations at every place they can be passed (finite, enumerated completely).",
  "Tests use about ten of some ninety members and never look at the text.",
  [EN, H, SO, LA, L], [("enum2str", H), ("orientation mapping", SO)], ["attribute values"])
p("C24", "Road generators build the road their parameters describe",
  "create_road, create_straight_road and create_cloth_arc_cloth return an unlinked road with the given id and junction membership, the requested numbers of left and right lanes of the requested width in one section, and a reference line that is exactly the given elements in order (or a straight line of the given length, or spiral-arc-spiral reaching the given curvature and turning by the given angles). In create_road the outermost lane on each side is marked solid, the inner ones broken, and the centre line as requested.",
  ["inputs"], "All numbers of lanes (zero, one, many, unequal), widths, lengths, element kinds singly or in lists, curvature and angle signs.",
  "Six straight roads are asserted; create_road and create_cloth_arc_cloth are never called.",
  [GEN], [("create_road", GEN), ("create_straight_road", GEN), ("create_cloth_arc_cloth", GEN)], ["road element of the adjusted network"])
p("C25", "Independently built networks do not influence each other",
  "Building several networks in one process, their construction steps interleaved in any way, gives for each network the same document as building it alone in a fresh process, apart from the date and automatically chosen object and signal ids. Default arguments and the library's standard road marks are never altered by use.",
  ["histories", "programs"], "All interleavings of the building steps of several networks.",
  "Each test builds one small network.",
  [GEN, O, LA, L, G], [("shared default and standard objects", GEN)], ["documents built interleaved versus alone"])
p("C26", "Adjusting again, or after adding roads, keeps what is placed, nothing twice",
  "Calling adjust_roads_and_lanes again leaves the document unchanged. If roads were added in between, the already placed roads stay exactly where they are, the new ones are attached to them as in a single adjustment, and no geometry record or lane link appears twice.",
  ["histories"], "All splits of a network into stages with an adjustment after each stage and repeated adjustments.",
  "Each test adjusts once.",
  [O, G, LA], [("already placed roads in adjust_startpoints", O), ("lane link insertion", LA)], ["documents after each adjustment"])
p("C27", "Declared lane section links are written once, at both ends",
  "For lanes linked through a lane linker, every declared pair gives exactly one successor link on the first lane naming the second's number and one predecessor link on the second naming the first's number, however many sections are added with the same linker and whether linkers come singly or as a list. Lanes not declared get no link.",
  ["inputs", "histories"], "All sets of declared pairs over consecutive sections (merges, splits, added and dropped lanes), linkers shared between sections or one per section.",
  "LaneLinker is never used in the tests.",
  [LA, L], [("Lanes.add_lanesection linker handling", LA), ("LaneLinker", L)], ["lane link elements"])
p("C28", "Every document has the OpenDRIVE 1.5 element structure and attribute types",
  "Every document the library produces from valid calls contains only elements and attributes of OpenDRIVE 1.5 in their prescribed nesting and order, has all attributes that are mandatory there, and every numeric attribute is a finite number in plain notation of the right kind (ids and references non-empty). Every road link, connection and lane reference names something that exists in the document.",
  ["inputs", "programs"], "All networks combining all features of the library, adjusted before writing, whose input refers to existing roads and junctions only. Road neighbours, which the library cannot write in the standard's form, are a recorded finding.",
  "Nothing checks any document's structure.",
  [O, LA, L, G, SO], [("element assembly in every class", O)], ["whole written document"])
p("C29", "The viewer is started on the network given, in the place esmini expects",
  "run_road writes the current state of the given network to the esmini resources folder and starts the viewer from the given esmini folder exactly once, pointing it at that very file with the requested traffic density. This holds for relative and absolute folders and for folder names with blanks or shell characters.",
  ["inputs", "configurations"], "All esmini folder names, densities and networks.",
  "run_road is never called.",
  [H], [("run_road", H)], ["process arguments seen by a stand-in viewer", "file at that path"])
p("C30", "Placing, linking and looking up by hand agrees with adjusting",
  "adjust_startpoints alone places every road where adjust_roads_and_lanes does and links no lane; create_lane_links called on pairs of roads by hand, in any order, argument order and number of repetitions, before or instead of adjusting, gives the same lane links as adjusting; adjust_road_wrt_neighbour puts the named end of a road at the contact point of its neighbour, the lane offset away. The lookup functions (get_road_by_id, get_lanes_offset, are_roads_consecutive, Road.get_end_point) answer what the network declares and change nothing.",
  ["histories", "inputs"], "All networks of linked roads, all orders and repetitions of the direct calls, all contact points, lane offsets and kinds of ids.",
  "The tests call these functions on two or three straight roads each, once, in one order.",
  [O, LA, L, GEN], [("adjust_startpoints, adjust_road_wrt_neighbour", O), ("create_lane_links, are_roads_consecutive", L), ("get_road_by_id, get_lanes_offset", GEN)],
  ["documents after direct calls", "return values of the lookup functions"])
p("C31", "Ids and names are labels only",
  "Replacing all road and junction ids of a network consistently by other distinct ones - numbers, texts, numpy integers, references given as text where the id is a number or the other way round, zero, negative, equal for a road and a junction - and changing all names, changes in the document nothing but these labels: every pose, lane link, connection and the order of everything stay exactly equal.",
  ["inputs"], "All networks and all injective relabellings.",
  "The tests use small integers as ids.",
  [O, L, LA, GEN], [("id comparisons in adjusting and linking", O), ("id comparisons in lane linking", L), ("road lookup of the generators", GEN)], ["documents of relabelled networks"])
p("C32", "Moving, turning and mirroring commute with adjusting",
  "Moving all given start poses by one rigid motion moves every written pose by that motion and changes nothing else in the document. Mirroring a network (curves bent the other way, left and right lanes exchanged, lane offsets negated) mirrors every pose and negates every lane link. A first road anchored at (0, 0, 0) equals one without any anchor.",
  ["inputs"], "All networks, all motions (far away, whole turns, any angle).",
  "The tests compare fixed numbers of a few small networks, nearly all at the origin with heading zero.",
  [G, O, LA], [("placing of elements from either end", G), ("adjust_road_wrt_neighbour, lane offsets", O), ("lane link signs", L)], ["documents of moved and mirrored networks"])
p("C33", "The kind of number given does not matter",
  "Giving any quantity as an integer, a float, a numpy float or a numpy integer of the same value leads to the same document, wherever the quantity is given (geometry, poses, sections, widths, marks, objects, signals, offsets, generator arguments).",
  ["inputs"], "All networks with all features and generator calls, all assignments of number kinds to the quantities.",
  "The tests use one kind for each argument.",
  [G, O, LA, SO, GEN], [("numeric arguments in all classes", G)], ["documents built from different kinds of numbers"])
p("C34", "What is built does not depend on the process it is built in",
  "The document and the file of a network depend only on the calls that build it: not on the hash seed, interpreter optimisation, locale, encoding or absence of the standard output, time zone, working directory, numpy print options or random state, nor on whether it is built in the main thread, in another one or at the same time as other networks in other threads. Building and writing leave the state of the process (working directory, environment, random generators, error handling, locale, streams, files other than the one written) as it was.",
  ["configurations", "schedules"], "All networks with all features and arbitrary texts as ids, all combinations of process settings, thread schedules of independent networks.",
  "The tests run in one process with one environment.",
  [O, G, LA, L, H, GEN], [("progress messages while adjusting", O), ("file writing", H), ("iteration orders, shared state", O)], ["documents and files from child processes", "process state before and after"])
p("C35", "A failure while writing is reported and leaves no damage behind",
  "Writing a network to a file (pretty or plain) either returns with the complete document under the given name, whatever was there before, or raises an OSError - for a missing folder, a folder or file in the wrong place, a limit of space reached at any byte, no descriptors left - and never returns with a part of the document written. In either case no descriptor stays open, no other file is changed or left over, the working directory and the network are as before, and writing again where it is possible gives the complete document. run_road does not start the viewer when its file could not be written.",
  ["fault_sequences", "inputs"], "All networks, both ways of printing, failures of the operating system at every byte of the document and at opening, all sequences of failing and succeeding writings.",
  "The tests write a few files into an empty folder where nothing fails.",
  [H, O], [("printToFile, run_road", H), ("write_xml", O)], ["errors raised", "files", "open descriptors of the process"])
p("C36", "Every part reports its own piece of the document",
  "The element a road, plan view, lane section, lane, road mark, curve element, object, signal, junction or connection reports on its own (or that is printed for it) is exactly the one that stands for it in the document of the whole network, below the road or junction it belongs to; the attributes it reports are those of that element.",
  ["inputs"], "All networks with all features, all parts of them.",
  "The tests print the parts and never compare them with a document.",
  [O, L, LA, G, SO], [("get_element and get_attributes of every class", O)], ["elements and attributes of the parts", "whole document"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        if len(x["title"]) > 80: print("TOO LONG", x["id"], x["title"])
        f.write(json.dumps(x) + "\n")
print(len(P))
