"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if "observe_at" in kw:
        kw["observe_at"] = [x.strip() for x in kw["observe_at"].split(";")]
    if "state" in kw:
        kw["state"] = [{"name": x.strip(), "meaning": "", "where": files[0]} for x in kw["state"].split(",")]
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/compas_cem/"
FP, FN = S+"equilibrium/force.py", S+"equilibrium/force_numpy.py"
TP, DG, FM = S+"diagrams/topology/topology.py", S+"diagrams/diagram.py", S+"diagrams/form.py"
OP = S+"optimization/"

p("C01", "Every node of a returned form is in static equilibrium",
  "For every valid topology diagram, the form returned by either form-finding solver balances at every node: the applied load, the edge forces pulling along the drawn edges (tension positive, compression negative) and, at supports only, the reported reaction sum to zero. "
  "The balance is exact up to rounding when the last iteration moved no node, and otherwise off by no more than what a displacement of the threshold eta can explain through indirect deviation edges. "
  "Nodes that are not supports carry no reaction.",
  ["inputs"], "all valid topology diagrams (any number of trails, sequences, direct and indirect deviation edges, loads, signed lengths, planes), both solvers, all eta > 0 and tmax > 1 for which the solver returns",
  "the tests compare coordinates and forces of a few small diagrams; equilibrium is claimed for every diagram, every sign combination and every iteration count",
  [FP, FN, TP, DG],
  [("sweep over iterations, sequences and trails", FP+":equilibrium_state"), ("same sweep, numpy", FN+":equilibrium_state_numpy"),
   ("residual = incoming - load - deviation resultants", FP+":node_equilibrium / trail_vector_out / deviation_edges_resultant_vector"),
   ("result written to the form", FP+":form_update")],
  state="node_xyz, residual_vectors, trail_forces, reaction_forces", observe_at="FormDiagram node x/y/z, rx/ry/rz, qx/qy/qz; edge force")

p("C02", "Trail geometry and force signs follow the given lengths and planes",
  "In the returned form every origin node stays where the topology placed it, every trail edge is laid out along the force it carries with its prescribed signed length, or with the signed distance to its prescribed plane when the force line meets that plane (its end then lies on the plane). "
  "The sign of a trail force equals the sign of the signed length used, deviation edges keep their prescribed force, and the length stored on every edge is the distance between its two nodes signed like its force.",
  ["inputs"], "all valid topology diagrams, both solvers, all signed lengths and planes (including planes the force line misses)",
  "tests use a handful of signs, lengths and one plane; parallel planes, flipped states, reversed edge orientation and zero residuals are not sampled",
  [FP, FN],
  [("next position = position + signed length * unit residual", FP+":equilibrium_state"), ("plane intersection length", FP+":trail_length_from_plane_intersection"),
   ("plane intersection length, numpy", FN+":trail_length_from_plane_intersection_numpy"), ("stored lengths", FP+":form_update, "+FN+":form_update")],
  observe_at="FormDiagram coordinates, edge force and length")

p("C03", "The two form-finding solvers compute the same form",
  "For every valid topology diagram on which both solvers finish, the pure and the numpy solver report the same node positions, edge forces, edge lengths and reactions after the same number of iterations. "
  "When they stop after a different number of iterations the difference is no larger than the convergence threshold explains.",
  ["inputs"], "all valid topology diagrams, lengths, planes, loads, deviation forces, all tmax and eta",
  "the tests run both solvers on the same few fixtures; agreement is claimed for every diagram and parameter value",
  [FP, FN], [("pure sweep", FP+":equilibrium_state"), ("numpy sweep", FN+":equilibrium_state_numpy")],
  observe_at="the two returned FormDiagrams")

p("C04", "A form is returned only if form-finding converged within tmax iterations",
  "Form-finding runs at least two iterations when allowed to and never more than tmax (100 unless given); it stops as soon as the movement of the nodes between two consecutive iterations is below eta (1e-6 unless given) and, when it ran more than one iteration, returns a form only if the movement of its last iteration is not above eta. "
  "If the last allowed iteration still moves the nodes by more than eta it raises a ValueError instead of returning a form. "
  "Diagrams without trails are refused, and the verbose flag changes nothing but the printed text.",
  ["inputs", "configurations"], "all topology diagrams (convergent, oscillating, divergent), all tmax >= 1, all eta, verbose on or off, both solvers",
  "convergence depends on the whole iteration history; tests only see quickly converging fixtures",
  [FP, FN], [("iteration loop, break and final check", FP+":equilibrium_state"), ("iteration loop, break and final check", FN+":equilibrium_state_numpy")],
  observe_at="returned form / raised error / number of callback calls")

p("C05", "Form-finding leaves the topology diagram untouched",
  "Computing a form never changes the topology diagram it is computed from, so that repeating the computation gives the identical form, and editing the form afterwards does not reach the topology. "
  "The form has exactly the same nodes, edges, supports, loads, edge kinds and sequences as the topology.",
  ["inputs", "histories"], "all topology diagrams, both solvers, repeated and interleaved calls",
  "aliasing between the two diagrams only shows after particular edit histories; tests never re-use a topology after form-finding",
  [FP, FN, FM], [("deep copy into a form", FM+":FormDiagram.from_topology_diagram"), ("writes go to the copy", FP+":form_update, "+FN+":form_update"), ("local state only", FP+":equilibrium_state, "+FN+":equilibrium_state_numpy")],
  observe_at="topology.data before and after")

p("C06", "Trails partition the nodes into origin-to-support paths",
  "When trail building succeeds, every node belongs to exactly one trail; every trail is a simple path over trail edges that starts at the origin node that names it and ends at a support; and the sequence number of each node is its position in its trail. "
  "Exactly the first nodes of the trails are marked as origins, and rebuilding after any edits gives the same result as building a fresh diagram with that content. "
  "If some node cannot be reached, or there are no trail edges or no supports, building raises an AssertionError.",
  ["inputs", "histories"], "all diagrams whose trail edges form disjoint paths ending at a support, in any node and edge insertion order and orientation, built and rebuilt in any order",
  "the traversal depends on adjacency order and edge orientation and on leftovers of earlier builds; tests build each fixture once",
  [TP], [("walk from every support", TP+":TopologyDiagram.build_trails"), ("trail access", TP+":TopologyDiagram.trail, trails, has_trails, origin_nodes")],
  state="attributes _trails, node attributes _k and type", observe_at="trails(), node_sequence(), origin_nodes()")

p("C07", "Auxiliary trails complete a diagram without disturbing it",
  "Building with auxiliary trails adds, for every node no trail reaches and for no other node, one new support placed at the auxiliary length along the normalised auxiliary direction from it, connected by one trail edge of that signed length; everything that was in the diagram stays as it was. "
  "Afterwards the auxiliary trails listed are exactly these two-node trails, also after building again.",
  ["inputs", "histories"], "all diagrams with any set of unreached nodes, any auxiliary length and direction, repeated builds",
  "tests add auxiliary trails once with the default length and direction",
  [TP], [("creation of auxiliary supports and edges", TP+":TopologyDiagram.build_trails"), ("registry", TP+":TopologyDiagram.auxiliary_trails, is_auxiliary_trail_edge, auxiliary_trail_edges")],
  observe_at="auxiliary_trails(), nodes, edges")

p("C08", "Sequences and the direct or indirect kind of deviation edges are consistent",
  "Shifting a trail renumbers exactly its own nodes consecutively from the requested sequence; the sequence listings and the trail-to-sequence maps always reflect these numbers, and the number of sequences is the largest one plus one. "
  "A deviation edge is direct exactly when both ends have the same sequence number and indirect otherwise, a trail edge is neither, and edge kinds incident to a node are found whatever the direction in which an edge was added.",
  ["inputs", "histories"], "all diagrams and all histories of building and shifting trails",
  "classification must be right for every combination of shifts, not only the built-in fixtures",
  [TP], [("shift", TP+":TopologyDiagram.shift_trail"), ("sequences", TP+":node_sequence, edge_sequence, sequences, number_of_sequences, sequence_last, trail_sequences, trails_sequences"), ("classification", TP+":is_direct_deviation_edge, is_indirect_deviation_edge, _connected_edges_predicate")],
  observe_at="sequence and deviation edge queries")

p("C09", "Nodes are found by position, and elements attach to exactly that node",
  "After any history of adding and moving nodes at positions that differ by more than the tolerance, looking up coordinates returns exactly the node now at that position and nothing at positions no node occupies (any more). "
  "Edges given by coordinates reuse the node found there and create a node only where there is none; supports and loads given by key or coordinates change exactly that node and are refused with an error when there is no node there.",
  ["inputs", "histories"], "all histories of node additions, moves, edges by key or by coordinates, supports and loads; all tolerances",
  "stale registrations only appear after particular histories of moves",
  [S+"diagrams/mixins/node_mixins.py", S+"diagrams/mixins/edge_mixins.py", TP],
  [("registry", S+"diagrams/mixins/node_mixins.py:NodeMixins"), ("edge assembly", S+"diagrams/mixins/edge_mixins.py:EdgeMixins.add_edge"), ("supports and loads", TP+":add_support, add_load")],
  state="attributes gkey_node", observe_at="node_key, node_exists, node and edge attributes")

p("C10", "Optimization variables, bounds and written attributes stay aligned",
  "After any history of adding and removing parameters, the variable vector, the lower and the upper bounds have one entry per remaining parameter in the order they were added: its current value in the diagram, that value minus, respectively plus, the absolute value of the given bound, or infinity when no bound was given. "
  "Writing a vector back sets exactly these attributes of the diagram, each to its own entry, and nothing else.",
  ["inputs", "histories"], "all histories of adding and removing parameters of every kind, all diagrams, bounds of any sign or none",
  "the optimization package has no tests; misalignment needs particular histories",
  [OP+"optimizer.py", OP+"parameters/parameter.py", OP+"parameters/node.py", OP+"parameters/edge.py", OP+"parameters/load.py", OP+"parameters/origin.py", OP+"parameters/trail.py", OP+"parameters/deviation.py"],
  [("variables", OP+"optimizer.py:optimization_parameters, optimization_bounds, _update_parameters"), ("parameters", OP+"parameters/parameter.py:Parameter.bound_low, bound_up, start_value"), ("histories", OP+"optimizer.py:add_parameter, remove_parameter")],
  observe_at="returned arrays and diagram attributes")

p("C11", "Constraint penalties are weighted squared deviations from the target",
  "Each constraint's penalty is its weight (one if none is given) times the squared Euclidean deviation of the current state from the target: distance of a node to a point, to an infinite line, to a plane or to the nearest point of a polyline, difference between the unit direction of an edge (from its first to its second node) and the target direction irrespective of its sense, of a reaction from a target vector, of a trail force or a deviation edge length from a target value. "
  "It is therefore never negative and is zero exactly when the target is met, and the total penalty is the sum over all constraints added and not removed.",
  ["inputs"], "all node positions, edges, forces, reactions, targets and weights >= 0 (targets non-degenerate)",
  "no tests exist for constraints; the claim is about all real values",
  [OP+"constraints/constraint.py", OP+"constraints/point.py", OP+"constraints/line.py", OP+"constraints/plane.py", OP+"constraints/polyline.py", OP+"constraints/direction.py", OP+"constraints/force.py", OP+"constraints/length.py", OP+"optimizer.py"],
  [("penalties", OP+"constraints/constraint.py:VectorConstraint.penalty, FloatConstraint.penalty"), ("references and targets", OP+"constraints/*.py"), ("sum", OP+"optimizer.py:_calculate_penalty")],
  observe_at="penalty values")

p("C12", "The gradient handed to the optimizer is the gradient of the penalty",
  "The finite-difference gradient has in every entry the forward difference quotient of the penalty in that variable alone with the given step, the automatic one the derivative of the same penalty function, and both are written into the array provided by the solver without changing the point at which they are taken; solving uses the one asked for, with the step asked for. "
  "The objective value returned is the penalty at exactly that point, whether or not a gradient is requested.",
  ["inputs"], "all variable vectors (any dimension), steps and differentiable penalty functions",
  "no tests exist for gradients; the claim is about every entry for every dimension",
  [OP+"grad.py", OP+"objective_func.py", OP+"optimizer.py"],
  [("finite differences", OP+"grad.py:grad_finite_differences"), ("automatic differentiation", OP+"grad.py:grad_autograd"), ("objective", OP+"objective_func.py:objective_function_numpy")],
  observe_at="gradient arrays and objective values")

p("C13", "Solving leaves topology, form and report consistent with the optimum",
  "When optimization ends normally, the topology diagram holds exactly the reported optimal variables, which respect the bounds computed from the starting values; the returned form is the equilibrium of that topology, and the reported penalty is the penalty of that form. "
  "Attributes that are not optimization parameters are left unchanged, whatever algorithm, gradient method and iteration limit are chosen, and a problem without parameters or without constraints is refused. Solving through solve_proxy does the same and returns the same report. The solver runs with the algorithm, iteration limit and tolerances asked for.",
  ["inputs", "configurations", "histories"], "all optimization problems, algorithms, gradient methods, limits, and sequences of evaluations the solver makes",
  "which evaluation comes last and which is best depends on the solver's history; the optimization package has no tests",
  [OP+"optimizer.py", OP+"nlopt.py", OP+"objective_func.py", OP+"proxy.py"],
  [("solve", OP+"optimizer.py:Optimizer.solve"), ("solver assembly", OP+"nlopt.py:nlopt_solver, nlopt_algorithm, nlopt_status"), ("wrapper", OP+"proxy.py:solve_proxy")],
  observe_at="topology attributes, x_opt, penalty, returned form")

p("C14", "Serialization round trips preserve diagrams, parameters and constraints",
  "Writing a topology diagram, form diagram, parameter or constraint to data or JSON and reading it back gives an object that behaves identically: same nodes, edges, attributes, trails under the same keys, node lookup, form-finding result, bounds, targets, weights and penalties. "
  "Copies are independent of the original.",
  ["inputs", "histories"], "all diagrams (with trails, auxiliary trails, planes, shifted sequences), all parameter and constraint kinds, keys, bounds and weights; any number of round trips",
  "no test serializes anything; keys and containers change type in JSON",
  [TP, DG, OP+"parameters/node.py", OP+"parameters/edge.py", OP+"constraints/constraint.py"],
  [("diagram data", TP+":TopologyDiagram.data"), ("parameter data", OP+"parameters/node.py:NodeParameter.data, "+OP+"parameters/edge.py:EdgeParameter.data"), ("constraint data", OP+"constraints/constraint.py:Constraint.data, FloatConstraint.data")],
  observe_at="restored objects")

p("C15", "Mesh import turns every mesh edge into the right kind of edge",
  "Importing a quad mesh keeps every vertex as a node with its key and position and marks exactly the given support vertices as supports. "
  "Along strips of edges, those that end at one support become trails, those with supports at both ends become two trails joined by one deviation edge at the middle (strips running along the supports are left out), all others become deviation edges. "
  "Trail edges get the given length, or their length in the mesh, signed by the requested state, and deviation edges the given force signed by theirs.",
  ["inputs"], "all meshes described by their strips of edges, all support sets, lengths, forces and states",
  "the importer has no tests at all",
  [S+"diagrams/topology/mesh_mixins.py"], [("import", S+"diagrams/topology/mesh_mixins.py:MeshMixins.from_dualquadmesh")],
  observe_at="the resulting topology diagram")

p("C16", "Partial form-finding stops at the requested sequence",
  "When a last sequence is requested, the positions and trail forces up to that sequence are those of the full computation of the same number of iterations restricted to it, the nodes of that sequence report the unbalanced trail force as reaction, and nodes and trail edges beyond it keep the positions and forces of the topology. "
  "A request at or beyond the last sequence changes nothing, and a negative one is refused.",
  ["inputs", "configurations"], "all valid topology diagrams and all requested sequences (none, zero, inner, last, beyond, negative)",
  "no test requests a partial computation",
  [FP], [("sequence limit", FP+":equilibrium_state")],
  observe_at="the returned form")

p("C17", "Collections, counters and filters describe the diagram's content",
  "The listed support, loaded and origin nodes, and trail, deviation, direct, indirect and auxiliary edges are exactly those whose current attributes say so, each listed once; every counter equals the length of its listing, and the per-node and per-edge predicates agree with the listings. "
  "Loads, reactions, forces, lengths and planes read back are the values last stored.",
  ["inputs", "histories"], "all diagrams reachable by any history of edits",
  "tests check the listings of a few fixtures only",
  [DG, TP], [("node listings", DG+":support_nodes, loaded_nodes, is_node_support, is_node_loaded, number_of_support_nodes, number_of_loaded_nodes"), ("edge listings", TP+":trail_edges, deviation_edges, direct_deviation_edges, indirect_deviation_edges, number_of_*"), ("attribute access", DG+":node_load, reaction_force, edge_force, edge_length_2, edge_plane, is_edge_supported")],
  observe_at="query results")

p("C18", "Drawings encode the force state of every edge and node",
  "A drawn form colours every edge by the sign of its force (compression, tension, or neutral at zero) and every support differently from other nodes; when a range of widths is given, edge widths interpolate linearly between the range ends from the smallest to the largest force magnitude among the drawn edges. "
  "A drawn topology colours nodes as support, origin or other and edges as auxiliary or by the sign of the length (trail edges, drawn solid) or force (deviation edges, drawn dashed) prescribed for them.",
  ["inputs"], "all form and topology diagrams, all selections of drawn nodes and edges with at least one edge",
  "drawing code has no tests",
  [S+"plotters/formartist.py", S+"plotters/topologyartist.py"], [("form drawing", S+"plotters/formartist.py:FormArtist.draw_edges, draw_nodes, edge_width"), ("topology drawing", S+"plotters/topologyartist.py:TopologyArtist")],
  observe_at="colours and widths passed to the base artist")

p("C19", "Loads and reactions of a form are drawn as arrows at their nodes",
  "Drawing the loads (reactions) of a form diagram draws exactly one arrow for every drawn node whose load (reaction) is at least as large as the tolerance and none for the others: the force vector times the scale, in the colour of its kind. "
  "It starts one node size away from the node in the direction of the force; the arrow of a reaction instead ends one node size before the node where the largest force among the edges at the node is compression.",
  ["inputs"], "all form diagrams in which every node has an edge and no two edges join the same nodes, all selections of drawn nodes, all scales and tolerances > 0",
  "drawing code has no tests",
  [S+"plotters/formartist.py"], [("arrows", S+"plotters/formartist.py:FormArtist.draw_loads, draw_reactions, _draw_forces")],
  observe_at="vectors and points passed to the plotter")

p("C20", "Grasshopper components do what the library calls they stand for do",
  "Each Grasshopper component hands its inputs unchanged to the library call it stands for and returns nothing when an input that call requires is missing. "
  "Constraints weigh 1, the iteration limit is 100 and its threshold 1e-6 when left empty. The assembled topology has exactly the given edges, loads and supports, with its trails built when it has trail edges and supports or auxiliary trails are asked for. "
  "Form finding, optimisation and the components that move origins or shift trails act on a copy and leave the diagram they were given as it was; a list of values shorter than the list of keys is continued with its last value. "
  "Disassembled diagrams and results list one item per requested key, in the order of the keys, or every key of the kind if none is requested. Diagrams are written to and read from the given JSON path.",
  ["inputs"], "all inputs to every component but those for colours and the RPC proxy, each present or missing",
  "the components run only inside Rhino and have no tests",
  [S+"ghpython/components"], [("components", S+"ghpython/components/*/code.py:RunScript")],
  observe_at="outputs of RunScript, calls into the library")

p("C21", "Grasshopper artists draw exactly the selected nodes, edges and forces",
  "In Grasshopper, the artists of topology and form diagrams draw exactly the selected nodes as points at their positions and the selected edges as lines between theirs, or all of them if none is selected. "
  "Support and origin nodes, trail and deviation edges are drawn exactly where the node or edge is of that kind, and nothing when none is; each trail is a polyline through its nodes in order. "
  "Loads and reactions of at least the minimum force are drawn as a line of the force times the scale, starting at the given gap from the node along the force; the line of a reaction instead ends at that gap before the node where the largest force among the edges at the node is compression.",
  ["inputs"], "all diagrams in which every node has an edge, all selections, positive scales and minimum forces, non-negative gaps",
  "the artists run only inside Rhino and have no tests",
  [S+"ghpython/artists.py", S+"ghpython/components"], [("artists", S+"ghpython/artists.py:DiagramArtist, FormArtist, TopologyArtist"), ("components", S+"ghpython/components/CompasCem_ArtistForm, CompasCem_ArtistTopology")],
  observe_at="geometry handed to the host")

p("C22", "Plotted drawings show exactly the layers, labels and marks asked for",
  "Drawing a form or topology artist first clears what it drew before and then draws, once each, exactly the layers switched on: nodes, edges, loads, reactions (forms only), node labels and edge labels. Labels are off and the rest on unless asked otherwise. "
  "The loads of a topology are drawn as a cross at every drawn loaded node, and at no other: two lines along the diagonals of the plan, through the node, that end one node size away from it. "
  "Label texts show the values of their own item: form edges their signed force and the distance between their nodes, topology edges the magnitudes of their force and length, their state (-1 or 1 by the sign that C18 colours) or type, all numbers with two decimals; nodes their coordinates, type or sequence, preceded by their key where the key is asked for. "
  "Topology edges coloured by type have the colour of auxiliary trails, trail edges, direct or indirect deviation edges; nodes coloured by sequence have the colour of their sequence in the range up to the last one.",
  ["inputs"], "all form and topology diagrams with at least one edge, all combinations of switches, set before or after the artist is made, all selections of drawn nodes, every text the artists offer; trails built where sequences are shown",
  "drawing code has no tests",
  [S+"plotters/formartist.py", S+"plotters/topologyartist.py"], [("layers", S+"plotters/formartist.py:FormArtist.draw; "+S+"plotters/topologyartist.py:TopologyArtist.draw"), ("crosses", S+"plotters/topologyartist.py:TopologyArtist.draw_loads"), ("labels", S+"plotters/formartist.py, "+S+"plotters/topologyartist.py:_node_textlabel, _edge_textlabel")],
  observe_at="layers drawn, lines passed to the plotter, node_text and edge_text, colours passed to the base artist")

p("C23", "The 3D viewer shows the state of forms and topologies as they are",
  "In the 3D viewer, every drawn node is a point at its position, coloured as support, origin (topologies) or other, and every drawn edge exactly one cylinder between its nodes, of its width: forms colour edges by the sign of their force, topologies as auxiliary, trail, direct or indirect deviation edges. A range of widths is interpolated as in C18. "
  "Loads (and the reactions of forms) of at least the tolerance are arrows of the force times the scale that start at their node; the arrow of a reaction ends there instead where the largest force among the edges at the node is compression. "
  "Labels stand at their node or at the middle of their edge and show the values of that item. Only layers switched on are drawn, and switching nodes or edges switches nothing else. A diagram added to the viewer gets the viewer and the options given.",
  ["inputs"], "all form and topology diagrams, all selections of nodes and edges with at least one edge, all switches and texts, positive scales and tolerances; reactions: every node has an edge and no two edges join the same nodes",
  "viewer code has no tests, and the viewer library is not installed with them",
  [S+"viewers"], [("drawing", S+"viewers/diagramobject.py:DiagramObject"), ("colours and groups", S+"viewers/formobject.py:FormDiagramObject; "+S+"viewers/topologyobject.py:TopologyDiagramObject"), ("viewer", S+"viewers/viewer.py:Viewer.add")],
  observe_at="what is handed to compas_view2 (viewer.add, pointcolors, linecolors, _points_data)")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
