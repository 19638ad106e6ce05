"""Writes properties.jsonl and MANIFEST.json.  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EQ = "src/compas_cem/equilibrium/force.py"
EN = "src/compas_cem/equilibrium/force_numpy.py"
TO = "src/compas_cem/diagrams/topology/topology.py"
DI = "src/compas_cem/diagrams/diagram.py"
NM = "src/compas_cem/diagrams/mixins/node_mixins.py"
EM = "src/compas_cem/diagrams/mixins/edge_mixins.py"
FO = "src/compas_cem/diagrams/form.py"
MM = "src/compas_cem/diagrams/topology/mesh_mixins.py"
OP = "src/compas_cem/optimization/optimizer.py"
NL = "src/compas_cem/optimization/nlopt.py"
GR = "src/compas_cem/optimization/grad.py"
OF = "src/compas_cem/optimization/objective_func.py"
PX = "src/compas_cem/optimization/proxy.py"
PA = "src/compas_cem/optimization/parameters/"
CO = "src/compas_cem/optimization/constraints/"
PL = "src/compas_cem/plotters/"

NUM = "The tests solve a few fixed structures with fixed numbers; the guarantee is over all real coordinates, loads, lengths and forces"
GRA = "The tests build a few fixed graphs; the guarantee is over every assignment of edge kinds, supports, orders and orientations"
OPT = "No test exercises the optimization package at all; the guarantee is over all real candidates and all histories of a problem"

P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=()):
    P.append((id, title, statement, over, text, why, files, mech, note, list(observe)))


prop("C01", "Every node of a returned form is in static equilibrium",
     "In every form diagram returned by either form-finding solver, the load at each node, the forces of the edges meeting there (positive in tension, along the final positions of the nodes) and, at supports, the reaction add up to zero. "
     "Deviation edges between different sequences may leave only what their directions changed in the last iteration.",
     ["inputs", "configurations"], "all node coordinates, loads, trail lengths (both signs) and deviation forces; all shapes of the listed families of trails and deviation edges, edge orientations and insertion orders, shifted trails",
     NUM + ".", [EQ, EN, TO],
     [("node equilibrium and propagation of the residual along each trail", EQ + ":equilibrium_state"), ("the same with arrays", EN + ":equilibrium_state_numpy"), ("which deviation edges take part when", TO + ":_connected_direct_deviation_edges")],
     "all real inputs within the listed topology families; floats modelled as reals", ["reaction_force, edge_force and coordinates of the form"])
prop("C02", "Forms keep the lengths, forces, origins and loads they were given",
     "In every returned form, trail edges without a plane have exactly the absolute length prescribed and a force with the sign of that length, deviation edges carry exactly the force prescribed, origin nodes stay at their input position, and loads and supports are the input ones. "
     "A trail edge that carries no force has no direction and is exempt.",
     ["inputs", "configurations"], "all real numeric data; both solvers; the listed topology families, including several iterations",
     NUM + ".", [EQ, EN, FO], [("next node position from length and direction", EQ + ":equilibrium_state"), ("copying of the input attributes", FO + ":from_topology_diagram")],
     "all real inputs within the listed topology families")
prop("C03", "Trail edges with a plane end on that plane",
     "When a trail edge has a plane, its end node lies on the plane, on the line of the force through its start node, and the force's sign says whether the edge runs with or against the residual force. "
     "When that line does not meet the plane, or only at the start node itself, or there is no force, the edge falls back to its prescribed length, and nothing becomes undefined.",
     ["inputs", "configurations"], "all positions, loads, lengths, plane points and normals; both solvers; one or two planes on one or two trails",
     "The tests check one plane in one position; parallel planes, planes behind the node and degenerate forces need all inputs.", [EQ, EN], [("line-plane intersection", EQ + ":trail_length_from_plane_intersection"), ("the same with arrays", EN + ":trail_length_from_plane_intersection_numpy")],
     "all real inputs within the listed families; a few arithmetic goals may stay inconclusive and are listed in the evidence")
prop("C04", "A form's attributes describe its own geometry",
     "In every returned form the stored length of each edge is the distance between its end nodes with the sign of its force, nodes that are not supports have no reaction, and nodes, edges, their kinds and the set of supports are those of the topology.",
     ["inputs", "configurations"], "all real numeric data; both solvers; the listed topology families", NUM + ".", [EQ, EN, FO, DI],
     [("writing results into the form", EQ + ":form_update"), ("the same with arrays", EN + ":form_update")], "all real inputs within the listed topology families")
prop("C05", "The plain and the numpy solver return the same form",
     "For the same topology and settings both form-finding solvers return forms with the same coordinates, forces, lengths and reactions, or both refuse.",
     ["inputs", "configurations"], "all real numeric data (including zero forces in the small families); the listed topology families, planes, up to 3 iterations",
     "The tests compare the solvers nowhere; each is checked on its own fixtures.", [EQ, EN], [("plain solver", EQ + ":static_equilibrium"), ("numpy solver", EN + ":static_equilibrium_numpy")], "all real inputs within the listed topology families")
prop("C06", "A form is returned only if it converged, and as soon as it did",
     "With several iterations allowed, form finding stops at the first iteration after the first that moved the nodes by less than the threshold in total, and returns that state; if no iteration did, it raises an error instead of returning a form. "
     "Structures without deviation edges between different sequences always converge, and neither verbosity nor a callback changes the result.",
     ["inputs", "configurations"], "all real numeric data and thresholds; 1 to 3 iterations (thorough: 4); both solvers", NUM + "; none checks the stopping rule.", [EQ, EN],
     [("stopping rule", EQ + ":equilibrium_state"), ("the same with arrays", EN + ":equilibrium_state_numpy")], "all real inputs and thresholds within the listed families and iteration bounds")
prop("C07", "Form finding leaves its input alone and is repeatable",
     "Calculating a form changes nothing in the topology diagram it is calculated from, running it again gives the same form, an edited topology gives the form a new one with the same data would, and the returned form shares no data with the topology or with other forms: overwriting one leaves the others as they were.",
     ["inputs", "histories"], "all real numeric data; sequences of two runs and an overwrite; both solvers", "The tests solve each fixture once and never look back at the input.", [EQ, EN, FO],
     [("independent copy", FO + ":from_topology_diagram"), ("state kept outside the diagram", EQ + ":equilibrium_state")], "all real inputs within the listed topology families and histories")
prop("C08", "Form finding can stop at a given sequence",
     "With a last sequence given, the plain solver places exactly the nodes up to that sequence as the full calculation would, keeps later nodes at their input positions without forces or reactions, and holds the nodes at the last sequence in balance by reactions; negative values are refused.",
     ["inputs", "configurations"], "every last sequence from negative to beyond the end; all real numeric data; equal-sequence deviation edges, shifted trails", "No test uses the option.", [EQ], [("kmax", EQ + ":equilibrium_state")], "all real inputs within the listed topology families")
prop("C10", "Trails follow the trail edges from origin to support",
     "For every well-formed topology, building trails yields exactly one trail per support, keyed by its origin node, listing its nodes in order from the origin to the support, with sequences counting up from zero; origins are exactly the trails' first nodes. "
     "Building again, also after the topology has grown, gives the trails of the topology as it then is.",
     ["inputs", "histories", "configurations"], "every assignment of edge kinds, supports, insertion orders and orientations on 3 to 5 (thorough: 6) nodes, then one change and a rebuild", GRA + ".", [TO],
     [("walk from supports to origins", TO + ":build_trails"), ("sequences", TO + ":node_sequence")], "all graphs up to the stated number of nodes")
prop("C11", "Malformed topologies are refused",
     "Building trails raises an error, and leaves no trails behind, whenever the trail edges are not disjoint paths that each end at exactly one support and cover every node, also when an earlier build of the same diagram had succeeded; form finding on it is then refused too. The supports stay as they were given, so the topology builds once repaired.",
     ["inputs", "configurations"], "every assignment of edge kinds and supports on 2 to 4 (thorough: 5) nodes, three orders and orientations, two attempts in a row", GRA + "; they try three malformed ones.", [TO], [("validity checks", TO + ":build_trails")], "all graphs up to the stated number of nodes")
prop("C12", "Auxiliary trails complete a topology, once",
     "With auxiliary trails requested, every node without a trail edge gets exactly one trail of its own: a new support node at the requested signed length along the requested direction and a trail edge of that length, while nothing else changes. "
     "Building again adds nothing and keeps the existing auxiliary trails known and as they are (another requested length or direction is for new ones only), and forgets those whose edge has been removed; without the request nothing is added.",
     ["inputs", "histories", "configurations"], "every assignment of edge kinds and supports on 2 to 4 nodes; all real coordinates, lengths and vectors; two builds in a row", GRA + ".", [TO], [("auxiliary trails", TO + ":build_trails"), ("registry", TO + ":auxiliary_trails")], "all graphs up to the stated number of nodes, all real data")
prop("C13", "Shifting trails moves sequences and reclassifies deviation edges",
     "Shifting a trail gives its nodes consecutive sequences from the given one and leaves all other trails alone. "
     "A deviation edge is direct exactly when both end nodes have the same sequence and indirect otherwise, and the lists, counts, connected edges and sequence iterators agree with that.",
     ["inputs", "histories", "configurations"], "arbitrary shifts of every trail, one or two in a row, then a rebuild; deviation edges between every pair of nodes of different trails", GRA + ".", [TO],
     [("shift", TO + ":shift_trail"), ("classification", TO + ":is_direct_deviation_edge"), ("sequences", TO + ":sequences")], "all shifts within the listed trail lengths")
prop("C15", "Looking up a location finds the node that is there now",
     "Looking a location up in a diagram finds the node currently there, to the diagram's tolerance, and nothing where there is no node, after any history of adding, moving and deleting nodes through the diagram (no two at one location); in a returned form, nodes are found at their equilibrated positions. Existence checks by key and by location agree with the nodes actually present.",
     ["inputs", "histories"], "up to 3 added nodes and 3 moves, re-additions or deletions at arbitrary coordinates (those rounding to zero from either side included), three tolerances, lookups at all current, former and other locations", "No test moves a node or looks one up after a change.", [NM, EQ, EN],
     [("location index", NM + ":add_node"), ("moving", NM + ":update_node_xyz"), ("lookup", NM + ":node_key")], "all coordinates and histories within the bounds; equality of locations is equality of fixed-decimal strings")
prop("C16", "Edges, supports and loads attach exactly where they are meant to",
     "Adding an edge given by node keys or by end points connects the nodes at those points, creating nodes only where there are none, with the edge's own length, force and plane. "
     "A support or load given by key or by location changes exactly the node meant, a later load replaces the earlier one, and one given for a location without a node is refused and changes nothing.",
     ["inputs", "histories"], "diagrams of up to 4 nodes assembled from lines or nodes at arbitrary coordinates; supports and loads at any node or elsewhere", "The tests attach by key at fixed integers.", [EM, NM, TO],
     [("edges", EM + ":add_edge"), ("supports", TO + ":add_support"), ("loads", TO + ":add_load")], "all coordinates within the bounds")
prop("C17", "Quad meshes become topologies by where their polyedges are supported",
     "Converting a quad mesh keeps its vertices and supports; a polyedge with one supported end becomes a chain of trail edges, one without supported ends becomes deviation edges, one supported at both ends becomes two chains joined by one deviation edge in the middle, and one lying along the supports is dropped. "
     "Trail edges have the requested length (or that of the mesh) and deviation edges the requested force, each with the requested sign.",
     ["inputs", "configurations"], "single polyedges and grids, every choice of supports at the candidate vertices, both states, all real coordinates, lengths and forces", "No test covers the conversion.", [MM], [("conversion", MM + ":from_dualquadmesh")], "all choices within the listed meshes")
prop("C18", "Filters, iterators and counters agree with the diagram's content",
     "Every edge is either a trail or a deviation edge as it was added; the iterators (with or without data), counts, per-node connected edges, support and load filters and node counts of a diagram list exactly the matching elements, and a node is loaded exactly when its load is larger than the threshold.",
     ["inputs", "configurations"], "all diagrams on 3 (thorough: 4) nodes, all loads and thresholds", GRA + ".", [TO, DI], [("edge filters", TO + ":trail_edges"), ("node filters", DI + ":loaded_nodes")], "all graphs up to the stated number of nodes")
prop("C20", "Penalties are weighted squared distances to the target",
     "The penalty of a constraint on a form is its weight (one unless given) times the squared distance between the form and the target: node to point, line, plane or the nearest point of a polyline, reaction to vector, edge length or edge force to number, and edge direction to the nearer of the two unit directions along the target vector.",
     ["inputs", "configurations"], "all eight constraint kinds; all real forms, targets and weights; polylines of up to 3 segments with fixed vertices", OPT + ".", [CO + f for f in ("constraint.py", "point.py", "line.py", "plane.py", "polyline.py", "force.py", "length.py", "direction.py")],
     [("penalty", CO + "constraint.py:VectorConstraint.penalty"), ("scalar penalty", CO + "constraint.py:FloatConstraint.penalty")], "all real inputs for the listed kinds")
prop("C21", "The objective is the sum of all penalties at the candidate's parameters",
     "Whenever the numerical optimizer asks for the objective at a candidate, it gets the sum of the penalties of the constraints currently in the problem, on the form of the topology with exactly the current parameters set to the candidate's values in the order they were added. "
     "Earlier candidates and removed parameters or constraints have no influence.",
     ["inputs", "histories"], "all real candidates, two in a row; up to 2 removals and 2 additions of parameters and constraints before solving", OPT + ".", [OP, OF], [("objective", OP + ":_optimize_form"), ("parameters into topology", OP + ":_update_parameters"), ("sum", OP + ":_calculate_penalty")], "all real candidates within the listed problems", ["function passed to nlopt's set_min_objective"])
prop("C22", "A search starts from the topology and respects its bounds and limits",
     "A search starts at the parameters' current values in the topology, in the order they were added, and is bounded to the interval from the start value minus the absolute lower bound to the start value plus the absolute upper bound, unbounded where a bound is missing; a later solve starts from the values then current. "
     "It uses the algorithm, iteration limit and thresholds requested. Problems without parameters or constraints, and unknown algorithms or gradient methods, are errors that leave the topology alone.",
     ["inputs", "histories", "configurations"], "all eight parameter kinds with every combination of missing, zero, positive and negative bounds; all six algorithms; up to two solves in a row with edits between", OPT + ".", [OP, NL, PA + "parameter.py", PA + "node.py", PA + "edge.py"],
     [("start values", OP + ":optimization_parameters"), ("bounds", PA + "parameter.py:Parameter"), ("solver setup", NL + ":nlopt_solver")], "all real values within the listed problems", ["start vector, bounds and settings passed to nlopt"])
prop("C23", "After a solve, form, topology and report all belong to the optimum",
     "After a solve the topology holds the optimum the search returned, with every other attribute unchanged, and the returned form is the form of that topology under the same iteration limit and threshold, whatever was evaluated last. "
     "The reported parameters, penalty, number of evaluations, status, gradient and gradient norm belong to that optimum too, also through the proxy function. A search halted by roundoff or a runtime error still returns the form of the topology as it was left.",
     ["inputs", "histories", "fault_sequences"], "all real candidates and optima; any candidate, the last, an earlier or a new one returned; all endings of the numerical optimizer", OPT + ".", [OP, PX, NL], [("end of solve", OP + ":solve"), ("status", NL + ":nlopt_status"), ("proxy", PX + ":solve_proxy")], "all real values within the listed problems")
prop("C24", "The gradient is the gradient of the objective",
     "Whenever the numerical optimizer asks for a gradient, automatic differentiation gives exactly the partial derivatives of the objective at that candidate, for every kind of parameter and constraint, and finite differences give exactly the forward difference quotients with the requested step. "
     "Neither changes the candidate or the value of the objective.",
     ["inputs", "histories"], "all real candidates and step sizes; every parameter kind with seven constraint kinds; planes and deviation edges between different sequences", OPT + ".", [GR, OF, OP, EN] + [CO + "direction.py", CO + "polyline.py"],
     [("automatic differentiation", GR + ":grad_autograd"), ("finite differences", GR + ":grad_finite_differences"), ("differentiable form finding", EN + ":equilibrium_state_numpy")], "all real candidates within the listed problems, where the objective is differentiable", ["gradient buffer handed over by nlopt"])
prop("C25", "Copies and JSON round trips lose nothing and share nothing",
     "A copy of a diagram, or one sent through JSON, has the same nodes, edges, attributes, planes, trails, auxiliary trails, sequences and locations, gives the same form, and can be edited and rebuilt without affecting the original. "
     "Optimization parameters and constraints come back with the same key, bounds, weight and penalty.",
     ["inputs", "histories"], "all real data; one or two copies or round trips in a row, then a change; all parameter and constraint kinds", "The tests never serialise or copy anything.", [DI, TO, FO, PA + "node.py", PA + "edge.py", CO + "constraint.py"],
     [("restoring trails", TO + ":data"), ("parameter data", PA + "edge.py:EdgeParameter.data"), ("constraint data", CO + "constraint.py:Constraint.data")], "all real data within the listed families; JSON modelled by its data model, real json in replays")

prop("C26", "Plots show what the diagram holds",
     "A plot of a form diagram draws every selected node once at its position, supports in their own colour; every selected edge once between its end nodes, coloured by tension, compression or no force, with a given width or one that grows linearly with the magnitude of its force between the two given widths; "
     "and each load and reaction of a drawn node that is not smaller than the given tolerance as exactly one arrow: the force vector times the given scale, on its line of action, the size of the node away from it. Load arrows leave the node; reaction arrows leave it too, unless the edge with the largest force at the node is in compression: then they point at it. "
     "A plot of a topology diagram colours edges by state (sign of trail length or deviation force) or by type (trail, direct and indirect deviation, auxiliary trail), dashes deviation edges, colours nodes by type or sequence, and marks exactly the loaded drawn nodes with a diagonal cross. "
     "Text labels show the key, coordinates, type, sequence, force, length or state asked for, of the node or edge they are placed at, with two decimals.",
     ["inputs"], "all real coordinates, forces, lengths, loads, reactions, scales, widths and tolerances; every selection of nodes and edges; all label and colour options", "No test draws anything.", [PL + "formartist.py", PL + "topologyartist.py", PL + "register.py"],
     [("edge widths", PL + "formartist.py:FormArtist.edge_width"), ("arrows", PL + "formartist.py:FormArtist._draw_forces"), ("side of the reactions", PL + "formartist.py:FormArtist.draw_reactions"), ("edge colours", PL + "topologyartist.py:TopologyArtist.draw_edges"), ("crosses", PL + "topologyartist.py:TopologyArtist.draw_loads")],
     "all real data within the listed families; the plotter and matplotlib's collections are recording stand-ins", ["what the artists hand to the plotter and to matplotlib"])

NOT_APPLICABLE = []
EXTRA = os.path.join(HERE, "tools", "extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for id, title, st, over, text, why, files, mech, note, obs in P:
        assert len(title) <= 80, title
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": obs, "hook_needed": None}}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{"property": p[0], "quick_cmd": "./check.sh %s quick" % p[0], "thorough_cmd": "./check.sh %s thorough" % p[0],
                "technique": "symbolic execution of the real Python functions over real-valued and discrete symbolic inputs; path conditions and goals decided by z3 (nonlinear real arithmetic after an exact normal form); counterexamples replayed on the unpatched code",
                "level": "model_checking", "level_note": p[8]} for p in P],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks in /repo: the symbolic values are ordinary Python objects, and math/numpy/autograd boundaries are replaced in the checking process only. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
