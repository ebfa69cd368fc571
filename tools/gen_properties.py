#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, in a readable form)."""
import json, os
R = "framework_python/rei/"
CI = R + "foundations/conceptual_item.py"
AI = R + "foundations/abstract_items.py"
CK = R + "foundations/clock.py"
BE = R + "hypergraph/base_elements.py"
VN = R + "hypergraph/value_node.py"
HT = R + "foundations/hierarchical_traversal_strategies.py"
GT = R + "foundations/hypergraph_traversal_strategies.py"
SE = R + "foundations/query/search_elements.py"
QE = R + "query/query_engine.py"
FO = R + "hypergraph/factorization_operations.py"
HO = R + "hypergraph/homomorphism_functions.py"
FF = R + "factories/foundation_factory.py"
AF = R + "factories/abstract_factory.py"
ID = R + "foundations/identification/identity_generator.py"
TR = R + "tensor/tensor_representation.py"
GI = R + "hypergraph/encoding/graph_tensor_icon.py"
CB = R + "hypergraph/encoding/graph_tensor_icon_cbor.py"
SG = R + "format/phys/solid_geometry_context.py"
IN = R + "format/phys/inertia_context.py"
KI = R + "format/phys/kinematics/kinematic_semantic_context.py"
SDF = R + "format/mapping/cognilang_sdf_icon.py"
FI = R + "format/mapping/cognilang_file_icon.py"
MU = R + "format/mapping/cognilang_map_utility.py"
SF = R + "format/semantics/cognitive_entity_semantic_factory.py"
CE = R + "format/semantics/CognitiveEntity.py"
CD = R + "hypergraph/common_definitions.py"
AR = R + "hypergraph/representation/abstract_representations.py"
G4 = "framework/cognitive/speclanguage/src/main/antlr4/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": observe, "hook_needed": None}})

STATE_CH = [("children map", "identifier -> child", CI), ("name index", "name -> identifier -> child", CI),
            ("child count", "number of current children", CI), ("parent link", "the container an element is in", CI)]

p("P01", "All views of a container's children always agree",
  "After any sequence of adding, moving and removing elements, an element's list of children, its child count and its lookup by name describe exactly the same set of elements, and each of them names that element as its parent. An element is never listed under two parents: one that moves to another container disappears from every view of the former one.",
  ["histories", "inputs"], "every history of additions, moves and removals on every kind of container, each removal consumed fully or partly",
  "The tests make a handful of additions and removals on plain items; edges, relations, moves between containers of different kinds and partly read removals are not reached.",
  [CI, BE], [("add", CI + ": HierarchicalElement.add_element"), ("remove", CI + ": HierarchicalElement.remove_element"),
   ("overrides", BE + ": HypergraphEdge/HypergraphRelation add_element, remove_element")],
  ["get_subelements", "cnt_subelements", "get_element_by_id_name", "parent"], STATE_CH)
p("P02", "Removal detaches and hands back exactly the requested children",
  "Removing from any container by identifier, by name, or by both hands back every child that matches the request, each once, and detaches it so that it has no parent; children that do not match stay. De-registering an element from its parent and disconnecting an endpoint remove exactly that element or port. A request that names neither an identifier nor a name is rejected as an invalid query.",
  ["inputs", "histories"], "every request form, every container kind, every set of children including several of the same name",
  "Tests remove from plain items only; the overriding containers, de-registration and disconnection are not checked for what they hand back.",
  [CI, BE], [("remove", CI + ": HierarchicalElement.remove_element"), ("edge", BE + ": HypergraphEdge.remove_element"),
   ("relation", BE + ": HypergraphRelation.remove_element"), ("deregister/disconnect", BE + ": HypergraphElement")],
  ["values handed back by a removal", "parent of a removed element"], STATE_CH)
p("P03", "A rejected operation changes nothing",
  "Adding an element to itself, to one of its own descendants, or to a container that already holds its identifier is rejected with the matching error, and removing an identifier that is absent or connecting nodes with a wrong number of values is rejected too. Whenever such an operation is rejected, no children, name lookup, count, parent link, position, edge or port has changed.",
  ["inputs", "histories", "fault_sequences"], "every rejected call in every reachable hierarchy",
  "Tests assert that an error is raised for two of these cases; none compares the whole state before and after, and cycles longer than one step are not tried.",
  [CI, BE, FF], [("guards before effects", CI + ": HierarchicalElement.add_element"), ("lookups before effects", CI + ": HierarchicalElement.remove_element"),
   ("value count", FF + ": connect_nodes, connect_2factor_edges"), ("connection order", BE + ": HypergraphEdge.unary_connect, HypergraphElement.connect")],
  ["raised error", "children, count, lookup, parent, position after the error"], STATE_CH)
p("P04", "Qualified names and depths follow an element's position",
  "The qualified name of an element is the names from its topmost ancestor down to itself joined by slashes, and its depth is the number of its ancestors. Attaching, moving or detaching an element brings the names and depths of that element and of everything below it up to date before the operation ends.",
  ["histories", "inputs"], "every attach, move and detach of every subtree, of any element kind",
  "Tests check names after attaching leaf nodes; subtrees, detaching and depth are hardly reached.",
  [CI, AI, BE], [("name recomputation", CI + ": update, update_qualified_name"), ("subtree update", CI + ": HierarchicalElement add/remove")],
  ["qualified_name", "depth"])
p("P05", "Positions of children grow and are never reused",
  "A container gives every element it takes in a position number: the first gets 0 and each later one gets exactly one more than the last number given out, whatever was removed in between. Removing children never lowers the next number.",
  ["histories"], "every interleaving of additions and removals",
  "Two tests look at the first few positions; long histories with removals and moves are not reached.",
  [CI], [("historical counter", CI + ": HierarchicalElement.add_element, remove_element")], ["cid"],
  [("historical counter", "number of children ever added", CI)])
p("P06", "Timestamps are taken from the element's own clock",
  "A clocked element reads its timestamp from its own clock when it is created and again on every update, and creating or updating it without a clock is rejected. Attaching, moving or detaching an element refreshes it and everything below it. A clock reports nanoseconds and seconds of the same time source, and the dummy clock always reports zero.",
  ["histories", "inputs"], "every element, clock and update",
  "Tests run almost everything on a dummy clock that always returns zero, so a stale or foreign timestamp cannot be seen.",
  [CI, CK], [("timestamp refresh", CI + ": ConceptualItem.update, _update_timestamp"), ("clocks", CK)], ["timestamp", "clock", "get_time_ns", "get_time_sec"])
p("P07", "Lookup by name or path finds all matches and only those",
  "Looking up a single name yields exactly the current children that carry it; looking up a slash-separated path yields exactly the elements reached by following the names level by level through every child that matches. It works on whatever kind of element lies on the way, and a name or path without a match yields nothing and raises no error.",
  ["inputs", "histories"], "every name, every path and every hierarchy, with repeated names at any level",
  "Tests look up existing unique names at depth one and two.",
  [CI], [("lookup", CI + ": get_element_by_id_name")], ["get_element_by_id_name"], STATE_CH[1:2])
p("P08", "Bulk addition and removal equal the single operation on each item",
  "When awaited, adding or removing a collection of elements has the effect of applying the single operation to every item of the collection, in order and exactly once. Nothing of it is left to run later.",
  ["inputs", "schedules"], "every collection and every event-loop schedule",
  "The only bulk tests fail or never await the operation.",
  [CI], [("bulk operations", CI + ": ConceptualItem.add_elements, remove_elements")], ["cnt_subelements", "get_subelements after the await"])
p("P09", "Connecting makes one relation and one port; disconnecting removes the port",
  "Connecting an endpoint to an edge adds exactly one relation to the edge, carrying the given endpoint, weight, direction and semantic value, and exactly one port to the endpoint that points back to that relation. A semantic value given with the connection becomes part of the relation. An unstated direction is bidirectional. Disconnecting an element from a relation removes the port of that relation and nothing else; removing the endpoint itself from the relation clears the endpoint, removing another part does not.",
  ["inputs", "histories"], "every endpoint, weight, direction and semantic value, connected and disconnected in any order",
  "Tests connect with defaults and read endpoints; ports and disconnection are not observed.",
  [BE], [("unary_connect", BE + ": HypergraphEdge.unary_connect"), ("connect/disconnect", BE + ": HypergraphElement.connect, disconnect"),
   ("relation", BE + ": HypergraphRelation")], ["sub_relations", "sub_ports", "endpoint", "weight", "direction"])
p("P10", "A direction means the same everywhere",
  "An inward relation counts only as incoming, an outward one only as outgoing and a bidirectional one as both. The incoming and outgoing relations of an edge, the incidence value of a relation, the default weights of a traversal, factorisation of relations, and the arrows of the textual notation in both ways of translation all follow this reading.",
  ["inputs", "configurations"], "each direction at each place that interprets it",
  "Tests read directions at some of these places; nothing forces the places to agree.",
  [BE, GT, FO, MU, HT, CD], [("incidence", BE + ": HypergraphRelation"), ("in/out queries", BE + ": HypergraphEdge"), ("default weights", GT + ": HypergraphTraversal"),
   ("pairing", FO + ": RelationFactorization2SubsetOperation"), ("notation", MU + ": dir_enum_relation; " + HT + ": direction_to_text")],
  ["get_incoming_relations", "get_outgoing_relations", "relation_incidence_value", "dir_enum_relation", "direction_to_text"])
p("P11", "Edges built from node lists connect every node as requested",
  "Building an edge from nodes creates one edge in the given container and connects every given node exactly once, in the given order, with the direction meant for it and with its own value. In an edge with an incoming and an outgoing list, incoming nodes get the first direction and the first values, outgoing nodes the second direction and the remaining values. A number of values different from the number of nodes is rejected.",
  ["inputs"], "every node list, value list and direction pair",
  "Tests build edges without values and with equal directions.",
  [FF], [("builders", FF + ": create_hyperedge, connect_nodes, connect_2factor_edges, connect_dir_edges, connect_tuple_nodes"), ("value nodes", FF + ": create_value")],
  ["sub_relations of the edge", "direction", "weight", "raised error"])
p("P12", "No element becomes reachable before it is complete",
  "An element constructed with a parent has all of its own state in place before it can be reached through that parent. No code that the attachment runs can meet a half-built element.",
  ["inputs", "histories"], "every element class and every kind of parent",
  "Tests construct elements under plain nodes, where an incomplete element goes unnoticed.",
  [CI, BE, VN, QE], [("constructors", CI + ": ConceptualItem; " + BE + "; " + QE)], ["state seen by the parent's add operation"])
p("P13", "Identifiers depend on exactly who, where and when",
  "A generated identifier is a hash of the generating context, the container's path, the element's name and the clock time, and of nothing else: equal inputs always give the same identifier. Elements of different containers, names or generating contexts never get the same hash input, and relations or ports of different endpoints differ as well. An element carries the identifier generated for it, or the one it was given.",
  ["inputs", "histories"], "every pair of generated elements",
  "Tests compare the identifiers of a few nodes of one container.",
  [ID, AF, FF, BE, SF], [("hash", ID + ": Sha3UniqueIdentifierGenerator.generate_uid"), ("naming", AF + ": AbstractElementFactory"), ("call sites", FF + "; " + SF + "; " + BE)],
  ["uuid"])
p("P14", "Hierarchy traversal visits each eligible element once, in order",
  "A hierarchy traversal visits every element that can be reached from the start through accepted children exactly once, never one that is rejected and never one deeper than its depth limit; the start is visited first if it is accepted and not to be ignored. Breadth-first variants visit level by level in the order of the children, depth-first variants finish a branch before the next.",
  ["inputs", "configurations"], "every hierarchy, filter, depth limit and root option",
  "Tests traverse a few small trees with a filter that accepts everything.",
  [HT], [("algorithm", HT + ": HierarchicalTraversal"), ("variants", HT + ": four traversal classes")], ["sequence of visitor calls"])
p("P15", "Runs and instances never influence each other",
  "The outcome of running a traversal, search, query, factorisation, index or tensor construction depends only on its arguments, its configuration and the current graph. No work queue, result list, table or cache is shared between two instances, or carried over from one run into the result of the next.",
  ["histories", "schedules"], "every sequence of runs in one process, on the same or different objects",
  "Tests mostly run each operation once in a fresh state, and one even depends on what earlier tests left in a shared queue.",
  [HT, GT, SE, QE, FO, HO, TR], [("run-local queues and results", HT + "; " + GT + "; " + SE + "; " + FO), ("reset", HO + ": reset_homology")],
  ["results of repeated runs"])
p("P16", "The number of elements never exhausts the call stack",
  "Traversals, searches, queries and factorisations process graphs with any number of elements: the call depth they need does not grow with the number of elements they visit.",
  ["inputs"], "graphs of every size",
  "Test graphs have a few dozen elements; the stack limit is reached at about a thousand.",
  [HT, GT, SE, FO], [("work loops", HT + ": _traverse; " + GT + ": _traverse; " + SE + ": _traverse; " + FO + ": Factorization2Operation")], ["RecursionError"])
p("P17", "Following relations terminates on cyclic graphs",
  "Operations that follow relations from edges to their endpoints, or containment both up and down, end on every finite graph, including ones in which an endpoint leads back to where the walk came from. Each element is processed at most once in a run, and everything that is reachable within the depth limit is processed.",
  ["inputs"], "every finite graph, cyclic or not, and every depth limit",
  "Test graphs are acyclic or traversed to depth one.",
  [GT, FO, SE], [("visited elements", GT + ": HypergraphTraversal._traverse; " + FO + ": Factorization2Operation; " + SE + ": QuerySearchElement")], ["termination", "visitor calls"])
p("P18", "A search finds the named element exactly when it is there",
  "A search for a qualified name yields the element that currently has that name, if it lies at or below the start (or, for the search in both directions, anywhere in the hierarchy of the start), and yields nothing otherwise. A repeated or re-targeted search answers anew for the current hierarchy.",
  ["inputs", "histories"], "every hierarchy, start and name, before and after any change",
  "Tests search for names in two small hierarchies; some only succeed thanks to elements left over from earlier tests.",
  [SE], [("search", SE + ": GraphQuery.execute, QuerySearchSubElement, QuerySearchElement")], ["query_result"])
p("P19", "The query engine returns exactly the matches of every query",
  "Executing the query engine returns, for each registered query and in the order of registration, exactly the elements that its traversal reaches and its condition accepts, each once. This holds for no queries, for queries without matches, for repeated execution, and after clearing; the synchronous and asynchronous forms return the same.",
  ["inputs", "histories"], "every set of queries and every number of executions",
  "The tests of the query engine cannot be imported here, so nothing exercises it.",
  [QE], [("engine", QE + ": HypergraphQueryEngine"), ("query", QE + ": HierarchicalPrepositionQuery")], ["execute", "execute_all_queries"])
p("P20", "Factorisation pairs every incoming with every outgoing relation",
  "Factorising a selection yields, for every edge, each pair of an incoming and an outgoing relation whose endpoints (or which themselves) are selected, exactly once and incoming first; pairs whose two endpoints are the same are left out unless self loops were asked for. An edge with relations on one side only contributes nothing and is no error.",
  ["inputs"], "every selection of nodes, edges and relations",
  "Tests factorise two fixed graphs with bidirectional relations.",
  [FO], [("pairing", FO + ": Factorization2Operation, Factorization2SubsetOperation, RelationFactorization2SubsetOperation")], ["list of pairs"])
p("P21", "Indices of nodes, edges and values are contiguous and invertible",
  "Building an index numbers the visited nodes, edges and values each from 0 without gaps in the order of visiting, and mapping an identifier to its number and back returns the identifier. The counts equal the number of entries, building again starts over, and an index set up from given pairs holds exactly these pairs.",
  ["inputs", "histories"], "every graph and every sequence of builds",
  "Tests read some indices of three small graphs once.",
  [HO], [("index maps", HO + ": IndexHomomorphismGraphTensor")], ["node/dim", "edge/depth", "val/ival", "cnt_node", "cnt_edges"])
p("P22", "Dense and coordinate tensors agree on orientation and size",
  "For every weighted connection the weight tensor is addressed by edge, source and target, the outgoing incidence by edge and source, and the incoming incidence by edge and target, in the dense and in the coordinate form alike. An inward relation makes its endpoint the source and an outward one makes it the target of the connections to all other endpoints of the edge. Dense tensors have one slot per indexed edge and node.",
  ["inputs"], "every graph, weight and direction",
  "Tests compare tensors of symmetric or tiny graphs, where source and target can be exchanged unnoticed; the coordinate form is only counted.",
  [TR, GI, GT], [("dense", TR + ": NumpyTensorRepresentation.fill_tensors, synchronize_structure_dimensions"), ("coordinate", GI + ": CoordinateObjectTransformer.fill_tensors, execute"), ("tuples", GT + ": HypergraphTraversal")],
  ["W, Io, Ii", "msg_tensor_value_updates"])
p("P23", "Zero entries contribute zero to every entropy",
  "In each entropy of a graph, a zero on the diagonal or a zero eigenvalue contributes exactly zero and never turns the result into NaN or infinity. Each scalar entropy is the sum of its vector of contributions -x log2 x.",
  ["inputs"], "every spectrum or diagonal that contains zeros",
  "One test compares one entropy of one graph; a Laplacian always has a zero eigenvalue up to rounding, which hides the fault.",
  [TR], [("entropy", TR + ": entropy_vector, entropy_projected_vector, entropy, entropy_projected")], ["entropy", "entropy_projected"])
p("P24", "Encoder and decoder agree on every field of a message",
  "The decoder of a graph message reads each section and each field from the place where the encoder wrote it and uses it for the same purpose: identifier, name, index, parent, qualified name, direction, endpoint and values. Every field kind that was converted for transport is converted back, and decoding links parents before children, edges before their relations, and relations to both their edge and their endpoint.",
  ["inputs", "programs"], "every message of every graph, and every pair of writer and reader tables",
  "Tests decode two small graphs of bidirectional relations and read some of the fields.",
  [GI, CB], [("writer", GI + ": node/edge/relation/value tuples; " + CB + ": full_msg, msg_value_update"), ("reader", CB + ": create_graph, from_msg_update_values")], ["decoded graph", "decoded index"])
p("P25", "Encoding again describes the current graph, not an earlier one",
  "Every message an encoder emits describes the context and the state of the graph given to its last update, completely and once; nothing from an earlier message, context or run is repeated in it or left out of it.",
  ["histories"], "every sequence of context updates, tensor updates and messages on one encoder",
  "Tests emit one full message per encoder.",
  [GI, CB], [("message buffers", GI + ": CoordinateObjectTransformer"), ("context", CB + ": GraphTensorCbor.update_context, update_coo, full_msg")], ["content of successive messages"])
p("P26", "A value node owns its values and knows their number",
  "A value node keeps its own copy of the values it is built with or updated with, and reading them out as a list gives a copy. Its dimension always equals the number of its values, and iterating yields each of them in order; writing one value changes that value only. A semantic value keeps its own copy of its attributes and gives nothing, rather than an error, for an attribute it lacks.",
  ["inputs", "histories"], "every list of values and every sequence of updates",
  "Tests read and write single elements; replacing values, dimension and aliasing are not observed.",
  [VN, CE], [("values", VN + ": ValueNode"), ("attributes", VN + ": SemanticValueNode")], ["dim", "get_values", "iteration", "item access"])
p("P27", "Exported shape and exported inertia describe the same solid",
  "Geometry values mean the same to the exported shape and to the exported inertia: radius before length for a cylinder, radii in x, y, z order for an ellipsoid, a single value meaning a sphere. The exported moments are those of a homogeneous solid of the given mass: m(3r^2+l^2)/12 across and m r^2/2 along a cylinder, m(b^2+c^2)/5 and its permutations for an ellipsoid, 2mr^2/5 for a sphere, written in the order xx, yy, zz, xy, xz, yz.",
  ["inputs"], "every mass and every list of geometry values",
  "No test exports inertia.",
  [IN, SG], [("inertia", IN + ": calc_cylinder_inertia, calc_ellipsoid_inertia, encode_inertia_element"), ("shape", SG + ": encode_typegeometry_element")], ["inertia and geometry elements of the SDF"])
p("P28", "Exported joints state parent, child, type, axis and pose as modelled",
  "An exported joint has the endpoint of the incoming relation as parent and the endpoint of the outgoing relation as child, the type that belongs to its notation (fix, rev, tr) and the axis of the joint, or z if it has none. Poses give translation before rotation, and rotation in radians: degrees are converted exactly once and radians not at all.",
  ["inputs"], "every joint type, axis, pose and rotation unit",
  "No test exports joints.",
  [KI, SDF, FI], [("joint", KI + ": joint_base_element_endpoint, __encode_joint_type"), ("pose", KI + ": extract_rigid_transformation_element; " + FI + ": rigid transformation")], ["joint and pose elements of the SDF"])
p("P29", "Export covers every geometry and material and never fails on a legal link",
  "For every link the export emits one visual per visual geometry and one collision per collision geometry, own or referenced, each with its shape, and each visual with the material of its own node. It does not fail on a geometry without an SDF form, on a link without joint, or on a link outside a kinematic graph. Every geometry type that can be modelled is handled by shape export.",
  ["inputs"], "every set of visual and collision nodes, references, materials and connections",
  "No test exports a link.",
  [SG, KI, CE], [("geometry export", SG), ("frame lookup", KI + ": encode_link_element, get_parent_kinematic_graph")], ["visual, collision and link elements of the SDF"])
p("P30", "The language reader turns each sentence into the model it describes",
  "The reader handles only rules the grammar has, reads only parts the rule has, and fails on no sentence of the grammar whose references are defined. For every sentence the graph contains each entity, ambient element, kinematic graph, link and joint at its place under its name; each visual and collision holds the geometry of its kind with its numbers in order, or is connected with the node it refers to; referenced parameters stand for their values; poses keep translation, rotation and unit (radians unless marked as degrees); each end of a joint has its own endpoint, direction, type, axis and pose, with rotation converted to radians exactly once; masses and materials are those of the sentence. Joint types that the grammar distinguishes are exported as different types.",
  ["programs", "inputs"], "every sentence of the grammar",
  "The parser is generated at build time and absent here, so no test reads a model.",
  [FI, MU, KI, SF, G4 + "CogniLang.g4", G4 + "GeometryElements.g4", G4 + "HypergraphBasicElements.g4", G4 + "AmbientGraph.g4"],
  [("handlers", FI + ": CognilangParserFileIcon"), ("tables", MU + "; " + KI + "; " + SF), ("grammar", G4)], ["graph below root_entity", "handler methods and grammar rules"])
p("P31", "The library stands on its own and calls only what exists",
  "No module of the library depends on the test tree or on an application. Every name, attribute and call that a library module uses on its own modules, the standard library and its numeric dependency exists there and takes these arguments in the supported version.",
  ["programs", "configurations"], "every statement of every module, executed by a test or not",
  "Tests execute about half of the library, and they always run with the test tree importable.",
  [R, "framework_python/apps/"], [("imports and uses", R + "**/*.py")], ["ImportError, AttributeError, NameError, TypeError at use"])
p("P32", "Every concrete class honours the interface it implements",
  "Every class that can be instantiated implements each operation its interfaces declare. An operation that overrides another takes every call the other takes, keeps its kind (plain, awaitable, yielding, property with or without setter) and its default values. After construction every field that an operation of the class reads is there, so a constructor also does what the constructors it refines do. Elements stay usable as keys.",
  ["programs"], "every class and interface operation, and every caller that only knows the interface",
  "Tests call concrete classes directly and in the one way that works.",
  [CI, BE, VN, HT, GT, SE, FO, HO, TR, AR, QE, SDF, R + "arbiter/cognitive_icon.py"], [("interfaces", CI + "; " + AR + "; " + R + "foundations/graph_monad.py")], ["calls through an interface"])
p("P33", "Decoding a message rebuilds the encoded graph",
  "Decoding the message an encoder emits for a context yields that context with the same nodes, edges, relations, ports and values, each once and in the same order: identifiers, "
  "names, qualified names within the context, directions, endpoints, parents and values agree, and the index that comes with it numbers them as the encoder did. This holds for "
  "every shape of graph one level deep (loops, cycles, edges without ends or to the context itself), for first and later messages, for a context that is itself part of a "
  "larger graph, and whatever encoder and decoder handled before. An update of values that is read gives the decoded value nodes the values of the sender. Weights of relations "
  "travel as tensor entries (P22).",
  ["inputs", "histories"], "every graph one level deep and every earlier use of encoder and decoder", "Tests decode two small graphs once.",
  [GI, CB, HO], [("create_graph", CB), ("message sections", GI)], ["decoded graph, returned index, updated values"])
p("P34", "Degrees and Laplacians follow from the connections in the tensors",
  "The degree of a node is the sum of its incidences in all edges, where an incidence that is both outgoing and incoming counts once (undirected graph) and "
  "in a purely directed graph outgoing and incoming incidences are added; the total degree is the sum of the degrees. The degree matrix has the degrees on its "
  "diagonal and zeros elsewhere; the degree tensor has, per edge, half of the weights of a node's connections within that edge on its diagonal (undirected graph). "
  "The Laplacian is the degree tensor less the weight tensor, the projected Laplacian the degree matrix less the weights summed over the edges; both are symmetric "
  "for undirected graphs, and the rows of the projected one sum to zero when every edge joins two nodes. All of them are computed from the tensors as they are at "
  "that moment, whatever was asked before, and leave the tensors unchanged.",
  ["inputs"], "every graph of any size and weighting", "Tests compare numbers of a few graphs.",
  [TR, AR], [("degree_matrix", TR), ("Laplacian", TR)], ["deg, D, DD, total_deg, L, Lp"])
p("P35", "Normalized Laplacian and entropies are those of the graph",
  "The normalized Laplacian is the Laplacian divided by the number of edges less one and, column by column, by the square root of the degree plus one. The entropy "
  "vector is taken of the diagonal of the normalized Laplacian in every edge, the projected entropy vector of the absolute eigenvalues of the projected Laplacian "
  "divided by the total degree; the scalars are the sums of their vectors (P23).",
  ["inputs"], "every graph of any size and weighting", "Tests compare numbers of a few graphs.",
  [TR, AR], [("normalized Laplacian", TR), ("entropy_vector", TR)], ["Lnorm, entropy_vector, entropy_projected_vector"])
p("P36", "Reading a graph leaves it as it was",
  "Traversals, searches, queries, factorization, building an index, tensors, coordinates or a message, lookup, the views of an element, and export to SDF change nothing about "
  "the elements they read: names, identifiers, qualified names, depth, position, parent, children and their order, clock, timestamp, counts, directions, endpoints, weights, values and "
  "attributes are the same before and after. So any number of readings can follow each other in any order with the same outcome.",
  ["inputs", "histories"], "every reading operation on every shape of graph", "Tests look at the result of a reading, not at the graph it was made of.",
  [HT, GT, SE, QE, FO, HO, GI, CB, TR, SDF, SG, IN, KI, BE, CI], [("execute of every traversal", HT + "; " + GT), ("encode", SDF), ("messages", GI)], ["state of the graph"])
p("P37", "An exported model is closed and complete",
  "In every exported model the parent and the child of each joint, and what a pose is relative to, are elements of that model, also for kinematic graphs used by other graphs through a "
  "joint, at every depth and however often; following what poses are relative to leads from every link and joint to the model, never back. Every link is exported once for each use of its graph, links and joints of one model have different names, and the joints of a kinematic "
  "tree connect its links to one tree. Elements encoded before their entity wait for it and go into its model once; a further entity starts a model of its own.",
  ["inputs", "histories"], "every nesting of kinematic graphs and every order of encoding", "Tests export a few robots and print the document.",
  [SDF, KI, SG], [("encode, encode_sub_graph, encode_element", SDF), ("joint and link names", KI)], ["SDF document"])
p("P38", "Reading operations succeed on every shape of graph",
  "Traversals, searches, queries, factorization, building an index, tensors, coordinates or a message, lookup and the views of an element complete without an exception for every shape of "
  "graph: without elements, with nodes only, nested, with edges that have no ends, one end, several ends, loops, cycles, edges that reach the context, edges of nested nodes, values and weights.",
  ["inputs"], "every reading operation on every shape of graph whose relations stay within the context", "Tests read well-formed graphs with two-sided edges.",
  [HT, GT, SE, QE, FO, HO, GI, CB, TR, BE, CI], [("execute of every traversal", HT + "; " + GT), ("index", HO), ("messages", GI)], ["exceptions"])
p("P39", "Factories build exactly what was asked for",
  "Every creating operation of a factory makes exactly one element (an operation on a list: one per name, in order) of the kind asked for, under the given name and with the given values "
  "or attributes, in the given container (or in none), and adds nothing else; a semantic element is of the class of its type in any spelling, and an unknown type or missing attributes are "
  "rejected with nothing added. An element keeps the identifier, name and given path it was constructed with.",
  ["inputs", "configurations"], "every factory operation, kind, container and spelling of a type", "Tests create a few nodes and read their names.",
  [AF, FF, SF, BE, CI], [("foundation factory", FF + ": HypergraphFactory"), ("semantic factories", SF), ("naming", AF + ": AbstractElementFactory")],
  ["sub elements of the container", "id_name", "uuid", "value of the created element"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
