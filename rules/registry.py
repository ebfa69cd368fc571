"""Which function decides which property, and how."""
RULES = {
    'P01': ('p_hier', 'p01'), 'P02': ('p_hier', 'p02'), 'P03': ('p_hier', 'p03'), 'P04': ('p_hier', 'p04'),
    'P05': ('p_hier', 'p05'), 'P06': ('p_hier', 'p06'), 'P07': ('p_hier', 'p07'), 'P08': ('p_hier', 'p08'),
    'P09': ('p_edges', 'p09'), 'P10': ('p_edges', 'p10'), 'P11': ('p_edges', 'p11'),
    'P12': ('p_birth', 'p12'), 'P13': ('p_ident', 'p13'),
    'P14': ('p_trav', 'p14'), 'P15': ('p_runs', 'p15'), 'P16': ('p_trav', 'p16'), 'P17': ('p_trav', 'p17'), 'P18': ('p_trav', 'p18'),
    'P19': ('p_query', 'p19'), 'P20': ('p_query', 'p20'),
    'P21': ('p_tensor', 'p21'), 'P22': ('p_tensor', 'p22'), 'P23': ('p_entropy', 'p23'),
    'P24': ('p_codec', 'p24'), 'P25': ('p_codec', 'p25'),
    'P26': ('p_value', 'p26'),
    'P27': ('p_export', 'p27'), 'P28': ('p_export', 'p28'), 'P29': ('p_export', 'p29'),
    'P30': ('p_read', 'p30'),
    'P31': ('p_alone', 'p31'), 'P32': ('p_iface', 'p32'), 'P34': ('p_degree', 'p34'), 'P35': ('p_degree', 'p35'),
    'P33': ('p_model', 'p33'), 'P36': ('p_model', 'p36'), 'P37': ('p_model', 'p37'), 'P38': ('p_model', 'p38'),
    'P39': ('p_build', 'p39'),
}
# properties that also look at whole histories over small models (p_hist)
LIVES = ('P03', 'P10', 'P11', 'P14', 'P15', 'P17', 'P18', 'P19', 'P20', 'P21', 'P22', 'P24', 'P25')      # client programs of rules/p_life.py
HISTORIES = ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08')
AI = 'static analysis: path-sensitive abstract interpretation of the syntax tree (trace partitioning, loops by widening)'
TECH = {
    'P01': (AI + '; relational comparison of container effects',
            'Every path of every add and remove operation of every class; the representation invariant is assumed at entry '
            'and shown to be kept at exit, so it holds for every history. Loops are covered by one generic iteration.'),
    'P02': (AI + '; removed set against request',
            'Every path of every removal, split by which parts of the request are given; every yield point.'),
    'P03': (AI + '; effect analysis of rejecting paths',
            'Every path that ends in an exception, including the implicit KeyErrors of map accesses that the invariant does '
            'not exclude; induction over the ancestor walk.'),
    'P04': (AI + '; symbolic form of names and depths, work-list coverage',
            'Form of the name and depth terms on every path of every update; structural induction over the work list for the '
            'subtree; order of refresh and final parent write.'),
    'P05': (AI + '; update form of the history counter', 'Every path of addition and removal; every writer in the tree.'),
    'P06': (AI + '; provenance of timestamps', 'Every path of update and construction; table of time sources; refresh as in P04.'),
    'P07': (AI + '; inductive step of the lookup', 'One generic level of the path; induction on the number of names.'),
    'P08': (AI + '; per-item effect of the bulk loops', 'One generic iteration over the collection, consumption of the result.'),
    'P09': (AI + '; connection effect and end agreement', 'Every path of every connect and disconnect operation of every edge class.'),
    'P10': (AI + '; truth table over the direction constants',
            'Every reader of a direction, evaluated for each member of the enumeration; both translations of the arrows.'),
    'P11': (AI + '; symbolic index arithmetic over the given lists',
            'Every builder of edges: one generic iteration per list, linear forms of the value positions.'),
    'P12': (AI + '; definite initialisation before the element is handed out',
            'Every path of every constructor of every element class, with and without a parent; every field read by any '
            'operation of the class.'),
    'P13': (AI + '; normal form of the hashed text',
            'Every path of every factory method and of every connect operation: the parts of the hashed text, with and without a container; '
            'the digest function itself by symbolic client programs.'),
    'P14': (AI + '; work-list protocol of the traversal loop',
            'Every path of construction, set-up and one generic turn; depth labels evaluated against each limit; order from the '
            'pairing of put and take ends.'),
    'P16': (AI + '; call-graph cycles and re-entered functions',
            'Every operation over a graph: no function runs again while it is running, no cycle among its methods.'),
    'P17': (AI + '; visited-set discipline of the walk',
            'One generic turn per kind of element: asked and remembered under the same identity in a record made in this run; '
            'everything that follows is put; hop labels evaluated against each limit.'),
    'P18': (AI + '; match condition and coverage of the search loop',
            'One generic turn of each search: compared attribute, result, children and parent put, freshness of every container.'),
    'P15': (AI + '; two-run analysis of instance state',
            'Every class with an operation: what a first run leaves in the instance is followed into a second run; shared '
            'defaults and memo tables are reported at the construct.'),
    'P19': (AI + '; provenance of the results of a query',
            'Visitor and filter of a query evaluated for each kind of element; reading loop; engine: which queries are run, '
            'completed and read, and in which order.'),
    'P20': (AI + '; truth table over direction, selection and identity of a pair',
            'Every path that emits a pair, evaluated for all combinations of the two directions, selected or not, same '
            'endpoint, self loops asked for or not.'),
    'P21': (AI + '; symbolic contents of the index maps',
            'Builds and rebuilds over sequences with elements of every kind, a generic next element after any number of them, '
            'and an index set up from symbolic pairs, read back through every accessor.'),
    'P22': (AI + '; truth table of emitted tuples, provenance of array subscripts',
            'One generic relation for every direction, with and without weight; one generic connection through every store; '
            'symbolic counts of two indices for the size of the tensors.'),
    'P23': ('static analysis: abstract evaluation of array terms (zero entry; positive entry as Laurent polynomial in x and log x)',
            'Every path of every entropy: the term of one entry is evaluated for an entry that is zero over the extended reals '
            'and for a positive entry as a normal form, which covers every spectrum.'),
    'P24': (AI + '; symbolic round trip of writer and reader',
            'Every path of encoding followed by every path of decoding with the transport left out: each field of each decoded '
            'element compared with that of the element it was written for.'),
    'P25': (AI + '; counting of entries per element, two-message analysis',
            'Every path of an update followed by a message: entries per kind of element counted on every path of one generic '
            'iteration; a second context, update or message is followed through the state the first one left.'),
    'P26': (AI + '; symbolic client programs',
            'Small client programs over symbolic values and attributes, for every class of value nodes and for 0 to 5 values; '
            'every path is followed, results are compared as terms.'),
    'P27': (AI + '; polynomial normal form of the emitted text over symbolic client models',
            'Every path of export and inertia for each kind of solid, place of the geometry and order of construction; masses and '
            'dimensions are symbols, the texts are compared as quotients of polynomials.'),
    'P28': (AI + '; provenance of the emitted text over symbolic client models',
            'Every path of joint and pose export for each notation, unit, order of relations and with and without axis and pose, '
            'through the joint functions and through the whole export; axes, translations and rotations are symbols.'),
    'P29': (AI + '; emitted document against the modelled geometries, over symbolic client models',
            'Every path of link export for each geometry, own and referenced, combinations of visuals and collisions, and each '
            'surrounding of the link (graph, nesting, joints, other connections); dimensions are symbols. Exceptions on any path '
            'that does not depend on a symbol are failures.'),
    'P30': (AI + '; symbolic parse trees derived from the grammar files, with coverage of the choices of the grammar',
            'The reader is followed over the tree of about ninety sentences whose numbers are symbols; together they take every '
            'alternative, option and repetition (none, one, more) of every rule the reader handles, and what is read is compared '
            'as terms with the sentence. Handlers and parts are compared with the grammar for every handler.'),
    'P31': ('static analysis: symbolic import order, scope resolution, class-hierarchy binding of attributes and calls, type inference with annotations left out (mypy)',
            'Every module as the first one imported; every name, attribute on self, import and resolvable call of every function '
            'of library and applications, executed by a test or not; types are inferred from constructors and the stubs of the installed '
            'libraries, and a class is only at fault if no class derived from it has the attribute.'),
    'P32': ('static analysis: class-hierarchy comparison of operations, and abstract interpretation of every constructor',
            'Every operation of every class against every operation it overrides: implemented, arguments, defaults, kind; every '
            'constructor on every path against every field the operations of its class read.'),
    'P34': (AI + '; index normal form of array expressions (sums, products and deltas over edge and node indices)',
            'Every accessor for undirected and for purely directed graphs, for any number of nodes and edges and any weights: the '
            'general entry of the array is compared as a polynomial with the definition.'),
    'P35': (AI + '; index normal form of array expressions',
            'Normalized Laplacian for any number of nodes and edges; what the entropies are taken of, as an expression over '
            'the Laplacians.'),
    'P33': (AI + '; round trip of writer and reader over symbolic client models',
            'Client programs that build a graph of each shape, encode and decode it with the transport as identity up to lists, with encoder '
            'and decoder fresh or used; every path is followed and what both graphs tell is compared as terms (values are symbols).'),
    'P36': (AI + '; state of symbolic client models before and after',
            'Every reading operation over each shape of graph, and export of models with poses, axes, geometries and inertias: everything the '
            'elements tell before and after is compared as terms on every path.'),
    'P37': (AI + '; emitted document of symbolic client models: reference closure',
            'Whole exports of flat and nested kinematic graphs (one to three deep, used once or twice, with a prefix) and every order of links '
            'and entities: names and references of the emitted document on every path.'),
    'P38': (AI + '; exceptions reachable over symbolic client models',
            'Every reading operation over each shape of graph: an exception on a path that depends on no symbol is a failure.'),
    'P39': (AI + '; symbolic client programs',
            'Client programs that use every creating operation of every factory with and without container, list or attributes; on every path what '
            'was made, and where, is compared with what was asked for (names and values are symbols).'),
}
