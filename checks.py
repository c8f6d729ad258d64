"""What each check builds and runs: harness, back end, value types, targets, case counts."""
SEQ, OPT = "sequential", "optimized_sequential"
BACK = (SEQ, OPT)
MULTI = {"pool": [("pool_main.cpp", None, [])] + [("pool_ops.cpp", None, ["GROUP=%d" % g]) for g in range(7)]}
MULTI["pool_cmp"] = [("pool_cmp.cpp", None, [])]
for _b, _s in ((SEQ, "seq"), (OPT, "opt")):
    _f = ["grb=grb_" + _s, "vf=vf_" + _s]
    MULTI["pool_cmp"] += [("pool_side.cpp", _b, _f + ["SIDE=side_" + _s])] + [("pool_ops.cpp", _b, _f + ["GROUP=%d" % g]) for g in range(7)]
MULTI["pool_thr"] = [("pool_thr.cpp", None, [])] + [("pool_ops.cpp", None, ["GROUP=%d" % g]) for g in range(7)]
ASSUMPTIONS = [
    "the compiler (clang 18), its C++ library and its sanitizers are correct",
    "the oracle in /verif/harness states the property correctly; it shares no code with the library under test",
    "containers up to the generated sizes expose the behaviour (small-scope assumption)",
]
CHECKS = {}


def reg(pid, title, rule, groups, level_note, technique, assumptions=()):
    CHECKS[pid] = {"title": title, "rule": rule, "groups": groups, "level_note": level_note, "technique": technique,
                   "assumptions": list(assumptions)}


OPRULE = ("A case is one well-formed call: dimensions (1..6 mostly, 1x1 and larger included), contents with stored zeros and varied density, "
          "operators, mask kind (none/value/complement/structure/both), accumulator, replace/merge, transposes and index lists drawn at random over "
          "both back ends and several value-type combinations. Non-trivial: the operands and the computed result are not empty and the call changes "
          "the output or is constrained by a mask. Distinct: by the full text of the call.")


BIG = {}                # cases with long dimensions


def op_groups(fam, targets_n=1):
    def f(tier):
        combos = (0, 1, 4, 5, 7, 8) if tier == "quick" else range(9)
        n = 70000 if tier == "quick" else 600000
        n = n // max(1, targets_n // 2 or 1)
        g = [dict(src="h_op.cpp", backend=b, flags=("FAM=%d" % fam, "COMBO=%d" % k), count=n, size=0) for b in BACK for k in combos]
        g += [dict(src="h_op.cpp", backend=b, flags=("FAM=%d" % fam, "COMBO=%d" % k), count=BIG.get(fam, 2000) * (1 if tier == "quick" else 30), size=2, chunk=100)
              for b in BACK for k in ((0,) if tier == "quick" else (0, 4, 8))]
        if tier == "thorough":
            g += [dict(src="h_op.cpp", backend=b, flags=("FAM=%d" % fam, "COMBO=%d" % k), count=n // 6, size=1) for b in BACK for k in combos]
        return g
    return f


OPNOTE = ("Random search of single calls against an independent dense model of the operation and of the write rule, on both back ends and several "
          "value-type combinations under AddressSanitizer and UBSan; inputs and outputs are compared entry by entry and operands must be unchanged. "
          "No violation in the sampled space is evidence, not proof; sizes beyond the generated ones are not sampled.")
PBT = "property-based testing against a reference model (generated calls, shrinking)"
for fam, pid, nt in ((4, "C04", 1), (5, "C05", 2), (6, "C06", 2), (7, "C07", 2), (8, "C08", 6), (9, "C09", 3), (10, "C10", 3), (11, "C11", 4),
                     (12, "C12", 2), (13, "C13", 1), (14, "C14", 1)):
    reg(pid, "", OPRULE, op_groups(fam, nt), OPNOTE, PBT)


def cont_groups(fam):
    def f(tier):
        cts = (0, 1, 2, 4) if tier == "quick" else (0, 1, 2, 3, 4)
        n = 10000 if tier == "quick" else 120000
        if fam == 3:
            n *= 4
        g = [dict(src="h_cont.cpp", backend=b, flags=("FAM=%d" % fam, "CT=%d" % k), count=n, size=0) for b in BACK for k in cts]
        g += [dict(src="h_cont.cpp", backend=b, flags=("FAM=%d" % fam, "CT=0"), count=600 if tier == "quick" else 10000, size=2, chunk=50) for b in BACK]     # long dimensions
        if tier == "thorough":
            g += [dict(src="h_cont.cpp", backend=b, flags=("FAM=%d" % fam, "CT=%d" % k), count=n // 4, size=1) for b in BACK for k in cts]
        return g
    return f


HISTRULE = ("A case is a history of 1..n container operations (constructors, build, set, remove, clear, resize, copy, assignment, dense assignment, printing) "
            "over two or three live containers of one type, each step followed by a comparison of every query with a map model. Non-trivial: at least two "
            "steps changed a container and at least two kinds of step were used. Distinct: by the full text of the history.")
reg("C01", "", HISTRULE, cont_groups(1), "Model-based random histories over live matrices, compared after every step with a coordinate map through the whole query surface; sanitizers on.",
    "stateful model-based property testing")
reg("C02", "", HISTRULE, cont_groups(2), "Model-based random histories over live vectors, compared after every step with an index map through the whole query surface; sanitizers on.",
    "stateful model-based property testing")
reg("C03", "", "A case is one tuple list (unsorted, duplicated, empty and ill-formed lists included), a duplicate operator (non-commutative ones included) and a build overload. "
    "Non-trivial: at least two tuples, or an ill-formed list. Distinct: by the full text.", cont_groups(3),
    "Random tuple lists against left-to-right folding in a map; round trip through extractTuples; ill-formed lists must be rejected and store nothing.",
    "property-based testing against a reference model and a round trip")


def pool_groups(want, quick_pts, pts, nq, nt):
    def f(tier):
        g = []
        for b in BACK:
            for p in (quick_pts if tier == "quick" else pts):
                g.append(dict(src="pool", backend=b, flags=("PT=%d" % p, "WANT=%d" % want), count=nq if tier == "quick" else nt, size=0, chunk=4000))
                if tier == "thorough":
                    g.append(dict(src="pool", backend=b, flags=("PT=%d" % p, "WANT=%d" % want), count=nt // 4, size=1, chunk=4000))
            if want in (15, 16, 22):     # long dimensions
                g.append(dict(src="pool", backend=b, flags=("PT=0", "WANT=%d" % want), count=4000 if tier == "quick" else 100000, size=2, chunk=250))
        return g
    return f


reg("C15", "", OPRULE + " Here additionally a mask or accumulator must be present.", pool_groups(15, (0,), (0, 1, 2, 3, 5), 200000, 1000000),
    "Metamorphic: each masked/accumulated call is compared with the plain call into an empty container (a copy of the output for assign) combined by the write rule.",
    "metamorphic property testing")
reg("C16", "", "A case is one call in which a random subset of {output, mask, operands} of equal kind and shape is one object, run once so and once with equal separate copies. "
    "Non-trivial: the output is one of the shared ones, operands and result are not empty. Distinct: by the full text.", pool_groups(16, (0,), (0, 1, 2, 3, 4, 5), 200000, 1000000),
    "Metamorphic: the aliased call against the same call on separate copies, all operations, masks, transposes, both back ends.", "metamorphic property testing")
reg("C17", "", "A case is a program: a pool of matrices and vectors and up to 10 (thorough 25) steps, each an operation with pool containers as output, mask and operands "
    "(in place included), a container update, or (1 in 10) a call that may be ill-formed. Non-trivial: at least two steps changed a container. Distinct: by the program text.",
    pool_groups(17, (0, 4), (0, 1, 2, 3, 4, 5), 40000, 500000),
    "Stateful model-based testing: after every step every container, and the outcome (result or rejection), equals the dense model; CPU limit per case; sanitizers on.",
    "stateful model-based property testing")
def cmp_groups(tier):
    g = []
    for p in ((0,) if tier == "quick" else (0, 1, 2, 3, 4)):
        g.append(dict(src="pool_cmp", backend=SEQ, flags=("PT=%d" % p,), count=100000 if tier == "quick" else 1500000, size=0, chunk=4000))
        if tier == "thorough":
            g.append(dict(src="pool_cmp", backend=SEQ, flags=("PT=%d" % p,), count=200000, size=1, chunk=4000))
    return g


reg("C18", "", "A case is a program as in C17, run in one process on the sequential and on the optimized sequential build of the library. Non-trivial: at least two steps "
    "changed a container. Distinct: by the program text.", cmp_groups,
    "Differential: both back ends linked into one program (namespaces renamed), outcome of every call and every container compared after every step.",
    "differential property testing of the two back ends")
reg("C19", "", "A case is a call made ill-formed in one or two random ways (dimensions of any argument, index values, index list lengths, row/column number), or one element-level "
    "access, construction, build or resize. Non-trivial: the call must be rejected. Distinct: by the full text.", pool_groups(19, (0,), (0, 3), 160000, 1000000),
    "Generated ill-formed calls: must throw the error of the case and leave every argument and the output as they were; well-formed neighbours must be accepted.",
    "property-based testing against a reference model")
reg("C22", "", "A case is one call with at least one transposed view, complemented or structural mask, run once with the view(s) and once with the explicitly transposed matrix or "
    "the boolean mask built entry by entry. Non-trivial: operands and result not empty. Distinct: by the full text.", pool_groups(22, (0,), (0, 1, 2, 3, 5), 200000, 1000000),
    "Metamorphic: views against materialised arguments for every operation; the underlying containers must be unchanged.", "metamorphic property testing")


def alg20(tier):
    n = 20000 if tier == "quick" else 2000000
    return [dict(src="h_algebra.cpp", backend=SEQ, flags=("PARTN=%d" % i,), count=n) for i in range(7)]


reg("C20", "", "A case is one operator, monoid or semiring on generated arguments (small, extreme and uniformly random values of bool, all fixed-width integers, float, double and mixed "
    "types). Non-trivial: the arguments differ (and are not zero, for operators). Distinct: by the text of the application.", alg20,
    "Every predefined operator, monoid and semiring against a definition written in 128-bit or long double arithmetic, and the monoid laws; arguments whose result is undefined in C++ "
    "(signed overflow, division by zero) are outside the property.", "property-based testing against independent definitions and algebraic laws",
    ["laws of sums and products are tested on values that neither overflow nor round; logical monoids on truth values"])


def alg_groups(src, cts, qcts, nq, nt, fam=None, slow=(), slowdiv=8, qback=BACK):
    """nq/nt cases per target; targets in `slow` get 1/slowdiv of them."""
    def f(tier):
        q = tier == "quick"
        n = nq if q else nt
        def cnt(t, n=n):
            return max(1, n // slowdiv) if t in slow else n
        g = []
        for b in (qback if q else BACK):
            for k in (qcts if q else cts):
                fl = (("FAM=%d" % fam,) if fam else ()) + ("CT=%d" % k,)
                g.append(dict(src=src, backend=b, flags=fl, count=cnt, size=0))
                if src == "h_ident.cpp" and k == 1:     # long dimensions
                    g.append(dict(src=src, backend=b, flags=fl, count=600 if q else 15000, size=2, chunk=50))
                if not q:
                    g.append(dict(src=src, backend=b, flags=fl, count=lambda t, c=cnt: max(1, c(t) // 8), size=1))
        return g
    return f


GRAPHRULE = ("A case is one generated graph (random density, paths, cycles, stars, trees, grids, cliques, bipartite, disjoint unions, isolated vertices, self-loops where "
             "the property allows them), its values, source(s) and parameters, handed to one routine. ")
MODEL = "property-based testing against a reference model"
reg("C21", "", "A case is one tuple of random operands (shapes, patterns with stored zeros, exact values) on which a family of identities is evaluated. Non-trivial: operands and "
    "result not empty and more than 1x1. Distinct: by the text of the operands.", alg_groups("h_ident.cpp", (0, 1, 2, 3, 4), (1, 2), 12000, 250000, 21),
    "Metamorphic: about fifty identities relating different operations on the same operands, compared exactly (associative, distributive value sets); plus-times, min-plus, max-plus, "
    "or-and and xor-and.", "metamorphic property testing")
reg("C23", "", "A case is one vector or matrix handed to one utility. Non-trivial: more than one entry is involved. Distinct: by the text of the input.",
    alg_groups("h_ident.cpp", (0, 1, 2, 3, 4), (0, 1, 2), 60000, 600000, 23),
    "Each utility against its entry-by-entry definition; normalisation within rounding, on rectangular matrices, with negative and cancelling sums allowed.", MODEL)
reg("C24", "", GRAPHRULE + "Non-trivial: at least one vertex beyond the source is reached. Distinct: by the text of the case.",
    alg_groups("h_bfs.cpp", (0, 1, 2, 3, 4), (0, 1, 4), 10000, 150000), "Every BFS routine against a queue-based search; parents checked to be in-neighbours one hop closer.", MODEL)
reg("C25", "", GRAPHRULE + "Non-trivial: at least two vertices are reached. Distinct: by the text of the case.",
    alg_groups("h_sssp.cpp", (0, 1, 2, 3, 4), (0, 1, 2), 20000, 250000), "Every shortest-path routine against repeated relaxation, negative cycles included for the Bellman-Ford routines.", MODEL)
reg("C26", "", GRAPHRULE + "Non-trivial: the graph has edges between different vertices. Distinct: by the text of the case.",
    alg_groups("h_metrics.cpp", (0, 1, 2), (0, 1, 2), 20000, 200000), "Every metric against its definition over breadth-first distances computed independently.", MODEL)
reg("C27", "", GRAPHRULE + "Non-trivial: some vertex or edge has a non-zero centrality. Distinct: by the text of the case.",
    alg_groups("h_bc.cpp", (0, 1, 2, 3), (0, 1), 15000, 150000), "Every betweenness routine against path counting over all source/target pairs.", MODEL)
reg("C28", "", GRAPHRULE + "Non-trivial: the graph has at least one triangle. Distinct: by the text of the case.",
    alg_groups("h_tri.cpp", (0, 1, 2, 3), (0, 1), 40000, 400000, 28), "Every triangle-counting routine against enumeration of vertex triples.", MODEL)
reg("C29", "", GRAPHRULE + "Non-trivial: the truss is not empty or an edge was removed in cascade. Distinct: by the text of the case.",
    alg_groups("h_tri.cpp", (0, 1, 2, 3), (0, 1), 30000, 300000, 29), "Both k-truss routines against peeling edges one at a time.", MODEL)
reg("C30", "", GRAPHRULE + "Non-trivial: more than two vertices and a tree exists. Distinct: by the text of the case.",
    alg_groups("h_tree.cpp", (0, 1, 2, 3, 5, 6), (0, 1, 5), 40000, 400000, 30), "Kruskal's weight, and the parents checked to form a spanning tree of the graph with that weight; disconnected graphs must be rejected.", MODEL)
reg("C31", "", GRAPHRULE + "Non-trivial: the graph has edges. Distinct: by the text of the case.",
    alg_groups("h_tree.cpp", (0, 1, 2, 3, 4, 5), (0, 1, 4), 30000, 300000, 31), "Independence and maximality of the returned set, checked directly, for random seeds of the routine.", "property-based testing against an invariant")
reg("C32", "", GRAPHRULE + "Non-trivial: the maximum flow is positive. Distinct: by the text of the case.",
    alg_groups("h_tree.cpp", (0, 1, 2, 3, 5), (0, 1, 5), 20000, 200000, 32), "Both routines against an independent augmenting-path maximum flow.", MODEL)
reg("C33", "", GRAPHRULE + "Non-trivial: at least one edge. Distinct: by the text of the case.",
    alg_groups("h_rank.cpp", (0, 1, 2, 3), (0, 1), 20000, 200000), "The scores against a dense fixed-point solution within the tolerance implied by the convergence threshold.", MODEL)
reg("C34", "", GRAPHRULE + "Non-trivial: more than one vertex and at least one edge. Distinct: by the text of the case.",
    alg_groups("h_cluster.cpp", (0, 1, 2), (0, 1), 20000, 200000, None, ("louvain", "markov"), 4),
    "One further voting round, Markov round or single-vertex move, computed by an independent dense model, must not change the returned clustering; plus validity of the clustering.", MODEL)


def thr_groups(tier):
    q = tier == "quick"
    g = []
    for b in BACK:
        for p in ((0,) if q else (0, 1, 3)):
            g.append(dict(src="pool_thr", backend=b, flags=("TSAN", "PT=%d" % p), count=4000 if q else 60000, size=0, chunk=1000))
        for p in (0, 1):
            g.append(dict(src="h_conc.cpp", backend=b, flags=("TSAN", "PART=%d" % p), count=1500 if q else 40000, size=0))
    return g


reg("C35", "", "A case is two to four threads, released together: each runs a program (as in C17) on containers of its own, or the same set of calls or algorithm runs in its own "
    "order on shared operands, masks and graphs with outputs of its own; or one algorithm run again after others on other graphs. Non-trivial: at least two of the programs or calls "
    "change a container (always for algorithms). Distinct: by the full text.", thr_groups,
    "Differential: results of concurrent and repeated runs against the results of the same calls alone, under ThreadSanitizer, which reports a data race even when the results agree. "
    "The schedules are those the system produced; races between accesses that happen in any order are seen whatever the order.",
    "differential property testing of concurrent runs under a race detector", ["the schedules the system produced are representative; an interleaving that needs exact timing may be missed"])


def throw_groups(tier):
    q = tier == "quick"
    return [dict(src="pool", backend=b, flags=("PT=%d" % p, "WANT=36", "FAULTS"), count=120000 if q else 1500000, size=z, chunk=4000)
            for b in BACK for p in ((0,) if q else (0, 2, 3, 4, 5)) for z in ((0,) if q else (0, 1))]


reg("C36", "", "A case is one well-formed call (or build with duplicates) whose user-supplied operator throws at a chosen application among those the call makes. "
    "Non-trivial: not the first application. Distinct: by the full text.", throw_groups,
    "Fault injection: the exception must reach the caller, operands and mask be unchanged, a scalar output be unchanged, the output container answer all queries consistently, and the "
    "call, made again, give what the model gives for the contents left behind.", "property-based testing with injected faults against a reference model")


def reject_groups(tier):
    q = tier == "quick"
    return [dict(src="h_reject.cpp", backend=b, flags=("PART=%d" % p,), count=60000 if q else 1500000, size=z) for b in BACK for p in (0, 1, 2) for z in ((0,) if q else (0, 1))]


reg("C37", "", "A case is one call of one algorithm routine with exactly one argument that does not fit: a graph that is not square, an output, wavefront or cluster container of another "
    "size, two containers with different row counts, or a source, sink or source-list entry at or beyond the vertex count. Non-trivial: every case (the generator makes no fitting calls). "
    "Distinct: by the full text.", reject_groups,
    "Every generated call must throw one of the library's argument exceptions, leave the graph as it was and leave any output container consistent. Fitting calls are not made here: "
    "C24 to C34 make them and would report a rejection.", "property-based testing against an invariant")


def sym_groups(tier):
    q = tier == "quick"
    nt = {4: 1, 5: 2, 6: 2, 7: 2, 8: 6, 9: 3, 10: 3, 11: 4, 12: 2, 13: 1, 14: 1}
    g = []
    for fam in range(4, 15):
        pairs = ((SEQ, 10), (OPT, 9)) + (((SEQ, 9), (OPT, 10)) if fam == 4 or not q else ())
        for b, k in pairs:
            for z in (0,) if q else (0, 1):
                g.append(dict(src="h_op.cpp", backend=b, flags=("FAM=%d" % fam, "COMBO=%d" % k), count=(28000 if q else 500000) // max(1, nt[fam] // 2) // (6 if z else 1), size=z))
    for b in BACK:
        for fam in (1, 2, 3):
            for z in (0,) if q else (0, 1):
                g.append(dict(src="h_cont.cpp", backend=b, flags=("FAM=%d" % fam, "CT=5"), count=(6000 if q else 100000) * (4 if fam == 3 else 1) // (4 if z else 1), size=z))
    for b in (OPT,) if q else BACK:
        g.append(dict(src="pool", backend=b, flags=("PT=5", "WANT=17"), count=20000 if q else 300000, size=0, chunk=4000))
    return g


reg("C39", "", "A case is one call, or one container history or tuple list, over scalars of a free algebra. Non-trivial: as in C04 to C14, C01 to C03 and C17 (operands and result "
    "not empty; a container changed). Distinct: by the full text.", sym_groups,
    "The scalar is a heap-held element of a free algebra (every application gives a value of its own, additions are commutative hashes' sums), in one binary the same type everywhere, in "
    "another five distinct types with only the conversions the definitions ask for; results are compared with the dense model, so any other application, conversion, order, fabricated, "
    "lost or moved-from value shows.", "property-based testing against a reference model over a free algebra")


def embed_groups(tier):
    q = tier == "quick"
    g = [dict(src="pool", backend=b, flags=("PT=%d" % p, "WANT=38"), count=100000 if q else 1000000, size=z, chunk=4000) for b in BACK for p in ((0,) if q else (0, 4, 5)) for z in ((0,) if q else (0, 1))]
    g += [dict(src="h_perm.cpp", backend=b, flags=("PART=%d" % p, "CT=%d" % k), count=20000 if q else 400000, size=z) for b in BACK for p in (0, 1) for k in ((0,) if q else (0, 1)) for z in ((0,) if q else (0, 1))]
    return g


reg("C38", "", "A case is one call, run on containers whose index spaces are renamed by generated injective maps (permutation, shift, spread to dimensions up to 2^61 for columns and vectors), "
    "or one algorithm run on a graph and on its embedding, by an injective vertex map, in a graph with up to 260 further vertices. Non-trivial: operands and result not empty and the map is "
    "not the identity. Distinct: by the full text.", embed_groups,
    "Metamorphic: the result of the renamed call against the renamed result of the model's (operations) or the routine's own (algorithms) small call, compared entry by entry; a memory limit and "
    "a CPU limit per case catch cost that follows dimensions instead of stored values.", "metamorphic property testing")


def seq_groups(tier):
    q = tier == "quick"
    return [dict(src="h_seq.cpp", backend=b, flags=("PART=%d" % p, "SEQ=%d" % s), count=25000 if q else 500000, size=z)
            for b, ss in ((SEQ, (1,) if q else (0, 1)), (OPT, (0,) if q else (0, 1))) for s in ss for p in (0, 1, 2) for z in ((0,) if q else (0, 1))]


reg("C40", "", "A case is one call with index sequences, made once with plain index lists and once with another form of each list (a container of another index type, a range, AllIndices), "
    "one time in ten with a position out of range; or one walk over a range. Non-trivial: at least one list has another form, and operands and result are not empty or the call must be rejected. "
    "Distinct: by the full text.", seq_groups,
    "Differential between the forms and against the model (result or class of rejection); all pairings of forms for both index arguments.", "differential property testing of equivalent calls")


def log_groups(tier):
    q = tier == "quick"
    g = []

    def add(src, fl, n, lv):
        for k, L in enumerate(lv):
            for b in ((BACK[(k + len(g)) % 2],) if q else BACK):
                g.append(dict(src=src, backend=b, flags=tuple(fl) + ("VF_LOG", "GRAPHBLAS_LOGGING_LEVEL=%d" % L), count=n * (1 if q else 20) // (1, 2, 4)[L], size=0))
    for fam in range(4, 15):
        add("h_op.cpp", ("FAM=%d" % fam, "COMBO=0"), 16000, (0, 2) if q else (0, 1, 2))
    for fam in (1, 2, 3):
        add("h_cont.cpp", ("FAM=%d" % fam, "CT=0"), 4000, (0, 2) if q else (0, 1, 2))
    for src, fl in (("h_bfs.cpp", ("CT=0",)), ("h_sssp.cpp", ("CT=1",)), ("h_bc.cpp", ("CT=0",)), ("h_metrics.cpp", ("CT=1",)), ("h_rank.cpp", ("CT=0",)), ("h_tri.cpp", ("FAM=28", "CT=0")),
                    ("h_tri.cpp", ("FAM=29", "CT=0")), ("h_tree.cpp", ("FAM=30", "CT=0")), ("h_tree.cpp", ("FAM=31", "CT=0")), ("h_tree.cpp", ("FAM=32", "CT=0")), ("h_cluster.cpp", ("CT=0",))):
        add(src, fl, 1200, (0,) if q and src != "h_bfs.cpp" else (0, 2))
    for src, fl, n in [("h_reject.cpp", ("PART=%d" % p,), 8000) for p in (0, 1, 2)] + [("h_ident.cpp", ("FAM=23", "CT=0"), 8000)] + [("h_seq.cpp", ("PART=%d" % p, "SEQ=0"), 8000) for p in ((0,) if q else (0, 1, 2))]:
        add(src, fl, n, (0,) if q else (0, 1, 2))
    return g


reg("C41", "", "A case is one call, container history or algorithm run or rejected call as in C01 to C14, C23 to C34, C37 and C40, compiled at logging level 0, 1 or 2. Non-trivial: as there. Distinct: by the full text.",
    log_groups, "Model-based: the same oracles at every logging level; at level 0 nothing may be written to the standard streams or their file descriptors, at the others the messages are formatted (under the sanitizers) and discarded.",
    "property-based testing against a reference model")


def tu_groups(tier):
    q = tier == "quick"
    return [dict(src="h_tu.cpp", backend=b, flags=("BE=%s" % b,), count=48 if q else 1500, size=0, chunk=6 if q else 25) for b in BACK]


reg("C42", "", "A case is a program of 2 to 8 calls spread over 1 to 4 generated source files; each file includes a random choice of the public headers in random order and is compiled by itself "
    "(clang++ or g++, -O0 or -O1). Non-trivial: at least two files hold calls. Distinct: by the full text of the program.", tu_groups,
    "Differential: the files must compile and link, and the program's final state (containers, scalars, caught exceptions and their messages) must equal the state after the same calls made in one unit.",
    "differential property testing over generated multi-file programs")
