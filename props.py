#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VO, RT, GR = "trellis/src/vec_option.rs", "trellis/src/ramp_table.rs", "trellis/src/graph.rs"
PP = "trellis/src/pathplan/"
PROPS, NA = [], []


def P(id, title, statement, over, quant, why, files, mech, observe, state=None, na=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})
    if na:
        NA.append({"property": id, "reason": na})


VSTATE = [("presence bits and value storage", "an entry's bit is set exactly when its slot holds a value; both have the same length", VO + ": struct VecOption")]

P("P01", "The optional vector behaves as a sequence of optional values",
  "After any history of pushing, popping, replacing, setting, swapping and reading, the optional vector has the same length, the same entries and gives the same results as a plain sequence of optional values put through the same history. An index that is out of range panics, and one that is in range never does.",
  ["histories", "inputs"], "all histories of operations, any indices and any pattern of present and absent entries",
  "The tests run a few fixed sequences on short vectors; whether the presence bits and the values stay together depends on the order of operations, on the pattern of presence, and on the position within the 32-bit words of the bit map.",
  [VO], [("push, push_some, push_none, pop, pop_some", VO), ("replace, replace_some, replace_none, set*, swap", VO), ("get_ref, get_mut, get_copy, get_clone, iter", VO)],
  ["return values of the operations", "len, is_empty, iter, get_*"], VSTATE)
P("P02", "Every value put into the optional vector is dropped exactly once",
  "Each value handed to an optional vector is, in every history, either handed back to the caller or dropped by the vector, exactly once and no later than when the vector (or the iterator that took it over) is dropped. No operation touches memory that holds no value.",
  ["histories", "inputs"], "all histories including replaced, removed, drained and partly consumed vectors",
  "Tests use plain integers and never see a leak, a double drop or a read of an unused slot; those show only for some patterns of presence and some points at which iteration stops.",
  [VO], [("Drop of the vector, of Drain and of IntoIter", VO), ("replace*, pop*, compact, some_into_vec, drain", VO)],
  ["number of drops of each value"], VSTATE)
P("P03", "Clones equal their original; comparisons and hashes of optional vectors agree",
  "A clone of an optional vector has the same length and entries as its original and shares nothing with it. Equality holds exactly when lengths and all entries agree; the order compares lengths first and then entries from the front, an absent entry before any present one, the partial order agrees with it, and equal vectors hash equally.",
  ["inputs"], "all pairs of optional vectors, any pattern of present and absent entries, partially ordered values included",
  "The tests compare a handful of vectors; consistency of equality, order and hash is a statement over all pairs and triples.",
  [VO], [("Clone, PartialEq, PartialOrd, Ord, Hash implementations", VO)], ["==, cmp, partial_cmp, hash, clone"], VSTATE)
P("P04", "Every view of an optional vector shows the same entries, in order",
  "Iterating an optional vector, by shared or exclusive reference or by value, yields each entry once in order; iterating only the present entries yields each with its index; iterating runs yields exactly the maximal contiguous blocks of present entries. Changes made through the exclusive views land in the entries they were shown for and nowhere else.",
  ["inputs"], "all vectors, any pattern of present and absent entries, any change made through a view",
  "The tests use one or two patterns; run detection has its edge cases at both ends of the vector and at the boundaries of the bit map's words.",
  [VO], [("iter, iter_mut, iter_some_index*, iter_runs*, IntoIterator, into_some_iter", VO), ("find_next_run", VO)], ["items of the iterators"], VSTATE)
P("P05", "Bulk operations on optional vectors keep order and lose nothing",
  "Compaction and conversion to a plain vector keep exactly the present values in order; draining a range yields its entries in order and, however little of it is consumed, leaves exactly the entries before and after the range; extending, collecting and building from a plain vector append every item in order. Afterwards the vector is as usable as any other with these entries.",
  ["inputs", "histories"], "all vectors, all kinds of ranges, any point at which consumption stops",
  "A drain that is dropped early, a compaction over a mixed pattern, or a range that crosses a word of the bit map is not what the tests exercise.",
  [VO], [("compact, some_into_vec, drain, extend, from_vec, FromIterator", VO), ("bitvec_delete_range, get_bounds", VO)], ["contents afterwards", "items drained"], VSTATE)
P("P06", "A table of value lists gives back each key's values, and all of them",
  "After any history of adding values, finishing keys, adding whole entries and clearing, a table of value lists reports the number of finished keys and of values, and each key's values are exactly those added between the previous finished key and it, in order. All ways of iterating the table, from either end, by entry or by pair, by shared or exclusive reference, show the same entries; values not yet owned by a key belong to none of them. Asking for a key that is not there panics, and the table's text lists exactly the keys that have values.",
  ["histories", "inputs"], "all histories of table operations, keys without values and unowned values included",
  "The tests build one table; empty keys, trailing values without a key and mixed histories are what decides the bookkeeping of the boundaries.",
  [RT], [("push_value, finish_key, push_entry_*, clear", RT), ("iter, iter_mut, iter_pairs, iter_pairs_manual, entry_values*, Index", RT)], ["len, num_values, entry_values, iterators"],
  [("index and values", "the index holds one boundary more than there are keys, ascending, starting at zero", RT + ": struct RampTable")])
P("P07", "Building a table from unordered pairs groups them by key, in order",
  "A table built from pairs in any order has one key more than the greatest key given (or none), and each key's values are exactly those paired with it, in the order in which they were given.",
  ["inputs"], "all lists of pairs, keys repeated, missing or out of order",
  "Grouping and stability only show for repeated keys in mixed order; the tests do not use the builder that way.",
  [RT], [("RampTableBuilder::push, extend, finish", RT)], ["the finished table"])
P("P08", "A graph shows one set of edges in every view; transposing reverses each edge",
  "All views of a graph agree: number of vertices and edges, edges by vertex, and the flat list of edges. The transposed graph has the same vertices and exactly the reversed edges, with multiplicity, sources in ascending order under each target. The well-formedness check panics exactly when some edge leads to a vertex that does not exist.",
  ["inputs"], "all directed multigraphs, self-loops, parallel edges and isolated vertices included",
  "The tests transpose a few small graphs; the counting and the placement of edges interact over all degree sequences.",
  [GR, RT], [("Graph::transpose", GR), ("iter_edges_flattened, iter_from_edges, edges_from", GR), ("assert_graph_is_well_formed", GR)], ["the views", "panics"])
P("P09", "Topological sorting orders every edge, or reports a cycle",
  "Sorting a graph topologically succeeds exactly when the graph has no cycle. The result lists exactly the vertices that have an edge, each once, and every edge leads from an earlier to a later vertex (the other way round in the reversed order).",
  ["inputs"], "all directed multigraphs, self-loops, parallel edges and isolated vertices included",
  "The tests sort a handful of graphs and mostly print the result; the order and the cycle test are statements over all graphs.",
  ["trellis/src/topo_sort.rs"], [("topo_sort_reverse, topo_sort", "trellis/src/topo_sort.rs")], ["the returned order or error"])
P("P10", "The layer of a vertex is its longest path down",
  "For a graph without cycles, every vertex is given as its layer the length of the longest path that starts at it, so every edge points to a lower layer, and the number of layers is one more than the greatest layer in use (one for an empty graph). For a graph with a cycle, an error is returned.",
  ["inputs"], "all directed multigraphs", "The tests print layer maps and assert nothing about them.",
  ["trellis/src/layering.rs", "trellis/src/topo_sort.rs"], [("create_layer_map", "trellis/src/layering.rs"), ("topo_sort_reverse", "trellis/src/topo_sort.rs")], ["the layer map"])
P("P11", "In a proper graph every edge descends one layer and stands for a part of an edge",
  "Given any assignment of layers under which all edges descend, the proper graph keeps the vertices' numbers, replaces each edge by a path through new vertices of its own that descends one layer at a time, and contains nothing else. The new vertices are numbered after the original ones, and the number of vertices and edges grows by exactly one per layer crossed.",
  ["inputs"], "all acyclic multigraphs and all descending layer assignments",
  "No test calls it.", ["trellis/src/layering.rs", RT], [("create_proper_graph", "trellis/src/layering.rs"), ("RampTableBuilder::finish", RT)], ["the proper graph"])
P("P12", "Disjoint subgraphs are exactly the connected components",
  "Splitting a graph into disjoint subgraphs places every vertex that has an edge in exactly one subgraph, and two vertices are in the same subgraph exactly when a chain of edges, taken in either direction, connects them. Vertices without edges are in none, and no subgraph is empty.",
  ["inputs"], "all directed multigraphs",
  "The tests use a few graphs; the merging of provisional groups goes wrong only for particular orders of edges.",
  ["trellis/src/disjoint.rs"], [("find_disjoint_subgraphs, find_leader", "trellis/src/disjoint.rs")], ["the returned table of subgraphs"],
  [("alias table", "provisional subgraphs that turned out to be the same lead to one leader", "trellis/src/disjoint.rs")])
P("P13", "Chains are found completely, each once, with both of their ends",
  "A vertex is inside a chain when exactly one edge enters it and exactly one leaves it (a self-loop disqualifies it). For every edge from a vertex outside any chain to one inside, in the order of edges, one chain is returned that lists the starting vertex, then the vertices inside one after the other, then the first vertex that is not inside; nothing else is returned.",
  ["inputs"], "all directed multigraphs", "The tests call it on three graphs and assert nothing.",
  ["trellis/src/find_chains.rs"], [("find_chains, pack_degrees, increment_degree, is_chain", "trellis/src/find_chains.rs")], ["the returned table of chains"])
P("P14", "Degrees, sources, sinks and walks agree with the edges",
  "Degrees count every occurrence of a vertex among the given ends and stop, reported, at the greatest count that can be held; sources, sinks and referenced vertices are flagged exactly where no edge enters, none leaves, or one refers to them. Walking depth first from a vertex of a graph without cycles visits every path from it, each vertex directly before what is reached through it.",
  ["inputs"], "all lists of ends, all counts already present, all graphs",
  "One test counts seven ends; saturation and walks over shared descendants are not tested.",
  ["trellis/src/lib.rs"], [("add_degree, find_degree", "trellis/src/lib.rs"), ("find_sources, find_sinks, find_referenced_edges", "trellis/src/lib.rs"), ("traverse_depth_first_preorder", "trellis/src/lib.rs")], ["the returned tables and the walk"])
P("P15", "A graph built from edges or paths has exactly those edges",
  "A graph built edge by edge, by chained steps or from whole paths has one vertex more than the greatest one named as the end of an edge, and under each vertex exactly the edges given for it, in the order in which they were given, whatever the order of vertices and whatever gaps there are between them.",
  ["inputs", "histories"], "all sequences of edges and all lists of paths, empty and single-vertex paths included",
  "The builder keeps edges in a hash table and fills gaps when it sorts them; the tests use it only with few fixed shapes.",
  ["trellis/src/testing.rs", GR], [("GraphBuilder::edge, from/to, path, build; graph_from_paths", "trellis/src/testing.rs")], ["the built graph"])
P("P16", "The priority queue hands out a greatest item, each item once",
  "After any history of insertions and removals, a removal hands out an item that none of the items then in the queue exceeds, each inserted item at most once, and nothing exactly when the queue is empty; clearing empties it. No history makes it panic.",
  ["histories", "inputs"], "all histories of insertions, removals and clears over all keys",
  "No test uses the queue; the heap order breaks only for some shapes of at least four items.",
  ["trellis/src/priority_queue.rs"], [("PQ::insert, remove, clear, check", "trellis/src/priority_queue.rs")], ["return values of removals"],
  [("heap", "no item exceeds its parent", "trellis/src/priority_queue.rs: struct PQ")])
P("P17", "The weighted path search finds a path of least weight",
  "In a graph with non-negative edge weights, the search returns nothing exactly when the goal cannot be reached from the start; otherwise it returns the vertices of a path of least total weight, from the goal back to the start. It ends on every graph, cycles and self-loops included.",
  ["inputs"], "all weighted multigraphs, all pairs of start and goal",
  "The one test runs one graph and does not look at the answer.",
  ["trellis/src/ortho/shortest_path.rs"], [("find_shortest_path", "trellis/src/ortho/shortest_path.rs"), ("FindPathState (queue of vertices by distance)", "trellis/src/ortho/shortest_path.rs")], ["the returned path"])
P("P18", "Links computed over a distance matrix lead back along a shortest path",
  "Over a matrix of distances in which only entries below the diagonal count and zero means no edge, following the returned links from the target leads, over edges only, to the root exactly when the root can be reached, and with the least total distance, where all distances together are below 2^31; the root has no link. Cells of a matrix are distinct, and each has the initial value until it is written.",
  ["inputs"], "all symmetric distance matrices, all pairs of root and target",
  "No test calls it.", [PP + "shortestpth.rs", PP + "array2.rs"], [("shortestPath, shortestPathGeneric", PP + "shortestpth.rs"), ("Array2 index and allocation", PP + "array2.rs")], ["the returned links", "matrix cells"])
P("P19", "The visibility graph has an entry exactly for corners that see each other",
  "Opening a set of obstacles numbers their corners one obstacle after the other, links each with its neighbours around its obstacle, and records for two corners their distance if they are neighbours or see each other (each lies on the outer side of the other's corner, and no side of an obstacle crosses the line between them, or touches it with an end between them), and zero otherwise, the same in both directions.",
  ["inputs"], "all sets of obstacles given as lists of corners on the points of a grid of any size that a double holds exactly",
  "No test computes visibility; touching corners, collinear sides and obstacles of one or two corners are where it goes wrong.",
  [PP + "cvt.rs", PP + "visibility.rs", PP + "vis.rs"], [("Pobsopen", PP + "cvt.rs"), ("visibility, compVis, inCone, clear, intersect", PP + "visibility.rs")], ["the opened configuration: corners, links, distances"])
P("P20", "Points see corners and each other exactly where no obstacle blocks the line",
  "The turn of three points (straight where twice their area is at most 1e-4), betweenness and containment in a convex polygon are exact. The first obstacle around a point is found; from a point, the distance to every corner seen past all other obstacles is given, and zero for the others; two points see each other directly exactly when no side of an obstacle that neither belongs to blocks the line. The route between two points is direct if they see each other and otherwise a shortest one over the given sight lines.",
  ["inputs"], "all obstacles and points on a grid of any size that a double holds exactly, all assignments of the points to obstacles",
  "No test calls any of it.",
  [PP + "visibility.rs", PP + "in_poly.rs", PP + "shortestpth.rs"], [("wind, area2, inBetween", PP + "visibility.rs"), ("in_poly, polyhit", PP + "in_poly.rs"), ("ptVis, directVis", PP + "visibility.rs"), ("makePath", PP + "shortestpth.rs")], ["return values"])
P("P21", "The path inside a polygon is its shortest one",
  "In a simple polygon of either orientation, the path between two inner points starts at the first and ends at the second, bends only at corners of the polygon, never leaves the polygon, and is taut: at every bend it goes around the corner, so it is the shortest path. Finding it never fails for such points.",
  ["inputs"], "all simple polygons without three corners on a line and all pairs of inner points, on integer coordinates",
  "No test computes such a path; the funnel has to be right for every triangulation and every sequence of turns.",
  [PP + "shortest.rs"], [("Pshortestpath", PP + "shortest.rs"), ("triangulate, isdiagonal, connect_tris, mark_tri_path", PP + "shortest.rs"), ("add2dq, splitdq, finddqsplit", PP + "shortest.rs")], ["the returned points or error"],
  [("deque", "the funnel: two chains of bends joined at the apex", PP + "shortest.rs: deque_t")])
P("P23", "The dot lexer splits every text into its tokens, or reports where it stops",
  "Of every text, the lexer returns the tokens in order, skipping white space: marks, the arrow, names of ASCII letters, digits and underscores that do not begin with a digit, numbers with and without a fraction, and quoted strings with line feed, tab and return escaped and other backslashes kept. It returns no token and records one error, once, at a character that starts no token, an integer that is too great, a number with two fractions, or a string without its closing quote; otherwise it records none.",
  ["inputs"], "all texts", "The tests lex a few fixed texts; the borders between tokens and the ends of the text are combinations of neighbouring characters.",
  ["dot_parser/src/lexer.rs"], [("Lexer::next, parse_ident, parse_number, parse_quoted_string", "dot_parser/src/lexer.rs")], ["the tokens and the list of errors"])
P("P28", "Every error of the dot lexer is reported at its line and column",
  "Errors are written in the order they were met, one to a line, each as the line and column where the offending character, string or number begins, counted from 1 in characters, followed by a message. Nothing is written without errors.",
  ["inputs"], "all texts with any number of errors, lines, and characters of any length",
  "The tests print one error of one line; the place depends on line feeds, on characters of several bytes and on where strings and numbers before it begin and end.",
  ["dot_parser/src/lexer.rs"], [("add_error, map_offset_to_line, write_errors", "dot_parser/src/lexer.rs")], ["the text write_errors writes", "errors, has_errors"])
P("P24", "Boxes, rounding and vectors obey their algebra",
  "Clipping a box leaves exactly the points common to both, expanding gives the least box around both parts, and the tests for a point inside, containment and overlap agree with that. Rounding goes to the nearest whole number, halves away from zero, conversions between units and number types are exact for whole coordinates, and vectors are added, scaled, divided and compared by component. Angles are converted between degrees and radians, a vector made from an angle is its cosine and sine, and a vector is written as its two components.",
  ["inputs"], "all boxes and points over all doubles other than NaN; rounding and vectors over whole and quarter coordinates",
  "No test calls any of it.",
  ["trellis/src/common/geom.rs", "trellis/src/common/arith.rs", "trellis/src/vec2.rs", "trellis/src/math.rs"], [("INSIDE, CONTAINS, OVERLAP, CLIPBB, EXPANDBP, EXPANDBB, conversions", "trellis/src/common/geom.rs"), ("ROUND, CMP, SGN, BETWEEN, MIN, MAX", "trellis/src/common/arith.rs"), ("operators of Vec2", "trellis/src/vec2.rs"), ("fmin, fmax, sqr", "trellis/src/math.rs")], ["return values"])
P("P30", "The roots of a polynomial of degree three or less are found, and counted",
  "For coefficients of a polynomial, lowest first, the solver gives the number of its real roots and the roots themselves: three for a cubic with three real roots, counting a root twice where it is a double one, and one otherwise; two, one (a double one) or none for a square; one for a line; none for a constant, and the answer 4, that any number is a root, for the zero polynomial. Coefficients below 1e-7 count as zero, and a common factor changes nothing.",
  ["inputs"], "all polynomials whose roots are apart or computed exactly; every returned root to within 1e-6",
  "No test solves a polynomial; the answer depends on the sign of a discriminant, on branches of the arc tangent and on which coefficients vanish.",
  ["trellis/src/pathplan/solvers.rs"], [("solve3, solve2, solve1, cbrt", "trellis/src/pathplan/solvers.rs")], ["the number of roots", "the roots"])
P("P26", "A path is a start point and three points for each of its segments",
  "A path of curves holds its start point and then three points for every segment: a curve's own points, or for a straight segment the point it leaves from and twice the point it leads to. Starting anew discards what was there; closing adds one straight segment back to the start, and not closing adds nothing.",
  ["histories", "inputs"], "all sequences of path operations and all points",
  "One test prints the points of one ellipse.",
  ["trellis/src/common/ellipse.rs"], [("PathTarget for polylines: move_to, line_to, curve_to, end_path", "trellis/src/common/ellipse.rs")], ["the list of points"])
P("P25", "A routed spline follows its path and stays between the barriers",
  "A spline routed along a path between barriers starts at the path's first point and ends at its last, leaves and arrives in the given directions (where it has any there), is made of cubic pieces that join, in order, at bends of the path and pass through them without a corner, and crosses no barrier except within the tolerance of 1e-3 (of the square of the distance) around a barrier's end.",
  ["inputs"], "all corridors, paths through them, and directions at both ends",
  "No test routes a spline; which pieces are accepted depends on the roots of cubics for every barrier, on the direction of each barrier and on how often the pieces are flattened and split.",
  [PP + "route.rs", PP + "solvers.rs"], [("Proutespline, reallyroutespline, mkspline, splinefits, splineisinside, splineintersectsline", PP + "route.rs"), ("solve3", PP + "solvers.rs")], ["the points of the returned spline"])
P("P27", "A wedge of an ellipse is outlined by curves within the threshold",
  "The curves generated for a wedge of an ellipse begin and end at its centre, with straight lines to and from the arc; the arc starts at the first angle and ends at the second, running counterclockwise once, in pieces of at most a quarter turn that join on the ellipse without a corner, and no curve is further than 1e-5 from the ellipse.",
  ["inputs"], "all centres, positive semi-axes and pairs of angles up to a full turn apart", "One test prints the curves of one wedge and checks nothing.",
  ["trellis/src/common/ellipse.rs"], [("ellipticWedge, initEllipse, estimateError, gen_elliptic_path", "trellis/src/common/ellipse.rs")], ["the points handed to the path target"])

TECH = "symbolic execution of the compiled code's LLVM IR; SMT (z3, cvc5 in the thorough tier) decides every assertion over all unknowns within the bounds"


def main():
    import sys
    sys.path.insert(0, HERE)
    from plan import PLAN
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    na = {x["property"] for x in NA}
    checks = []
    for p in sorted(PROPS, key=lambda p: p["id"]):
        i = p["id"]
        if i in na:
            continue
        b = "; ".join(h["harness"] + ": " + h["bounds"] for h in PLAN[i]["harnesses"] if not h.get("thorough"))
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH,
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds (" + b + "); nothing is claimed outside of them. Trusts rustc's translation to IR, the executor's model of it (compared with native runs on samples of every run) and the solvers; violations are replayed natively before they are reported.",
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py setup",
        "checks": checks,
        "not_applicable": NA,
        "notes": "See DESIGN.md. Genuine defects found and repaired are listed in known_findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
