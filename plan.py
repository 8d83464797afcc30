"""Which harnesses decide which property, within what bounds."""


def H(name, bounds, thorough_bounds=None, reach=(1,), **kw):
    d = {"harness": name, "bounds": bounds, "reach": list(reach)}
    if thorough_bounds:
        d["bounds_thorough"] = thorough_bounds
    d.update(kw)
    return d


G44 = "every multigraph of at most 4 vertices and 4 edges"
G55 = "every multigraph of at most 5 vertices and 5 edges"
SPARSE = "301 vertices, every multigraph of at most 3 edges on 4 of them (at 1, 63, 256 and 299)"
LONG = "a path of 260 vertices and a further edge, 3 origins, 9 targets"
PATTERNED = "9 graphs of 11 vertices (path, stars, tournament, tree, diamonds, forest, cycles, bipartite) in 2 numberings, up to two further edges from any and from the sixth vertex to any"
PATTERNED_T = "the same in 5 numberings, the second edge from one of 3 vertices"
BIG = {"chunk": 24, "jobs": 8}

PLAN = {
    "P01": {
        "harnesses": [
            H("h_p01_history", "every history of 3 operations on a vector of 0..3 values, arguments 0..5", "4 operations"),
            H("h_p01_words", "lengths 30..34, unknown indices around the first word boundary"),
            H("h_p01_range", "lengths 0..3, indices 0..5"),
            H("h_p01_long", "lengths 34 to 129, 16 places, presence of the rest fixed", max_iter=1000),
            H("h_p01_unit", "vectors of 0..3 entries of no size, one of 8 operations"),
            H("h_p01_padded", "the same, entries of several fields with padding"),
            H("h_p01_nested", "the same, entries that are optional themselves"),
            H("h_p01_owned", "the same, entries that own storage"),
            H("h_p01_huge", "65539 entries, every fifth absent, 8 places around the ends of words and of 16 bits, twice", max_iter=300000),
        ],
    },
    "P02": {
        "harnesses": [
            H("h_p02_ops", "every history of 2 operations on a vector of 0..3 owned values", "3 operations"),
            H("h_p02_drain", "vectors of 0..3 owned values, drained for an unknown number of steps, then dropped"),
            H("h_p02_into", "vectors of 0..3 owned values, consumed for an unknown number of steps, then dropped"),
            H("h_p02_bulk", "vectors of 0..3 owned values"),
            H("h_p02_grow", "vectors of 5, 9, 17, 33 and 40 entries in 6 mixes of present and absent, written at 16 pairs of places, 4 ways, then shortened or extended, and dropped", reach=(2,), max_iter=1000),
            H("h_p02_unit", "vectors of 0..3 owned values of no size, one of 10 operations", reach=(2,)),
            H("h_p02_wide", "vectors of 0..3 owned values of 32 bytes with storage of their own, one of 10 operations", reach=(2,)),
            H("h_p02_huge", "65535 to 65537 entries, dropped, half consumed and collected", reach=(2,), max_iter=300000),
        ],
    },
    "P03": {
        "harnesses": [
            H("h_p03_cmp", "two vectors of 0..3 values in 0..3, presence unknown", "two vectors of 0..5 values"),
            H("h_p03_partial", "two vectors of 0..3 partially ordered values", "two vectors of 0..5"),
            H("h_p03_clone", "vectors of 0..3 values, presence unknown"),
            H("h_p03_long", "two vectors of 34, 65 and 66 values that differ at one of 64 pairs of places in one of 4 ways", max_iter=1000),
            H("h_p03_huge", "65538 entries, one of 6 of them changed in 2 ways", max_iter=300000),
        ],
    },
    "P04": {
        "harnesses": [
            H("h_p04_shared", "vectors of 0..5 values, presence unknown", "0..7 values"),
            H("h_p04_runs", "vectors of 0..5 values, presence unknown", "0..7 values"),
            H("h_p04_mut", "vectors of 0..5 values, presence unknown", "0..7 values"),
            H("h_p04_into", "vectors of 0..5 values, presence unknown", "0..7 values"),
            H("h_p04_words", "lengths around the first word boundary"),
            H("h_p04_long", "vectors of 12, 66 and 100 values with two absent ones at 256 pairs of places, every view", max_iter=1000),
            H("h_p04_huge", "65540 entries, one of 4 of them absent, 4 views", max_iter=300000),
        ],
    },
    "P05": {
        "harnesses": [
            H("h_p05_compact", "vectors of 0..4 values, presence unknown", "0..6 values"),
            H("h_p05_some_into_vec", "vectors of 0..4 values, presence unknown", "0..6 values"),
            H("h_p05_drain", "vectors of 0..4 values, presence unknown", "0..6 values"),
            H("h_p05_bulk", "vectors of 0..4 values, presence unknown", "0..6 values"),
            H("h_p05_words", "lengths around the first word boundary"),
            H("h_p05_long", "vectors of 9 and 110 values with two absent ones at 64 pairs of places, 16 ranges", max_iter=1000),
            H("h_p05_huge", "65560 entries, drained over 12 ranges, one of 4 entries absent beside every fifth", max_iter=300000),
        ],
    },
    "P06": {
        "harnesses": [
            H("h_p06_lookup", "every history of 4 operations, arguments unknown", "5 operations"),
            H("h_p06_iter", "every history of 4 operations, arguments unknown", "5 operations"),
            H("h_p06_long", "entries of up to 300 values (6 and 4 lengths) around up to 256 empty keys", max_iter=1000),
            H("h_p06_range", "tables of 0..3 keys, index 0..5"),
            H("h_p06_ends", "tables of 0..3 keys with 0..2 values each, every 4 steps from either end"),
            H("h_p06_text", "tables of 3 keys with 0..2 values each, values 0..9"),
            H("h_p06_huge", "65534 to 65537 values of one key, and as many keys", max_iter=300000),
        ],
    },
    "P07": {
        "harnesses": [
            H("h_p07_group", "every list of at most 4 pairs, keys 0..4", "at most 5 pairs"),
            H("h_p07_many", "lists of 21 and 36 pairs with two unknown keys", max_iter=1000),
            H("h_p07_sparse", "at most 4 pairs with keys out of 0, 1, 63, 64, 255, 256, 299 and 300", max_iter=1000),
            H("h_p07_huge", "keys of 65535 to 70000", max_iter=300000),
            H("h_p07_pairs", "65535 to 65537 pairs of two keys, and one of unknown key", max_iter=300000),
        ],
    },
    "P08": {
        "harnesses": [
            H("h_p08_transpose", "every multigraph of at most 4 vertices and 5 edges", "5 vertices, 6 edges"),
            H("h_p08_views", "every multigraph of at most 4 vertices and 5 edges", "5 vertices, 6 edges"),
            H("h_p08_formed", "every table of at most 4 keys and 5 values, targets in range or not", "5 keys, 6 values"),
            H("h_p08_sparse", SPARSE, max_iter=1000),
            H("h_p08_patterned", PATTERNED, PATTERNED_T, max_iter=1000),
            H("h_p08_huge", "65540 vertices, an edge to one of 5 of them; 65540 edges of one vertex", max_iter=300000),
        ],
    },
    "P09": {
        "harnesses": [
            H("h_p09_forward", G44, G55, (1, 2)),
            H("h_p09_reverse", G44, G55, (1, 2)),
            H("h_p09_sparse", SPARSE, reach=(1, 2), max_iter=1000),
            H("h_p09_long", LONG, reach=(1, 2), max_iter=1000),
            H("h_p09_patterned", PATTERNED, PATTERNED_T, reach=(1, 2), max_iter=1000),
            H("h_p09_huge", "65540 vertices, in pairs, and a path of four with a further edge", reach=(1, 2), max_iter=300000),
        ],
    },
    "P10": {
        "harnesses": [
            H("h_p10_layers", G44, G55, (1, 2)),
            H("h_p10_sparse", SPARSE, reach=(1, 2), max_iter=1000),
            H("h_p10_long", LONG, reach=(1, 2), max_iter=1000),
            H("h_p10_patterned", PATTERNED, PATTERNED_T, reach=(1, 2), max_iter=1000),
            H("h_p10_huge", "65540 vertices, and a path of four with a further edge", reach=(1, 2), max_iter=300000),
        ],
    },
    "P11": {
        "harnesses": [
            H("h_p11_own", "every acyclic multigraph of at most 3 vertices and 3 edges, layers as given by the layer map", "4 vertices, 4 edges"),
            H("h_p11_any", "every multigraph of at most 3 vertices and 3 edges, every layer assignment in 0..3 that descends along edges", "4 vertices, 4 edges, layers 0..4"),
            H("h_p11_long", "three vertices, an edge over 2 to 300 layers, 5 spans, 3 positions of the vertex between, 2 orders", max_iter=1000),
            H("h_p11_huge", "an edge over 65535 and 65537 layers", max_iter=300000),
        ],
    },
    "P12": {
        "harnesses": [
            H("h_p12_partition", G44, G55),
            H("h_p12_links", "7 vertices, three fixed edges and every choice of at most 3 further edges", "at most 4 further edges"),
            H("h_p12_sparse", SPARSE, max_iter=1000),
            H("h_p12_rows", "300 pairs linked into two rows in 4 orders and 2 directions, cut at 4 places, the rows joined at 2 by 4 unknown places or not", max_iter=3000),
            H("h_p12_many", "140 pairs of vertices, two further vertices with two unknown edges each", max_iter=1000),
            H("h_p12_patterned", PATTERNED, PATTERNED_T, max_iter=1000),
            H("h_p12_huge", "65540 vertices in one path or in pairs, and an edge to one of 4 of them", max_iter=300000),
        ],
    },
    "P13": {
        "harnesses": [
            H("h_p13_chains", G44, G55),
            H("h_p13_sparse", SPARSE.replace("3 edges", "4 edges"), max_iter=1000),
            H("h_p13_star", "a vertex with every pair of 17 counts up to 257 of edges in and out", max_iter=1000),
            H("h_p13_long", "a chain of 300 vertices and a further edge, 4 origins, 9 targets", max_iter=1000),
            H("h_p13_patterned", PATTERNED, PATTERNED_T, max_iter=1000),
            H("h_p13_huge", "a chain of 65540 vertices that returns to one of 4; 65539 chains of three", max_iter=300000),
        ],
    },
    "P14": {
        "harnesses": [
            H("h_p14_ends", G44, G55),
            H("h_p14_saturate", "tables of 4 degrees, every value of a degree"),
            H("h_p14_preorder", "every acyclic multigraph of at most 4 vertices and 4 edges", "4 vertices, 5 edges"),
            H("h_p14_sparse", SPARSE, max_iter=1000),
            H("h_p14_deep", "a path of 300 vertices entered by a further edge at 5 places, walked from 4 vertices", max_iter=1000),
            H("h_p14_patterned", PATTERNED, PATTERNED_T, max_iter=1000),
            H("h_p14_huge", "a walk over 65540 vertices entered by an edge at 4 places; degrees of 65532 to 65538 and 65540", max_iter=300000),
        ],
    },
    "P15": {
        "harnesses": [
            H("h_p15_edges", "every sequence of at most 4 edges between 4 vertices", "at most 5 edges"),
            H("h_p15_paths", "every two paths of at most 3 vertices out of 4, given in three ways"),
            H("h_p15_sparse", "at most 3 edges, or a path of 3, among the vertices 0, 1, 40, 63, 64, 257 and 300", max_iter=1000),
            H("h_p15_many", "20 vertices of 1, 3 and 10 edges each, given in 3 orders, and a further edge from 21 to 23 vertices", max_iter=1000),
            H("h_p15_huge", "two edges between 1, 65535, 65536 and 65540", max_iter=300000),
        ],
        "assumptions": ["the hash table's random keys are fixed (its order must not matter: the builder sorts)"],
    },
    "P16": {
        "harnesses": [
            H("h_p16_history", "every history of 6 operations, every key", "8 operations"),
            H("h_p16_sort", "5 items, every key", "7 items"),
            H("h_p16_large", "9, 17 and 26 items in 5 patterns, two unknown keys, 4 interleavings", max_iter=1000),
            H("h_p16_many", "300 and 1030 items in order and in reverse, one of 4 keys among them", max_iter=300000),
        ],
    },
    "P17": {
        "harnesses": [
            H("h_p17_shortest", "every multigraph of at most 3 vertices and 3 edges, weights 0..5, every start and goal", "4 vertices, 4 edges", max_iter=200),
            H("h_p17_shapes", "13 graphs of 3..5 vertices and 5 edges, every weight 0..3", "weights 0..7", max_iter=200),
            H("h_p17_labels", "4 graphs whose vertices are numbers anywhere in 32 bits, weights up to 500000001", max_iter=1000),
            H("h_p17_long", "chains of 18, 40 and 70 edges and a further edge between 16 pairs of places, weight 0..60", max_iter=1000),
            H("h_p17_deep", "paths of 270 and 520 vertices, a shortcut of 4 weights", max_iter=300000),
        ],
    },
    "P18": {
        "harnesses": [
            H("h_p18_dijkstra", "every matrix of at most 4 vertices, weights 0..3, every root and target", "5 vertices, weights 0..4", max_iter=200, chunk=48),
            H("h_p18_array", "arrays of at most 3 by 3 cells"),
            H("h_p18_scale", "4 points, lengths 0, 1, 300 and 400000000", max_iter=1000),
            H("h_p18_shapes", "4 shapes of 8 points, four unknown lengths 0..3, 9 pairs of root and target", max_iter=1000),
            H("h_p18_many", "a row of 300 points, a shortcut of 16 lengths, both directions", max_iter=300000),
        ],
    },
    "P19": {
        "harnesses": [
            H("h_p19_one", "one obstacle of 1..4 corners anywhere on a grid of 3 by 3", "a grid of 4 by 4", **BIG),
            H("h_p19_two", "two obstacles of 1+1, 2+2, 3+1 and 1+3 corners anywhere on a grid of 3 by 3", "a grid of 4 by 4", **BIG),
            H("h_p19_scene", "4 scenes of up to 5 obstacles and 14 corners, convex or not, in 2 orientations and 5 sizes and places, one of 3 corners anywhere on a grid of 4 by 4", "a grid of 6 by 6", max_iter=1000),
            H("h_p19_pair", "two obstacles of 3+2 corners anywhere on a grid of 3 by 3", "a grid of 4 by 4", thorough=True, **BIG),
        ],
    },
    "P20": {
        "harnesses": [
            H("h_p20_basic", "every three points on a grid of 6 by 6", "8 by 8", **BIG),
            H("h_p20_turns", "36 pairs of points and a third anywhere on a grid of 8 by 8, in 5 sizes and places, from 1/64 to 1000000, up to 2^34 away"),
            H("h_p20_inside3", "every clockwise triangle and point on a grid of 4 by 4", "5 by 5", **BIG),
            H("h_p20_inside4", "every convex clockwise quadrilateral and point on a grid of 3 by 3", "4 by 4", **BIG),
            H("h_p20_hit", "two obstacles of 3 corners and a point anywhere on a grid of 4 by 4", "5 by 5", **BIG),
            H("h_p20_point", "obstacles of 3 and of 2+1 corners and a point anywhere on a grid of 3 by 3", "4 by 4", **BIG),
            H("h_p20_point_three", "obstacles of 1+2+1 corners and a point anywhere on a grid of 3 by 3", "4 by 4", **BIG),
            H("h_p20_point_pair", "obstacles of 3+2 corners and a point anywhere on a grid of 3 by 3", "4 by 4", thorough=True, **BIG),
            H("h_p20_direct_one", "an obstacle of 3 corners and two points anywhere on a grid of 3 by 3", "4 by 4", **BIG),
            H("h_p20_direct_two", "two obstacles of 3 corners and two points anywhere on a grid of 3 by 3", "4 by 4", **BIG),
            H("h_p20_direct_three", "three obstacles of 2 corners and two points anywhere on a grid of 3 by 3", "4 by 4", **BIG),
            H("h_p20_route", "a wall of two unknown corners, an unknown end, every length 0..3 of the sight lines", reach=(1, 2), **BIG),
            H("h_p20_scene_point", "4 scenes of up to 5 obstacles and 14 corners, convex or not, in 2 orientations and 5 sizes and places, a point anywhere on two grids of 8 by 8", max_iter=1000),
            H("h_p20_scene_direct", "the same scenes, two points anywhere on three pairs of grids of 4 by 4", max_iter=1000),
            H("h_p20_scene_hit", "convex obstacles of 8, 5, 3 and 1 corners in 5 sizes and places, a point anywhere on a grid of 16 by 16", max_iter=1000),
            H("h_p20_scene_route", "the same scenes, an end anywhere on a grid of 8 by 8, 4 other ends", reach=(1, 2), max_iter=1000),
        ],
    },
    "P21": {
        "harnesses": [
            H("h_p21_triangle", "every triangle and pair of inner points on a grid of 4 by 4", **BIG),
            H("h_p21_dart", "quadrilaterals with one unknown corner, one unknown end", reach=(1, 2), **BIG),
            H("h_p21_horseshoe", "a horseshoe of 8 corners, either orientation, one unknown end", reach=(1, 2), **BIG),
            H("h_p21_comb", "a comb of 8 corners, either orientation, one unknown end", "also any of four first corners", reach=(1, 2), **BIG),
            H("h_p21_spiral", "a spiral of 16 corners, either orientation, two first corners, 3 ends, the other anywhere on a grid of 28 by 21", reach=(1, 2), max_iter=1000),
            H("h_p21_zigzag", "a zigzag of 14 corners, either orientation, two first corners, 3 ends, the other anywhere on a grid of 28 by 21", reach=(1, 2), max_iter=1000),
            H("h_p21_rooms", "three rooms of 16 corners, either orientation, two first corners, 3 ends, the other anywhere on a grid of 28 by 21", reach=(1, 2), max_iter=1000),
            H("h_p21_sizes", "a zigzag of 14 corners in 5 sizes and places from 1/65536 to 1048576, 3 ends, the other anywhere on a grid of 24 by 16", reach=(1, 2), max_iter=1000),
            H("h_p21_long", "a winding corridor of 60 corners, either orientation, two first corners, 2 ends, 15 others", reach=(1, 2), max_iter=3000),
        ],
    },
    "P23": {
        "harnesses": [
            H("h_p23_marks", "every text of at most 4 characters out of an alphabet of 17", "at most 5", reach=(1, 4), max_iter=200),
            H("h_p23_idents", "every text of at most 4 characters out of an alphabet of 16", reach=(1, 4), max_iter=200),
            H("h_p23_strings", "a quote and every text of at most 5 characters out of an alphabet of 9", "at most 6", reach=(1, 3), max_iter=200),
            H("h_p23_numbers", "every text of at most 5 characters out of 3 digits, the point and 3 others", reach=(1, 2, 4), max_iter=200),
            H("h_p23_big", "integers of 17..20 digits around the greatest", reach=(1, 2), max_iter=200),
            H("h_p23_wide", "strings with characters of 1 to 4 bytes", max_iter=200),
            H("h_p23_scripts", "32 characters of other scripts, white space and marks at one and two places", reach=(1, 4), max_iter=2000),
            H("h_p23_long", "names, numbers, strings, marks and white space of 17 to 300 characters with an unknown character inside and behind", reach=(1, 2, 3, 4), max_iter=2000),
            H("h_p23_huge", "names, strings and white space of 65534 to 65537 characters and one of 6 behind", max_iter=300000),
        ],
    },
    "P24": {
        "harnesses": [
            H("h_p24_tests", "all boxes and points, all doubles but NaN"),
            H("h_p24_clip", "all boxes and points, all doubles but NaN"),
            H("h_p24_expand", "all boxes and points, all doubles but NaN"),
            H("h_p24_order", "all doubles but NaN"),
            H("h_p24_round", "quarters in -8..8, whole numbers in -32..31"),
            H("h_p24_vectors", "whole coordinates in -15..15"),
            H("h_p24_near", "whole coordinates in -2..3"),
            H("h_p24_far", "16 whole numbers up to 2147483647 of either sign and their pairs, 4 fractions", max_iter=1000),
            H("h_p24_units", "16 angles, whole coordinates in -3..3", max_iter=1000),
        ],
    },
    "P28": {
        "harnesses": [
            H("h_p28_places", "every text of at most 4 characters out of an alphabet of 7", "at most 5", reach=(1, 2, 3), max_iter=200),
            H("h_p28_far", "two unknown characters behind 1 to 300 spaces, lines or wide spaces, 7 counts", reach=(1, 2, 3), max_iter=1000),
            H("h_p28_number", "a number that is too great behind 3 unknown characters of 1 to 3 bytes", reach=(2, 3), max_iter=200),
            H("h_p28_huge", "an error behind 65534 to 65536 spaces, lines and wide spaces", max_iter=300000),
        ],
    },
    "P30": {
        "harnesses": [
            H("h_p30_distinct", "every three different whole roots in -8..8, 4 factors"),
            H("h_p30_single", "one of 7 roots and one of 15 pairs that are not real, 4 factors"),
            H("h_p30_multiple", "a root in -3..3 twice and a third one 0, 3 or 6 away, 4 factors"),
            H("h_p30_square", "two, one and no root around 13 places, no cube or one of 2^-27, 4 factors"),
            H("h_p30_line", "slopes in -3..3 and offsets in -4..4, and coefficients of 0 and 2^-27"),
        ],
    },
    "P25": {"harnesses": [H("h_p25_corridor", "5 corridors of up to 12 walls, straight or turned and skewed (2 maps), and a barrier of no length, paths of up to 2 bends, 16 pairs of ends, 25 pairs of directions, none among them", "64 pairs of ends, 4 maps"),
                           H("h_p25_barriers", "6 rooms of up to 12 walls, joined or free, paths of up to 4 bends, straight, turned, 64 times and 1/16 of the size, 8 pairs of ends, some on a wall, 7 pairs of directions", "64 pairs of ends, 5 maps, 14 pairs of directions")]},
    "P27": {"harnesses": [H("h_p27_wedge", "8 pairs of semi-axes, 2 centres, 64 pairs of angles", chunk=2, jobs=8, max_iter=1000), H("h_p27_far", "8 pairs of semi-axes from 0.001 to 1000000 and up to 500:1 either way, 2 centres, 16 pairs of angles, minute and full turns, up to 100", chunk=2, jobs=8, max_iter=3000)]},
    "P26": {"harnesses": [H("h_p26_path", "every sequence of 3 operations and an end, all points", "5 operations"), H("h_p26_huge", "21846 curves or lines, all points", max_iter=300000)]},
}
for k, v in PLAN.items():
    v.setdefault("feature", k.lower())
