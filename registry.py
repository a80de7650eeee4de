"""What each check builds, runs and claims to bound."""
import os

MODELING = ["lib/Modeling"]
SOURCES = {
    "modeling": ["lib/Modeling"],
    "geometry": ["lib/Modeling/Point.cpp", "lib/Modeling/Range.cpp", "lib/Modeling/MultidimensionalRange.cpp",
                 "lib/Modeling/RTree.cpp", "lib/Modeling/IndexSet.cpp"],
    "access": ["lib/Modeling/" + f + ".cpp" for f in (
        "AccessFunction AccessFunctionAffineConstant AccessFunctionAffineMap AccessFunctionConstant AccessFunctionEmpty AccessFunctionGeneric "
        "AccessFunctionRotoTranslation DimensionAccess DimensionAccessAdd DimensionAccessConstant DimensionAccessDimension DimensionAccessDiv "
        "DimensionAccessIndices DimensionAccessMul DimensionAccessRange DimensionAccessSub").split()],
    "lexer": ["lib/Lexer", "lib/Parser/BaseModelica/StateMachine.cpp", "lib/Parser/BaseModelica/Token.cpp"],
    "parser": ["lib/Lexer", "lib/Parser/BaseModelica", "lib/AST", "lib/AST/BaseModelica"],
    "filter": ["lib/Lexer", "lib/VariableFilter"],
    "dialect": ["lib/Dialect/Modeling/IR"],
    "none": [],
}
_DIA = "marco/Dialect/Modeling/IR/"
TABLEGEN = {"dialect": [
    (_DIA + "Attributes.td", _DIA + "Attributes.h.inc", ["-gen-attrdef-decls"]),
    (_DIA + "Attributes.td", _DIA + "Attributes.cpp.inc", ["-gen-attrdef-defs"]),
    (_DIA + "Ops.td", _DIA + "Ops.h.inc", ["-gen-op-decls"]),
    (_DIA + "Ops.td", _DIA + "Ops.cpp.inc", ["-gen-op-defs"]),
    (_DIA + "Dialect.td", _DIA + "Dialect.h.inc", ["-gen-dialect-decls", "-dialect=modeling"]),
    (_DIA + "Dialect.td", _DIA + "Dialect.cpp.inc", ["-gen-dialect-defs", "-dialect=modeling"])]}

FOOTNOTES = [
    "The instrumented code is the LLVM IR of /repo's current sources at -O1 (NDEBUG, as the repository's own build); "
    "the engine (SymPass, rt.cpp), clang 20 and z3 4.8.12 are trusted.",
    "Calls that leave the instrumented code with symbolic data enumerate that data with the solver "
    "(coverage.external_calls_enumerated); they are never ignored.",
]


def R(h, bounds, budget=60, reach=(), **kw):
    d = dict(h=h, bounds=bounds, budget=budget, reach=list(reach))
    d.update(kw)
    return d


PROPERTIES = {}

PROPERTIES["SELF"] = dict(
    sources=["none"], harness="self.cpp", bounds="", quick=[],
    expect={"self_find": ["a42"], "self_prove": [], "self_oob": ["heap access out of bounds"],
            "self_hang": ["execution does not terminate"], "self_overflow": ["wrap"], "self_string": ["cat"]})

PROPERTIES["C01"] = dict(
    sources=["geometry"], harness="c01_range.cpp",
    bounds="range bounds and points any integer with magnitude <= 2^40; iteration: lengths 1..6",
    outside="bounds within 1 of the int64 limits (where end-1 or value+1 wraps)",
    quick=[R("range_membership", "|bounds| <= 2^40", reach=["done"]),
           R("range_relations", "2 ranges, |bounds| <= 2^40", reach=["done"]),
           R("range_order", "3 ranges, |bounds| <= 2^40", reach=["chain"]),
           R("range_setops", "2 ranges, |bounds| <= 2^40", reach=["overlap", "merge"]),
           R("range_iteration", "length 1..6, any start", reach=["done"])])

PROPERTIES["C02"] = dict(
    sources=["geometry"], harness="c02_mdr.cpp",
    bounds="ranks 1..3; bounds any integer with magnitude <= 2^20; sizes: bounds in [0,200], and widths up to 2^20 with one of them free; iteration: up to 5/9/8 points",
    outside="ranks above 3; volumes that overflow 64 bits",
    quick=[R("mdr_rel%d" % r, "2 boxes of rank %d" % r, reach=["done"]) for r in (1, 2, 3)] +
          [R("mdr_point%d" % r, "box and point of rank %d" % r, reach=["done"]) for r in (1, 2, 3)] +
          [R("mdr_set%d" % r, "2 boxes of rank %d" % r, reach=["overlap"]) for r in (1, 2, 3)] +
          [R("mdr_merge%d" % r, "2 boxes of rank %d" % r, reach=["merge"]) for r in (1, 2, 3)] +
          [R("mdr_dims%d" % r, "box of rank %d, every dimension mask" % r, reach=["done"]) for r in (1, 2, 3)] +
          [R("mdr_big%d" % r, "rank %d, volumes up to 2^47, one width free" % r, reach=["done"]) for r in (1, 2, 3)] +
          [R("mdr_size%d" % r, "rank %d, bounds in [0,200]" % r, reach=["done"]) for r in (2, 3)] +
          [R("mdr_iter%d" % r, "rank %d, any position" % r, reach=["done"]) for r in (1, 2, 3)] +
          [R("point%d" % r, "points of rank %d" % r, reach=["done"]) for r in (1, 2, 3)])

def RS(budget, bounds, names, **kw):
    """Several harnesses that share a description of their bounds."""
    return [R(n, bounds, budget, reach=kw.get("reach", ["done"]), **{k: v for k, v in kw.items() if k != "reach"})
            for n in names.split()]


def deepen(runs, budget):
    """The thorough tier: the same harnesses, each with a larger budget."""
    return [dict(r, budget=max(r["budget"], budget)) for r in runs]


B20 = "bounds of every range: any integer with magnitude <= 2^20"
G30 = "bounds of every range anywhere in a 30-wide window (every relative order of up to 15 ranges)"
PIN = "rank 2/3: bounds of the first dimension anywhere in a 30-wide window, of the others enumerated in 0..2"
FAN = "fan-out 1..2 ('s'), 2..4 ('m') or the default 4..16"
SCAT = "trees of 10 to 40 scattered boxes with overlapping nodes, against a symbolic box or point or another such tree at every offset"

PROPERTIES["C03"] = dict(
    sources=["geometry"], harness="c03_union.cpp",
    bounds="sets of up to 5 symbolic ranges or points of rank 1..3, on an empty tree or on a tree of up to 34 ranges; " + FAN,
    outside="ranks above 3; more than 5 ranges in general position at once",
    quick=RS(20, B20, "build_1d3 build_2d2 build_3d2 plus_1d3 plus_2d2") +
          RS(20, G30, "sets_1d21 sets_1d12 sets_2d11 sets_2d10 sets_2d01 replace") +
          RS(20, PIN, "plus_2d2s") +
          RS(15, "4 ranges of rank 1, default fan-out", "plus_1d4") +
          RS(6, G30 + "; budgeted", "plus_1d4s build_1d4 plus_2d3s bulk_deep") +
          RS(5, "grid 0..3; budgeted", "build_2d3g build_scan") +
          RS(8, "points", "points_1d3 points_2d2") +
          RS(15, SCAT, "scat_box1 scat_box2 scat_box2d scat_box3 scat_two1") +
          RS(8, SCAT + "; budgeted", "scat_two2 scat_two2d scat_two2m scat_two3"))
PROPERTIES["C03"]["thorough"] = deepen(PROPERTIES["C03"]["quick"] + RS(
    200, G30, "build_2d3 build_2d4g build_3d3g plus_1d5s plus_3d2 full_1d16 bulk sets_1d22s sets_2d21g"), 120)

PROPERTIES["C04"] = dict(
    sources=["geometry"], harness="c04_difference.cpp",
    bounds="sets of up to 4 symbolic ranges, or trees of up to 24 ranges, minus up to 2 ranges, a point or a set of up to 3 "
           "ranges; complement of sets of up to 3 ranges; histories of up to 5 insertions and removals; ranks 1..3; " + FAN,
    outside="ranks above 3; longer histories",
    quick=RS(20, B20, "sub_1d1 sub_1d21 sub_1d22 sub_2d11 sub_3d11 sets_1d21 sets_1d12 sets_1d22 sets_2d11 sets_1d10 "
                      "sets_1d01 pts_1d2 pts_2d1 compl_1d0 compl_1d2 compl_2d1 compl_3d1 history_1d3") +
          RS(15, G30, "compl_1d3s") + RS(7, G30 + "; budgeted", "sub_1d31s sets_1d31s sub_1d31") +
          RS(12, "trees of 5, 8, 12 separate ranges, the removed range symbolic", "spread_5s spread_8s spread_2d8s spread_12s") +
          RS(7, "trees of 18 and 24 separate ranges, budgeted", "spread_18 spread_24 spread_8s2") +
          RS(20, SCAT, "scat_box1 scat_box2d scat_sub2 scat_two1 scat_two2 scat_two2m") +
          RS(8, SCAT + "; budgeted", "scat_box2 scat_sub2d scat_two2d scat_two3") +
          RS(5, "budgeted", "sub_2d21 history_1d4s history_1d4"))
PROPERTIES["C04"]["thorough"] = deepen(PROPERTIES["C04"]["quick"] + RS(
    200, G30, "sub_1d32s sub_1d41s sub_2d12 sub_2d21g spread_12s2 spread_18x2 spread_2d18 sets_1d13s sets_1d32s compl_2d2 "
              "history_1d5s history_2d3s pts_3d1"), 120)

PROPERTIES["C05"] = dict(
    sources=["geometry"], harness="c05_query.cpp",
    bounds="sets of up to 3 symbolic ranges, or of up to 20 ranges at any relative position, against a point, a range or a set; ranks 1..3; " + FAN,
    outside="ranks above 3; exactness of containment with every bound of a rank 2/3 box free (areas are not linear: those bounds are enumerated)",
    quick=RS(20, B20, "rng_1d0 rng_1d1 rng_1d2 set_1d00 set_1d10 set_1d01 set_1d11 set_1d21 set_1d12 set_1d22") +
          RS(20, PIN, "rng_2d1 rng_2d2 rng_3d1 set_2d11") +
          RS(20, "two deep trees at every relative position", "deep2_31s deep2_63s deep2_36s deep2_20_5 deep2_2d42s deep_6s deep_9s") +
          RS(20, SCAT, "scat_pt1 scat_pt2 scat_pt2d scat_pt3 scat_box1 scat_box2 scat_box2d scat_two1 scat_two2 scat_two2d scat_two3 scat_part1") +
          RS(6, SCAT + "; budgeted", "scat_part2 scat_part2d") +
          RS(6, "budgeted", "rng_1d3s rng_2d2s set_1d13s set_1d31s set_2d21s set_2d12s deep_20"))
PROPERTIES["C05"]["thorough"] = deepen(PROPERTIES["C05"]["quick"] + RS(
    200, G30, "rng_1d3 rng_2d3s set_1d23s set_1d32s set_2d22s deep_2d7s one_2d one_3d"), 120)

PROPERTIES["C06"] = dict(
    sources=["geometry"], harness="c06_dims.cpp",
    bounds="sets of up to 3 ranges of rank 1..3; every dimension mask and count; products of ranks 1x1, 1x2, 2x1",
    outside="ranks above 3; volumes of products (only membership is decided there)",
    quick=RS(20, "bounds within +-1000", "dims_1d2 dims_2d0 dims_2d1 dims_3d1 prod_11_11 prod_11_21 prod_11_12 prod_11_22 prod_12_11 "
                                         "prod_11_10 prod_11_01 compact_1d0 compact_2d1") +
          RS(20, PIN, "dims_2d2 prod_21_12") +
          RS(7, "budgeted", "dims_2d3 dims_3d2 compact_1d3 compact_1d3s compact_2d2 compact_2d2p"))
PROPERTIES["C06"]["thorough"] = deepen(PROPERTIES["C06"]["quick"] + RS(200, PIN, "compact_2d3p compact_3d2p"), 120)

PROPERTIES["C07"] = dict(
    sources=["geometry"], harness="c07_canonical.cpp",
    bounds="sets of up to 3 symbolic ranges built in different orders, in bulk, by removal or by intersection; hash: bounds enumerated in 0..5; "
           "iteration: bounds in 0..5 (rank 1) and 0..2 (ranks 2, 3); " + FAN,
    outside="ranks above 3; the hash beyond enumerated sizes (its mixing function is beyond the solver)",
    quick=RS(20, B20, "orders_1d2 orders_1d3 exact_1d11 exact_1d21 exact_1d22 exact_1d10 emptied_2d") +
          RS(20, B20, "emptied", reach=["disjoint", "done"]) +
          RS(20, G30, "orders_1d3s exact_1d31s copies_1 copies_2s alias_0 alias_1 alias_2 alias_2s alias_3s") +
          RS(20, PIN, "orders_2d2 orders_2d2s exact_2d11 exact_2d21s") +
          RS(20, "small grids", "hash_1d3 hash_2d2 iter_1d1 iter_1d2 iter_2d1 iter_2d2 iter_3d1") +
          RS(10, "budgeted", "orders_2d3s copies_3s"))
PROPERTIES["C07"]["thorough"] = deepen(PROPERTIES["C07"]["quick"], 200)

PROPERTIES["C08"] = dict(
    sources=["geometry"], harness="c08_rtree.cpp",
    bounds="trees of up to 80 ranges built in bulk or by insertion, changed by up to 2 symbolic insertions or removals; sets of up to 4 symbolic "
           "ranges; generic trees of up to 21 objects; " + FAN,
    outside="longer histories; fan-outs other than 1..2, 2..4, 3..7, 4..16",
    quick=RS(20, "tree of n separate ranges, symbolic changes", "churn_3s churn_5s churn_9s churn_9b churn_10m churn_10mb churn_20 churn_20b") +
          RS(20, "every size 1..80 and fan-out", "bulk_sizes") +
          RS(20, G30, "sym_1d3 sym_1d4 sym_1d4b") +
          RS(20, PIN, "sym_2d2 sym_2d3b") +
          RS(20, "objects with equal or overlapping boundaries", "obj_3_1") +
          RS(6, "budgeted", "churn_6s2 churn_9m2 sym_2d3 obj_16_1 obj_20_1"))
PROPERTIES["C08"]["thorough"] = deepen(PROPERTIES["C08"]["quick"] + RS(200, "budgeted", "obj_16_2"), 150)
AFF = dict(sources=["geometry", "access"], symextra=["affine_model.cpp"], assumptions=[
    "mlir::AffineMap::compose on integers is replaced by an instrumented evaluator with MLIR's arithmetic (harness/affine_model.cpp); "
    "the native replay uses MLIR's own. The other MLIR affine operations run as they are, on concrete expressions."])

PROPERTIES["C09"] = dict(
    AFF, harness="c09_access.cpp",
    bounds="0..3 dimensions, 1..2 results, each drawn from constants, dimensions, sums, differences, products, divisions, ranges and iteration "
           "spaces with small enumerated constants; coordinates of the point any integer in [-40, 40]; dependent iteration spaces of up to 3 points",
    outside="larger constants in the expressions; deeper expressions; products of two dimensions (not affine)",
    quick=RS(20, "every expression of the pool, |x| <= 40", "roto_11 roto_22 roto_12 roto_21 roto_02 affine_11 affine_22 affine_12 affine_21 "
                                                            "affine_01 any_01 any_11 any_02 any_12 any_21 roto_32") +
          RS(10, "budgeted", "any_22 affine_32") +
          RS(20, "two functions", "eq_111 eq_111r", reach=["equal"]) + RS(20, "two functions", "eq_112 eq_121", reach=[]) +
          RS(4, "budgeted", "eq_222", reach=[]) +
          RS(20, "iteration spaces of 1..3 symbolic points", "dep_1 dep_2 dep_2k dep_3"))
PROPERTIES["C09"]["thorough"] = deepen(PROPERTIES["C09"]["quick"] + RS(200, "wider", "any_32"), 200)

PROPERTIES["C10"] = dict(
    AFF, harness="c10_combine.cpp",
    bounds="functions of 0..2 (inverse: 3) dimensions and 1..2 (3) results from the same pool of expressions; coordinates |x| <= 40 (inverse: 10^6)",
    outside="deeper expressions; larger offsets",
    quick=RS(20, "every pair of the pool", "comb_r1111 comb_r1221 comb_r2112 comb_r0112 comb_a1111 comb_an1111 comb_na1111 comb_nn1111 comb_nn0111") +
          RS(5, "budgeted", "comb_r2222 comb_r2212 comb_a1221 comb_a2112 comb_ar2222 comb_nr1221 comb_nr1222 comb_rn1221 comb_rn2112 comb_nn1221 comb_assoc") +
          RS(20, "every rototranslation of the pool", "inv_11 inv_22 inv_33 desc_11 desc_21 desc_12 desc_22") +
          RS(20, "not square", "inv_12 inv_21", reach=["none"]))
PROPERTIES["C10"]["thorough"] = deepen(PROPERTIES["C10"]["quick"], 200)

PROPERTIES["C11"] = dict(
    AFF, harness="c11_image.cpp",
    bounds="sets of up to 2 symbolic ranges of rank 1..3, rototranslations with offsets up to 2; other affine and multi-valued functions: sets within a "
           "4 or 2x2 grid; parents and accessed sets of up to 2 ranges",
    outside="larger grids",
    quick=RS(20, "rototranslations, symbolic ranges", "img_111 img_112 img_121 img_211 img_212 img_221 img_110 img_220 trip_12 trip_22") +
          RS(8, "budgeted", "img_222 img_321") +
          RS(20, "grid", "grid_111 grid_112 grid_121 grid_211 gridn_111 gridn_121 gridn_211") +
          RS(20, "inverse images", "pre_1122 pre_2211 pre_2201", reach=["done", "invertible"]) +
          RS(20, "inverse images", "pre_1111 pre_1211 pre_2111 pre_2112 pre_a1111 pre_a2111 pre_g1111 pre_g2111 pre_1101 pre_1110 pre_2101 "
                                      "pre_m1111 pre_m2111 pre_m1211 pre_m1121 pre_3111 pre_3101 pre_3211") +
          RS(8, "budgeted", "pre_2212 pre_2221 pre_3311"))
PROPERTIES["C11"]["thorough"] = deepen(PROPERTIES["C11"]["quick"], 200)

WIN = "equation and variable spaces anywhere in a window of 4 (rank 1) or 2x2"
PROPERTIES["C12"] = dict(
    AFF, sources=["modeling"], harness="c12_mcim.cpp",
    bounds="matrices of up to 2 applied accesses and 2 single incidences; spaces: one symbolic range of rank 1 (window 0..4) or 2 (0..2 x 0..2); "
           "accesses: rototranslations with offsets up to 2, other affine functions, ranges and iteration spaces with enumerated constants",
    outside="larger spaces; sequences of more operations; accesses without results (scalars are accessed as element 0 before they get here)",
    quick=RS(20, WIN, "ent_1110 ent_1120 ent_1111 ent_2111 flat_1111 flat_1101 sub_1001 sub_0110 setv_1102 setv_2101 setv_1201 sete_1102 sete_2101 "
                      "sete_1201 space_1102 unset_1111 unset_2110 iter_11 iter_21 rows_1102 cols_1102 "
                      "ent_a1111 ent_a2110 ent_a1210 ent_g1110 ent_g1111 ent_g2110 flat_g1110 sub_g0110 unset_g1110 setv_a1110") +
          RS(7, WIN + "; budgeted", "ent_1112 ent_1121 ent_1211 ent_2211 flat_1120 flat_2110 flat_1210 flat_2210 sum_1010 sum_1011 sum_0110 sum_2_1010 "
                                    "sum_22_1001 sub_1010 sub_2010 sub_1111 sub_2_1010 sub_12_1010 sub_22_1010 rows_1111 rows_2111 rows_1211 cols_1111 "
                                    "cols_2111 cols_1211 sete_1111 setv_1111 space_1111 space_2110 unset_1120 copy_1111 "
                                    "sub_a1010 sub_g1010 sub_g1001 rows_g1110 cols_g1110 sete_g1110 setv_g1110 setv_g2110 space_g1110 unset_g1120 cols_a1111") +
          RS(25, "whole spaces, every access", "eq_22f1010", reach=["different", "equal"]) + RS(20, "whole spaces, every access", "sub_22f1001 flat_21f21") +
          RS(7, "whole spaces, every access; budgeted", "sub_22f1010 sum_22f1010 sub_21f1111 space_22f11 cols_22f11 rows_22f11 setv_22f11 sete_22f11 unset_22f11 flat_22f20") +
          RS(7, WIN + "; budgeted", "eq_1010 eq_1001", reach=["different", "equal"]) +
          RS(7, WIN + "; budgeted", "eq_22d1010 eq_22d1001", reach=["different", "equal"]) +
          RS(7, "spaces and filters of two ranges; budgeted", "two_11d11 two_21d10 tworow_11d02 tworow_11d10 twocol_11d02 twocol_11d10 twocol_21d10 twosp_11d10 twosp_11d02") +
          RS(7, WIN + ", accesses that permute or repeat dimensions; budgeted", "sub_22d1010 space_22d10 space_11d11 cols_22d11 rows_22d11"))
PROPERTIES["C12"]["thorough"] = deepen(PROPERTIES["C12"]["quick"] + RS(200, WIN, "ent_g1210 flat_g1210 sum_g1010"), 200)

PROPERTIES["C13"] = dict(
    AFF, sources=["modeling"], harness="c13_local.cpp",
    bounds="up to 3 access functions of 1..2 dimensions and results on an equation space of one symbolic range (window 0..4 or 2x2), also 20 of one dimension; "
           "matrices of up to 2 accesses and 3 single incidences, also restricted to a range of variables",
    outside="larger spaces; ranks above 2",
    quick=RS(20, WIN, "vaf_111 vaf_121 vaf_211 vaf_221 vaf_112 vaf_a111 vaf_a211 vaf_g111 vaf_g211 mcim_1110 mcim_1102 mcim_2110 mcim_1210 "
                      "mcim_a1110 mcim_a2110 mcim_g1110 mcimr_1110 mcimr_2110") +
          RS(20, "3 and 20 accesses x[i+k], one of them constant", "many_3 many_20") +
          RS(20, "equation space of two ranges", "vaf2_d11 vaf2_d21 vaf2_d22 vaf2_11 vaf2_a11 rows_0 rows_1") +
          RS(20, "equation space of two ranges; budgeted", "vaf2_g11") +
          RS(7, WIN + "; budgeted", "vaf_212 vaf_222 vaf_113 vaf_g121 vaf_g112 vaf_a112 mcim_1111 mcim_1120 mcim_1103 mcim_2210 mcim_2111 "
                                    "mcimr_1111 mcimr_g1110 mcim_g2110 mcim_g1120"))
PROPERTIES["C13"]["thorough"] = deepen(PROPERTIES["C13"]["quick"] + RS(200, WIN, "mcimr_1120 mcimr_2210"), 200)

SYSW = "ranges anywhere in the window; x[i+k] with |k| <= 1 (k = 0 for the larger systems) and x[c]; leaf simplification on or off"
PROPERTIES["C14"] = dict(
    AFF, sources=["modeling"], harness="c14_matching.cpp",
    bounds="up to 3 array equations and 3 array variables with symbolic ranges (up to 9 scalar elements), up to 2 accesses of each variable; up to 4 scalar "
           "equations on 4 scalar variables or on the elements of an array, with every incidence; array and scalar equations on arrays; with and "
           "without leaf simplification and scalarization; tasks in any order for the smaller ones",
    outside="larger systems; preemption of a task by another (each task is atomic); thresholds of scalarization other than the default",
    quick=RS(25, SYSW, "arr_11_2 arr_11_3 arr_21_1 arr_21_1w gen_11_1 gen_11_2 mix_22 ord_arr ord_mix", reach=["matched", "unmatched"]) +
          RS(20, "scalar and mixed systems", "sc_33 sca_33 mix_21 mix_31 mix_32 mix_42 mix_42n gen_mix21", reach=["matched", "unmatched"]) +
          RS(20, "any number of equations and variables", "all_11_1 all_11_2 all_mix21 all_mix31 all_rk21 all_rk22 all_rk12 all_rk11", reach=["matched", "unmatched"]) +
          RS(20, "any number of equations and variables", "all_sc23 all_sc32 all_sca23", reach=["unmatched"]) +
          RS(4, SYSW + "; budgeted", "arr_12_1 arr_22_1 arr_22_1w arr_22_0 arr_22_2 arr_21_2 arr_31_1 arr_32_1 sc_44 sca_44 sca_44n mix_22n mix_23 gen_21_1 "
                                     "gen_mix22 ord_sc33 ord_sca22 all_21_1 all_12_1 all_rk222", reach=["unmatched"]))
PROPERTIES["C14"]["thorough"] = deepen(PROPERTIES["C14"]["quick"] + RS(120, SYSW, "mix_33", reach=["unmatched"]), 200)

DIRW = "scalar relations decided over every point of the window"
PROPERTIES["C15"] = dict(
    AFF, sources=["modeling"], harness="c15_schedule.cpp",
    bounds="one equation of rank 1 (window 4) or 2 (2x2, 3x3) with up to 2 reads of the variable it writes, also on index sets of two ranges; up to 4 equations "
           "in any dependency order, with and without loops among them; x[i+k] with |k| <= 2, affine accesses, ranges and iteration spaces",
    outside="larger systems; several write accesses per equation; how the loops of a schedule are lowered",
    quick=RS(20, DIRW, "one_1 one_2 one_s1 two_1 two_1w one_g1 one_g2 one_o1 rk_12 rk_21 sev_2 sev_2w sev_3s sev_21 "
                             "shift_2s shift_3s shift_22 shift_22w", reach=["scheduled"]) +
          RS(7, DIRW + "; budgeted", "two_2 rk_12_2 sev_3 two_g1 two_s1 sev_4s sev_22 shift_22s", reach=["scheduled"]))
PROPERTIES["C15"]["thorough"] = deepen(PROPERTIES["C15"]["quick"], 200)

PROPERTIES["C16"] = dict(
    AFF, sources=["modeling"], harness="c16_sccs.cpp",
    bounds="up to 4 scalar equations with every dependency; up to 3 array equations of rank 1 (window 3..4) or 2 (2x2), each reading up to 2 of the variables; "
           "an array variable shared by up to 3 equations; x[i+k] with |k| <= 1, affine accesses, ranges and iteration spaces; tasks in any order for the smaller ones",
    outside="larger systems; preemption of a task by another (each task is atomic)",
    quick=RS(25, DIRW, "sc_2 sc_3 sc_4 arr_2 arr_2w arr_2s arr_22 sh_2 sh_22 sh_3 g_2 g_sh2 ord_2 ord_3", reach=["components"]) +
          RS(7, DIRW + "; budgeted", "arr_3 arr_31 pl_2", reach=["components"]))
PROPERTIES["C16"]["thorough"] = deepen(PROPERTIES["C16"]["quick"], 200)

HERE = os.path.dirname(os.path.abspath(__file__))
# std::string and friends are instrumented too
PRE = ["-include", os.path.join(HERE, "engine", "sym_pre.h")]
PROPERTIES["C17"] = dict(
    sources=["lexer"], harness="c17_lexer.cpp", symextra=["stringmap.cpp"], symflags=PRE,
    bounds="every text of up to 2 bytes; every text of 3 to 6 characters from the alphabets of numbers, operators, identifiers, strings, quoted identifiers and "
           "comments; every word of up to 13 lower-case letters; every integer of up to 9 and near 2^63; fractions of up to 2 digits, exponents of up to 308, "
           "numbers of up to 25 digits before and 53 after the point; rows of 3 of 10 numbers, or of 12 other tokens",
    outside="longer texts in general position; bytes above 127 in longer texts; decimal values are compared with a relative tolerance of 1e-13 (1e-15 for short ones)",
    quick=RS(30, "every text of n bytes", "lex_any1 lex_any2", reach=["done", "error"]) +
          RS(20, "every text over an alphabet", "lex_any3 lex_str lex_qid lex_cmt lex_op lex_ident", reach=["done", "error"]) +
          RS(10, "every word", " ".join("lex_word%d" % n for n in range(2, 14))) +
          RS(20, "every number", "lex_int4 lex_int9 lex_intmax lex_val0 lex_val2 lex_exp lex_long") +
          RS(20, "every row of 3 of 10 numbers; of 12 words", "lex_seq lex_row", reach=["done"]) +
          RS(20, "every number", "lex_intbig", reach=["error"]) +
          RS(4, "every text over an alphabet; budgeted", "lex_num4 lex_num5 lex_num6"))
PROPERTIES["C17"]["thorough"] = deepen(PROPERTIES["C17"]["quick"] + RS(200, "every number", "lex_val1 lex_val3"), 300)

PARSER = dict(sources=["parser"], clang=True,
              symflags=PRE + ["-DVERIF_SYM", "-iquote", os.path.join(HERE, "harness", "shadow")],
              symdrop=["lib/Parser/BaseModelica/StateMachine.cpp", "lib/Parser/BaseModelica/Token.cpp"])
EXPRS = "rhs call arr sub par ifx dim asg der extc".split()
STMTS = "root body eq alg prot init elem mod ann eif efor ewhen tup sif sfor swhile swhen ext".split()
TOKS = "every sequence of n tokens in the context"
FRAGS = "every sequence of n fragments"
OPSW = "operands joined by any tokens"


def ctx(names, n, budget, note=""):
    return RS(budget, TOKS + note, " ".join("%s_%d" % (c, n) for c in names), reach=[])


PROPERTIES["C18"] = dict(
    PARSER, harness="c18_parser.cpp",
    bounds="every sequence of up to 3 tokens (some contexts 4 or 5) in each of 28 contexts (the file, a class, sections, elements, equations, statements, expressions, "
           "arguments, arrays, subscripts, ...), and every sequence of 3 or 4 fragments of equations, statements, sections, elements and calls",
    outside="longer sequences in general position; nesting deep enough to exhaust the stack",
    quick=ctx(EXPRS + STMTS, 1, 10) + ctx(EXPRS + STMTS, 2, 10) + ctx(EXPRS + STMTS, 3, 15) +
          ctx("elem mod ann efor ext init".split(), 4, 15) + ctx(["efor"], 5, 15) +
          RS(15, FRAGS, "equations_4 statements_3 sections_3 elements_3 calls_4 args_4 arrays_4 ifs_4", reach=["accepted", "rejected"]) +
          RS(4, TOKS + "; budgeted", "rhs_4 call_4 sub_4 body_4 alg_4 prot_4", reach=[]))
PROPERTIES["C18"]["thorough"] = deepen(
    PROPERTIES["C18"]["quick"] + ctx(EXPRS + STMTS, 4, 100) + ctx("root mod ann elem ext".split(), 5, 100) +
    RS(100, FRAGS, "equations_5 statements_4 sections_4 elements_4 calls_5", reach=[]), 100)

TREE = dict(PARSER, harness="c19_tree.cpp")
PROPERTIES["C19"] = dict(
    TREE,
    bounds="every sequence of up to 3 tokens in each of 10 contexts of expressions (right-hand sides, arguments, arrays, subscripts, parentheses, conditionals, "
           "dimensions, derivatives), up to 4 operands joined by any tokens, nested conditionals, and every sequence of 4 fragments of calls and of 5 of "
           "arguments, arrays and conditionals",
    outside="longer expressions in general position",
    quick=ctx(EXPRS, 1, 10) + ctx(EXPRS, 2, 10) + ctx(EXPRS, 3, 15) +
          RS(20, OPSW, "ops_2 ops_3 cond_0 calls_3 calls_4", reach=[]) +
          RS(20, FRAGS, "args_4 args_5 arrays_4 arrays_5 ifs_4 ifs_5", reach=["accepted", "rejected"]) +
          RS(4, OPSW + "; budgeted", "uops_2 cond_1 " + " ".join("%s_4" % c for c in EXPRS), reach=[]))
PROPERTIES["C19"]["thorough"] = deepen(PROPERTIES["C19"]["quick"] + ctx(EXPRS, 4, 200) + RS(200, OPSW, "ops_4 uops_3 calls_5 args_6 arrays_6 ifs_6", reach=[]), 200)

PROPERTIES["C20"] = dict(
    TREE,
    bounds="every sequence of up to 3 tokens (some contexts 4 or 5) in each of 18 contexts (the file, a class, sections, elements, modifications, annotations, equations, "
           "statements, external clauses), and every sequence of 3 to 5 fragments of equations, statements, sections and elements",
    outside="longer sequences in general position",
    quick=ctx(STMTS, 1, 10) + ctx(STMTS, 2, 10) + ctx(STMTS, 3, 15) +
          ctx("elem mod ann efor ext init".split(), 4, 15) + ctx(["efor"], 5, 15) +
          RS(20, FRAGS, "equations_4 equations_5 statements_3 statements_4 sections_3 sections_4 elements_3", reach=[]) +
          RS(4, TOKS + "; budgeted", "body_4 eq_4 alg_4 prot_4 root_4 elements_4 swhile_4 swhen_4 sif_4", reach=[]))
PROPERTIES["C20"]["thorough"] = deepen(
    PROPERTIES["C20"]["quick"] + ctx(STMTS, 4, 100) + ctx("root mod ann elem ext".split(), 5, 100) +
    RS(200, FRAGS, "equations_6 statements_5 sections_5 elements_5", reach=[]), 100)

PROPERTIES["C21"] = dict(
    PARSER, harness="c21_copy.cpp",
    bounds="the trees of every sequence of up to 3 tokens in each of 28 contexts, and of 3 or 4 fragments of equations, statements, sections, elements and calls",
    outside="trees that only longer texts can have; trees changed after they were parsed",
    quick=ctx(EXPRS + STMTS, 2, 10) + ctx(EXPRS + STMTS, 3, 15) +
          RS(15, FRAGS, "equations_4 statements_3 sections_3 elements_3 calls_4", reach=["accepted"]))
PROPERTIES["C21"]["thorough"] = deepen(
    PROPERTIES["C21"]["quick"] + RS(200, FRAGS, "equations_6 statements_5 sections_5 elements_5 calls_5", reach=[]), 200)

TEXTS = "every text of the form"
PROPERTIES["C22"] = dict(
    sources=["filter"], harness="c22_filter.cpp", symextra=["stringmap.cpp"], symflags=PRE, clang=True,
    flags=["-iquote", os.path.join(HERE, "harness", "shadow_vf")],
    bounds="every text of up to 2 bytes; texts with up to 5 free characters in lists, arrays, bounds, derivatives and regular expressions; queries of 4 names with rank 0 to 2",
    outside="longer texts in general position; the matching of regular expressions itself (LLVM's) is trusted",
    quick=RS(20, TEXTS, "any_1 any_2 any_3 list_4 list_5 arr_3 arr_4 low_3 bound_3 bound_4 ranges_3 ranges_4 two_2 two_4 der_4 der_5 dero_3 dero_4 ders_2 ders_3 kw_4 kw_5 rx_2 rx_3 "
                         "rx2_3 rx2_4 mid_3 mid_4 mid_5 big_int big_uint big_long big_ulong", reach=[]) +
          RS(20, "every row of 2 or 3 of 10 words", "whole_2 whole_3", reach=["accepted", "rejected"]) +
          RS(20, "every list of 2 or 3 of 10 elements", "parts_2 parts_3", reach=["accepted"]))
PROPERTIES["C22"]["thorough"] = deepen(PROPERTIES["C22"]["quick"] + RS(100, TEXTS, "arr_5 bound_5 ranges_5 two_5 dero_5 ders_4 rx_4 rx2_5", reach=[]) + RS(100, "every list of 4 of 10 elements", "parts_4", reach=["accepted"]), 100)

PROPERTIES["C23"] = dict(
    sources=["geometry", "dialect"], harness="c23_dialect.cpp",
    bounds="sets of up to 3 ranges of rank 1 to 3 (bounds to 2^40 for one, 2^20 for two; windows of 2 to 7 where MLIR prints or uniques the values), lists of up to 3 sets of rank 0 to 2",
    outside="larger sets; MLIR's own encoding, parser and printer are trusted",
    quick=RS(20, "bytecode", "bytes_11 bytes_12 bytes_13 bytes_21 bytes_22 bytes_31 bytes_list") +
          RS(20, "attributes", "attr_11 attr_12 attr_13 attr_21 attr_list range_attr box_attr1 box_attr2 box_attr3") +
          RS(20, "text", "text_10 text_11 text_12 text_13 text_21 text_22 text_list"))
PROPERTIES["C23"]["thorough"] = deepen(PROPERTIES["C23"]["quick"], 200)

for _id, _p in PROPERTIES.items():
    for _r in _p["quick"]:
        if "budgeted" in _r["bounds"]:
            _r["budget"] = min(_r["budget"], 2.5 if _id == "C12" else 4)
