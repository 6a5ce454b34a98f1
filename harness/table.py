# per property: harness files, streams (variant, cases per stream in the quick tier, number of parallel streams[, kind of case][, "xl": large inputs]), thorough factor
def S(*s): return list(s)
CHECKS = {
 "A01": dict(files=["a_arith.cpp"], streams=S(("asan", 600000, 8)), thorough=8),
 "A02": dict(files=["a_arith.cpp"], streams=S(("asan", 150000, 8), ("asan", 1, 6, "long")), thorough=8, hang=120),
 "A03": dict(files=["a_arith.cpp"], streams=S(("asan", 200000, 8), ("asan", 2, 6, "long")), thorough=8, hang=120),
}
CHECKS.update({
 "B01": dict(files=["b_containers.cpp"], streams=S(("asan", 100000, 8), ("asan", 80, 8, "xl"), ("asan", 16, 8, "strip")), thorough=20, hang=60),
 "B02": dict(files=["b_containers.cpp"], streams=S(("asan", 60000, 8), ("asan", 80, 8, "xl"), ("asan", 16, 8, "strip")), thorough=20, hang=60),
 "B03": dict(files=["b_containers.cpp"], streams=S(("asan", 50000, 8), ("asan", 80, 8, "xl")), thorough=20),
 "B04": dict(files=["b_containers.cpp"], streams=S(("asan", 50000, 8), ("asan", 80, 8, "xl"), ("asan", 6, 8, "strip")), thorough=20, hang=60),
 "B05": dict(files=["b_malformed.cpp"], streams=S(("asan", 60000, 8)), thorough=20),
 "B06": dict(files=["b_containers.cpp"], streams=S(("asan", 25000, 8)), thorough=20),
})
CHECKS.update({
 "C01": dict(files=["c_linear.cpp"], streams=S(("asan", 60000, 8), ("asan", 80, 8, "xl"), ("asan", 16, 8, "strip")), thorough=20, hang=60),
 "C02": dict(files=["c_linear.cpp"], streams=S(("asan", 60000, 8), ("asan", 80, 8, "xl"), ("asan", 16, 8, "strip")), thorough=20, hang=60),
 "C03": dict(files=["c_linear.cpp"], streams=S(("asan", 30000, 8), ("asan", 80, 8, "xl"), ("asan", 16, 8, "strip")), thorough=20, hang=60),
 "C04": dict(files=["c_linear.cpp"], streams=S(("asan", 10000, 4), ("sched", 10000, 4), ("asan", 80, 8, "xl"), ("asan", 12, 8, "strip")), thorough=20, hang=60),
 "C05": dict(files=["c_linear.cpp"], streams=S(("asan", 10000, 4), ("sched", 10000, 4), ("asan", 80, 8, "xl"), ("asan", 6, 8, "strip")), thorough=20, hang=60),
 "C06": dict(files=["c_linear.cpp"], streams=S(("asan", 6000, 4), ("sched", 6000, 4), ("asan", 80, 8, "xl"), ("asan", 8, 8, "strip")), thorough=20, hang=60),
 "C07": dict(files=["c_linear.cpp"], streams=S(("asan", 8000, 8), ("asan", 12, 8, "xl")), thorough=20),
})
CHECKS.update({
 "D01": dict(files=["d_elim.cpp"], streams=S(("asan", 10000, 5), ("sched", 7000, 3), ("asan", 40, 8, "xl"), ("asan", 8, 8, "strip"), ("asan", 60, 8, "stretches", "xl")), thorough=20, hang=60),
 "D02": dict(files=["d_elim.cpp"], streams=S(("asan", 10000, 5), ("sched", 7000, 3), ("asan", 40, 8, "xl"), ("asan", 8, 8, "strip")), thorough=20, hang=60),
 "D03": dict(files=["d_elim.cpp"], streams=S(("asan", 10000, 5), ("sched", 7000, 3), ("asan", 40, 8, "xl"), ("asan", 4, 8, "strip")), thorough=20, hang=60),
 "D04": dict(files=["d_elim.cpp"], streams=S(("asan", 10000, 5), ("sched", 7000, 3), ("asan", 40, 8, "xl"), ("asan", 4, 8, "strip")), thorough=20, hang=60),
 "D05": dict(files=["d_elim.cpp"], streams=S(("asan", 10000, 5), ("sched", 7000, 3), ("asan", 40, 8, "xl"), ("asan", 8, 8, "strip")), thorough=20, hang=60),
 "D06": dict(files=["d_elim.cpp"], streams=S(("asan", 8000, 8), ("asan", 40, 8, "xl"), ("asan", 2, 8, "strip")), thorough=20, hang=60),
 "D07": dict(files=["d_elim.cpp"], streams=S(("asan", 12000, 8), ("asan", 40, 8, "xl"), ("asan", 8, 8, "strip")), thorough=20, hang=60),
 "D08": dict(files=["d_elim.cpp"], streams=S(("asan", 15000, 8), ("asan", 40, 8, "xl"), ("asan", 8, 8, "strip")), thorough=20, hang=60),
})
CHECKS.update({
 "E01": dict(files=["e_graph.cpp"], streams=S(("asan", 60000, 8), ("asan", 80, 8, "xl"), ("asan", 16, 8, "strip")), thorough=20, hang=60),
 "E02": dict(files=["e_graph.cpp"], streams=S(("asan", 60000, 8), ("asan", 80, 8, "xl"), ("asan", 16, 8, "strip")), thorough=20, hang=60),
 "E03": dict(files=["e_graph.cpp"], streams=S(("asan", 60000, 8), ("asan", 80, 8, "xl"), ("asan", 16, 8, "strip")), thorough=20, hang=60),
})
CHECKS.update({
 "F01": dict(files=["f_sched.cpp"], streams=S(("asan", 3000, 3), ("sched", 4000, 5)), thorough=20),
 "F02": dict(files=["f_faults.cpp"], streams=S(("asan", 6000, 5), ("sched", 3000, 3)), thorough=20),
 "F04": dict(files=["f_faults.cpp"], streams=S(("asan", 4000, 5), ("sched", 3000, 3), ("asan", 3, 8, "strip")), thorough=20, hang=60),
 "F05": dict(files=["f_faults.cpp"], streams=S(("asan", 30000, 3), ("sched", 40000, 5)), thorough=20),
 "F03": dict(files=["f_faults.cpp"], streams=S(("asan", 4000, 5), ("sched", 3000, 3)), thorough=20),
})
CHECKS.update({
 "G01": dict(files=["g_tools.cpp"], streams=S(("asan", 600, 8), ("asan", 24, 8, "xl")), thorough=20, tools=True, hang=120),
 "G02": dict(files=["g_tools.cpp"], streams=S(("asan", 600, 8), ("asan", 24, 8, "xl")), thorough=20, tools=True, hang=120),
 "G03": dict(files=["g_tools.cpp"], streams=S(("asan", 600, 8), ("asan", 12, 8, "xl")), thorough=20, tools=True, hang=120),
})
