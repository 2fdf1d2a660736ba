"""What each check runs: suites of executions, models, script generators."""

GA_GEN = """SPECIFICATION Spec
CONSTANT Enforce = {"C01","C02","C06","C07","C08","C09","C10","C29"}
CONSTANTS N0 = {0,1,2,3,4} Vals <- ValsAll Fams = {0,1,2} FamSizes = {0,1,2,3} Kids = {0,1,2}
 NPre = {0,1,2} NSel = {0,1,2} NLog={0,1,2} MaxIter=5 MaxCalls=5 MaxPop=5 MaxEvals=100
 Lim=%d Record=TRUE Rename=%s
INVARIANTS TypeOK InvBest InvWorst InvNoneYet InvEvals InvResume InvFresh PrintScript
CHECK_DEADLOCK FALSE
"""

SUITES = {
    "ga": {"spec": "GeneticTrace"},
    "ga-script": {"spec": "GeneticTrace",
                  "gen": {"mode": "simulate", "module": "GeneticMC", "cfg": GA_GEN % (0, "TRUE")}},
    "ga-script-lim": {"spec": "GeneticTrace", "cmd": "ga-script",
                      "gen": {"mode": "simulate", "module": "GeneticMC", "cfg": GA_GEN % (2, "FALSE")}},
}

PSO_GEN = """SPECIFICATION Spec
CONSTANT Enforce = {"C06","C07","C08","C09","C10","C11","C12","C13","C29"}
CONSTANTS N0 = {0,1,2,3} Dim = %d Coords <- CoordsAll Vels <- CoordsAll Vals <- ValsAll
 NCv = {0,1,2} NPm = {0,1,2} NLog = {0,1,2} MaxIter = 4 MaxCalls = 5 MaxEvals = 100
 Record = TRUE Rename = TRUE
INVARIANTS TypeOK InvBest InvMemory InvWorst InvMotion InvEvals InvResume InvFresh InvFreshBest PrintScript
CHECK_DEADLOCK FALSE
"""
SUITES.update({
    "pso": {"spec": "SwarmTrace"},
    "pso-rules": {"spec": "SwarmTrace"},
    "pso-again": {"spec": "SwarmTrace"},
    "pso-script": {"spec": "SwarmTrace",
                   "gen": {"mode": "simulate", "module": "SwarmMC", "cfg": PSO_GEN % 1}},
    "pso-script2": {"spec": "SwarmTrace", "cmd": "pso-script",
                    "gen": {"mode": "simulate", "module": "SwarmMC", "cfg": PSO_GEN % 2}},
})

GA_INV = """INVARIANTS TypeOK InvBest InvWorst InvNoneYet InvEvals InvLog InvResume InvFresh InvLimit
PROPERTIES Elitist OneStep Stable SurvivorsOnly
"""
GA_MC = """SPECIFICATION Spec
CONSTANT Enforce = {"C01","C02","C06","C07","C08","C09","C10","C29"}
CONSTANTS Record=FALSE %s
""" + GA_INV

MODELS = {
    # two generations of one run, arbitrary plug-ins
    "ga-pipeline": {"module": "GeneticMC", "cfg": GA_MC %
                    "Rename=FALSE N0={0,2} Vals <- ValsThree Fams={0,1} FamSizes={0,2} Kids={0,2} NPre={0,1} NSel={0,1} "
                    "NLog={0} MaxIter=1 MaxCalls=1 MaxPop=3 MaxEvals=5 Lim=0"},
    # calls, pauses, loggers
    "ga-calls": {"module": "GeneticMC", "cfg": GA_MC %
                 "Rename=FALSE N0={0,1} Vals <- ValsNum Fams={0,1} FamSizes={1} Kids={1} NPre={0} NSel={1} "
                 "NLog={0,2} MaxIter=2 MaxCalls=3 MaxPop=1 MaxEvals=4 Lim=0"},
    # plug-ins replaced between the calls
    "ga-replace": {"module": "GeneticMC", "cfg": GA_MC %
                 "Rename=TRUE N0={0,1} Vals <- ValsNum Fams={0,1} FamSizes={1} Kids={1} NPre={0,1} NSel={0,1} "
                 "NLog={0,1} MaxIter=1 MaxCalls=3 MaxPop=1 MaxEvals=3 Lim=0"},
    # the shipped selections never lose the best
    "ga-elite": {"module": "GeneticMC", "cfg": GA_MC %
                 "Rename=FALSE N0={1,2} Vals <- ValsFour Fams={1} FamSizes={1} Kids={0,1,2} NPre={0} NSel={2} "
                 "NLog={0} MaxIter=2 MaxCalls=2 MaxPop=3 MaxEvals=5 Lim=1"},
}

PSO_MC = """SPECIFICATION Spec
CONSTANT Enforce = {"C06","C07","C08","C09","C10","C11","C12","C13","C29"}
CONSTANTS Record = FALSE %s
INVARIANTS TypeOK InvBest InvMemory InvWorst InvMotion InvEvals InvLog InvResume InvFresh InvFreshBest
PROPERTIES BestStays BestMonotone BestStrict OnlyOwn OneStep
"""
MODELS.update({
    # two particles, one search, positions, memories and extremes
    "pso-motion": {"module": "SwarmMC", "cfg": PSO_MC %
                   "Rename=FALSE N0={2} Dim=1 Coords <- CoordsTwo Vels <- CoordsTwo Vals <- ValsThree NCv={0,1} NPm={0,1} "
                   "NLog={0} MaxIter=1 MaxCalls=1 MaxEvals=4"},
    "pso-memory": {"module": "SwarmMC", "cfg": PSO_MC %
                   "Rename=FALSE N0={1} Dim=1 Coords <- CoordsTwo Vels <- VelsTwo Vals <- ValsFour NCv={0} NPm={0} "
                   "NLog={0} MaxIter=3 MaxCalls=1 MaxEvals=6"},
    "pso-motion-big": {"module": "SwarmMC", "workers": 6, "heap": "8g", "cfg": PSO_MC %
                   "Rename=FALSE N0={0,2} Dim=1 Coords <- CoordsTwo Vels <- VelsTwo Vals <- ValsThree NCv={0,1} NPm={0,1} "
                   "NLog={0} MaxIter=2 MaxCalls=1 MaxEvals=6"},
    # calls, pauses, loggers
    "pso-calls": {"module": "SwarmMC", "cfg": PSO_MC %
                  "Rename=TRUE N0={0,1} Dim=1 Coords <- CoordsTwo Vels <- VelsTwo Vals <- ValsTwo NCv={0} NPm={0,1} "
                  "NLog={0,2} MaxIter=1 MaxCalls=3 MaxEvals=4"},
})

GA = [("ga", 700, 12000), ("ga-script", 400, 8000)]

PROPS = {
    "C01": {"suites": GA, "models": ["ga-pipeline"]},
    "C02": {"suites": GA, "models": ["ga-pipeline"]},
    "C03": {"suites": [("ga", 900, 15000), ("ga-script-lim", 300, 6000)], "models": ["ga-elite"]},
    "C06": {"suites": GA, "models": ["ga-pipeline"]},
    "C07": {"suites": GA, "models": ["ga-calls", "ga-replace"]},
    "C08": {"suites": GA, "models": ["ga-calls", "ga-replace"]},
    "C09": {"suites": GA, "models": ["ga-calls", "ga-replace"]},
    "C10": {"suites": GA, "models": ["ga-calls"]},
}

PSO = [("pso", 500, 9000), ("pso-script", 200, 4000), ("pso-script2", 100, 2000)]
for c in ("C06", "C07", "C08", "C09", "C10"):
    PROPS[c]["suites"] = PROPS[c]["suites"] + PSO
    PROPS[c]["models"] = PROPS[c]["models"] + ["pso-calls"]
for c in ("C09", "C10"):
    PROPS[c]["suites"] = PROPS[c]["suites"] + [("pso-again", 120, 2000)]
PROPS.update({
    "C11": {"suites": PSO, "models": ["pso-motion", "pso-memory"], "models_thorough": ["pso-motion-big"]},
    "C12": {"suites": PSO, "models": ["pso-motion", "pso-memory"], "models_thorough": ["pso-motion-big"]},
    "C13": {"suites": [("pso-rules", 96, 600)] + PSO, "models": ["pso-motion", "pso-memory"], "models_thorough": ["pso-motion-big"]},
})

# ---- components ----

SELECT_MC = """SPECIFICATION Spec
CONSTANT Enforce = {"C04","C05"}
CONSTANTS MaxLen=%s MaxOps=%s Emit=%s
INVARIANTS Possible Bounded Deterministic PrintScript
PROPERTIES NoRevival KeepsBest Twice
CHECK_DEADLOCK FALSE
"""
PAIR_MC = """SPECIFICATION Spec
CONSTANT Enforce = {"C18"}
CONSTANTS MaxLen=%s MaxRounds=%s Emit=%s
INVARIANTS IsBest Possible NoNaN Covered PrintScript
PROPERTIES Ends
CHECK_DEADLOCK FALSE
"""
SHAPES_MC = """SPECIFICATION Spec
CONSTANT Enforce = {"C33"}
CONSTANTS MaxLen=%s MaxSize=%s Emit=%s
INVARIANTS Sane Decided OneFits Parents Useful PrintScript
PROPERTIES Kept
CHECK_DEADLOCK FALSE
"""
SUITES.update({
    "shapes": {"spec": "ShapesTrace"},
    "shapes-script": {"spec": "ShapesTrace", "gen": {"mode": "enumerate", "module": "ShapesMC",
                                                     "cfg": SHAPES_MC % ("@N@", 2, "TRUE")}},
    "select": {"spec": "SelectTrace"},
    "select-script": {"spec": "SelectTrace", "gen": {"mode": "enumerate", "module": "SelectMC",
                                                     "cfg": SELECT_MC % ("@N@", 0, "TRUE")}},
    "pairing": {"spec": "PairingTrace"},
    "pairing-script": {"spec": "PairingTrace", "gen": {"mode": "enumerate", "module": "PairingMC",
                                                       "cfg": PAIR_MC % ("@N@", 0, "TRUE")}},
})
MODELS.update({
    "select": {"module": "SelectMC", "cfg": SELECT_MC % (3, 2, "FALSE")},
    "pairing": {"module": "PairingMC", "cfg": PAIR_MC % (3, 3, "FALSE")},
    "shapes": {"module": "ShapesMC", "cfg": SHAPES_MC % (1, 3, "FALSE")},
})
SELECT = [("select", 1500, 30000), ("select-script", 3, 4)]
PROPS.update({
    "C04": {"suites": SELECT, "models": ["select"], "kind": "comp"},
    "C05": {"suites": SELECT, "models": ["select"], "kind": "comp"},
    "C33": {"suites": [("shapes", 1200, 20000), ("shapes-script", 3, 4)], "models": ["shapes"], "kind": "comp"},
    "C18": {"suites": [("pairing", 150, 1500), ("pairing-script", 3, 4)], "models": ["pairing"], "kind": "comp"},
})

BOX_MC = """SPECIFICATION Spec
CONSTANT Enforce = {"C14","C15","C19"}
CONSTANTS MaxDim=%s MaxSteps=%s Emit=%s
INVARIANTS Contained Possible LimitOk PrintScript
PROPERTIES StaysIn Idempotent NeverMoves
CHECK_DEADLOCK FALSE
"""
SUITES.update({
    "limits": {"spec": "BoxTrace"},
    "moves": {"spec": "BoxTrace"},
    "creation": {"spec": "BoxTrace"},
    "box-script": {"spec": "BoxTrace", "gen": {"mode": "enumerate", "module": "BoxMC",
                                               "cfg": BOX_MC % ("@N@", 0, "TRUE")}},
})
MODELS["box"] = {"module": "BoxMC", "cfg": BOX_MC % (2, 2, "FALSE")}
PROPS.update({
    "C14": {"suites": [("limits", 1500, 40000), ("box-script", 2, 3)], "models": ["box"], "kind": "comp"},
    "C15": {"suites": [("moves", 400, 6000), ("box-script", 2, 3), ("pso", 400, 8000), ("ga", 500, 8000)],
            "models": ["box"], "kind": "both"},
    "C19": {"suites": [("creation", 200, 3000)], "models": ["box"], "kind": "comp"},
})

BITS_MC = """SPECIFICATION Spec
CONSTANT Enforce = {"C16","C17","C20"}
CONSTANTS MaxLen=%s MaxFlips=%s Emit=%s
INVARIANTS Arithmetic Chunked Complete Telling Parity PrintScript
CHECK_DEADLOCK FALSE
"""
SUITES.update({
    "bytes": {"spec": "BitsTrace"},
    "words": {"spec": "BitsTrace"},
    "mutation": {"spec": "BitsTrace"},
    "numeric": {"spec": "BitsTrace"},
    "bits-script": {"spec": "BitsTrace", "gen": {"mode": "enumerate", "module": "BitsMC",
                                                 "cfg": BITS_MC % ("@N@", 0, "TRUE")}},
})
MODELS["bits"] = {"module": "BitsMC", "cfg": BITS_MC % (4, 4, "FALSE")}
PROPS.update({
    "C16": {"suites": [("bytes", 256, 256), ("words", 300, 8000), ("bits-script", 4, 5)], "models": ["bits"], "kind": "comp"},
    "C17": {"suites": [("mutation", 300, 8000), ("bits-script", 3, 5)], "models": ["bits"], "kind": "comp"},
    "C20": {"suites": [("numeric", 400, 10000), ("bits-script", 3, 5)], "models": ["bits"], "kind": "comp"},
})

STOP_MC = """SPECIFICATION Spec
CONSTANT Enforce = {"C21","C22"}
CONSTANTS Depth=%s Trees <- Trees%s Vals <- Vals%s Emit=%s
INVARIANTS Meaning AsFresh Many PrintScript
PROPERTIES Repeats
CHECK_DEADLOCK FALSE
"""
SUITES.update({
    "stop": {"spec": "StopTrace"},
    "stop-single": {"spec": "StopTrace", "cmd": "stop-script",
                    "gen": {"mode": "enumerate", "module": "StopMC", "cfg": STOP_MC % ("@N@", "Single", "Small", "TRUE")}},
    "stop-odd": {"spec": "StopTrace", "cmd": "stop-script",
                 "gen": {"mode": "enumerate", "module": "StopMC", "cfg": STOP_MC % ("@N@", "Single", "Odd", "TRUE")}},
    "stop-basic": {"spec": "StopTrace", "cmd": "stop-script",
                   "gen": {"mode": "enumerate", "module": "StopMC", "cfg": STOP_MC % ("@N@", "Basic", "Odd", "TRUE")}},
    "stop-composite": {"spec": "StopTrace", "cmd": "stop-script",
                       "gen": {"mode": "enumerate", "module": "StopMC", "cfg": STOP_MC % ("@N@", "Composite", "Small", "TRUE")}},
})
SUITES["stop-long"] = {"spec": "StopTrace"}
MODELS["stop"] = {"module": "StopMC", "cfg": STOP_MC % (4, "Single", "Small", "FALSE")}
MODELS["stop-deep"] = {"module": "StopMC", "cfg": STOP_MC % (5, "All", "Small", "FALSE"), "workers": 6}
PROPS.update({
    "C21": {"suites": [("stop", 1500, 30000), ("stop-long", 60, 600), ("stop-basic", 3, 4), ("stop-composite", 2, 3)],
            "models": ["stop"], "models_thorough": ["stop-deep"], "kind": "comp"},
    "C22": {"suites": [("stop", 1500, 30000), ("stop-long", 60, 600), ("stop-single", 3, 4), ("stop-odd", 3, 4), ("stop-composite", 2, 3)],
            "models": ["stop"], "models_thorough": ["stop-deep"], "kind": "comp"},
})

STATS_MC = """SPECIFICATION Spec
CONSTANT Enforce = {"C23","C24","C25","C26"}
CONSTANTS Mode="%s" Depth=%s Emit=%s
INVARIANTS SameLength Faithful Kept Counted Meant Between Success Table PrintScript
CHECK_DEADLOCK FALSE
"""
for s in ("records", "counters", "aggregates", "rates"):
    SUITES[s] = {"spec": "StatsTrace"}
for m in ("record", "count", "agg", "conv", "rate"):
    SUITES["stat-" + m] = {"spec": "StatsTrace", "cmd": "stat-script",
                           "gen": {"mode": "enumerate", "module": "StatsMC", "cfg": STATS_MC % (m, "@N@", "TRUE")}}
    MODELS["stats-" + m] = {"module": "StatsMC", "cfg": STATS_MC % (m, 4 if m in ("record", "count") else 3, "FALSE")}
PROPS.update({
    "C23": {"suites": [("records", 400, 9000), ("stat-record", 5, 6)], "models": ["stats-record"], "kind": "both"},
    "C24": {"suites": [("aggregates", 300, 9000), ("stat-agg", 3, 4), ("stat-conv", 3, 3)],
            "models": ["stats-agg", "stats-conv"], "kind": "comp"},
    "C25": {"suites": [("rates", 300, 9000), ("stat-rate", 2, 3)], "models": ["stats-rate"], "kind": "comp"},
    "C26": {"suites": [("counters", 400, 9000), ("records", 150, 3000), ("stat-count", 4, 5), ("ga", 300, 6000), ("pso", 250, 5000)],
            "models": ["stats-count"], "kind": "both"},
})

TEXT_MC = """SPECIFICATION Spec
CONSTANT Enforce = {"C27"}
CONSTANTS Depth=%s MaxA=%s Emit=%s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
SUITES.update({
    "text": {"spec": "TextLogTrace"},
    "text-script": {"spec": "TextLogTrace", "gen": {"mode": "enumerate", "module": "TextLogMC",
                                                    "cfg": TEXT_MC % ("@N@", 1, "TRUE", "Lines Ends Elapsed PrintScript")}},
})
MODELS["text"] = {"module": "TextLogMC", "cfg": TEXT_MC % (5, 1, "FALSE", "Lines Ends Elapsed")}
MODELS["text-numbers"] = {"module": "TextLogMC", "cfg": TEXT_MC % (0, 40, "FALSE", "Faithful")}
PROPS["C27"] = {"suites": [("text", 300, 6000), ("text-script", 4, 5)], "models": ["text", "text-numbers"], "kind": "both"}

FUNC_MC = """SPECIFICATION Spec
CONSTANT Enforce = {"C28"}
CONSTANTS MaxDim=%s Width=%s Emit=%s
INVARIANTS Minima MinimaCos MinimaSin Symmetric Separate PrintScript
CHECK_DEADLOCK FALSE
"""
SUITES.update({
    "func": {"spec": "TestFuncTrace"},
    "func-script": {"spec": "TestFuncTrace", "gen": {"mode": "enumerate", "module": "TestFuncMC",
                                                     "cfg": FUNC_MC % (3, "@N@", "TRUE")}},
})
MODELS["func"] = {"module": "TestFuncMC", "cfg": FUNC_MC % (3, 8, "FALSE")}
PROPS["C28"] = {"suites": [("func", 400, 9000), ("func-script", 4, 8)], "models": ["func"], "kind": "comp"}

SEARCH_MC = """SPECIFICATION %s
CONSTANT Enforce = {"C30"}
CONSTANTS Trees <- Trees%s Algs = {"ga","pso"} Vals <- Vals%s MaxCalls=%s Depth=%s Emit=%s
INVARIANTS %s
%s
CHECK_DEADLOCK FALSE
"""
SEARCH_INV = "LimitExact ThresholdExact OnlyLast Counted Within PrintScript"
SUITES.update({
    "search": {"spec": "SearchTrace"},
    "search-script": {"spec": "SearchTrace", "gen": {"mode": "enumerate", "module": "SearchMC",
                      "cfg": SEARCH_MC % ("Spec", "Leaf", "Odd", 2, "@N@", "TRUE", "PrintScript", "")}},
    "search-pairs": {"spec": "SearchTrace", "cmd": "search-script",
                     "gen": {"mode": "enumerate", "module": "SearchMC",
                             "cfg": SEARCH_MC % ("Spec", "Pair", "Few", 2, "@N@", "TRUE", "PrintScript", "")}},
})
MODELS.update({
    "search": {"module": "SearchMC", "cfg": SEARCH_MC % ("SpecSet", "All", "Num", 3, 7, "FALSE", SEARCH_INV, "PROPERTIES Nothing")},
    "search-ends": {"module": "SearchMC", "cfg": SEARCH_MC % ("FairSpec", "Bounded", "Num", 3, 0, "FALSE", "Within", "PROPERTIES Terminates Nothing")},
})
PROPS["C29"] = {"suites": [("ga", 700, 12000), ("ga-script", 200, 4000), ("pso", 300, 6000), ("pso-script", 100, 2000)],
                "models": ["ga-pipeline"], "kind": "both"}
PROPS["C30"] = {"suites": [("search", 600, 12000), ("search-script", 5, 6), ("search-pairs", 4, 5)],
                "models": ["search", "search-ends"], "kind": "both"}

SUITES["marathon"] = {"spec": "SearchTrace"}
for c in ("C07", "C08", "C30"):
    PROPS[c]["suites"] = PROPS[c]["suites"] + [("marathon", 48, 480)]

SUITES["twin"] = {"spec": "TwinTrace"}
MODELS["twin"] = {"module": "TwinMC", "cfg": """SPECIFICATION Spec
CONSTANT Enforce = {"C09","C10","C31","C32"}
CONSTANTS Answers = {0, 1} Steps = 3 Runs = 5
INVARIANTS NeverStuck Own
CHECK_DEADLOCK FALSE
"""}
PROPS["C31"] = {"suites": [("twin", 200, 3000)], "models": ["twin"], "kind": "both"}

for s in ("crash", "used", "pieces"):
    SUITES[s] = {"spec": "TwinTrace"}
for c, s in (("C09", "pieces"), ("C10", "used")):
    PROPS[c]["suites"] = PROPS[c]["suites"] + [(s, 400, 6000)]
    PROPS[c]["models"] = PROPS[c]["models"] + ["twin"]
PROPS["C32"] = {"suites": [("crash", 600, 9000)], "models": ["twin"], "kind": "both"}
