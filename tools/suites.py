"""What each check runs: design models, inputs and behaviours from the specification, harness suite."""
ALG_D = {"module": "Algebra", "cfg": "Algebra_dfa.cfg", "min_states": 30000}
ALG_N = {"module": "Algebra", "cfg": "Algebra_nfa.cfg", "cfg_thorough": "Algebra_nfaT.cfg", "min_states": 1000}
EVAL = {"module": "Evaluator", "cfg": "Evaluator.cfg", "cfg_thorough": "EvaluatorT.cfg", "min_states": 200000}
SUBSET = {"module": "Subset", "cfg": "Subset.cfg", "cfg_thorough": "SubsetT.cfg", "min_states": 1000}
PARTITION = {"module": "Partition", "cfg": "Partition.cfg", "cfg_thorough": "PartitionT.cfg", "min_states": 10000}
PAIR_DFA = {"module": "Pairing", "cfg": "Pairing_dfa.cfg", "cfg_thorough": "Pairing_dfaT.cfg", "min_states": 100000}
PAIR_NFA = {"module": "Pairing", "cfg": "Pairing_nfa.cfg", "cfg_thorough": "Pairing_nfaT.cfg", "min_states": 50000}
PAIR_WALK = {"module": "Pairing", "cfg": "Pairing_walk.cfg", "cfg_thorough": "Pairing_walkT.cfg", "min_states": 100000}
REMOVAL = {"module": "Removal", "cfg": "Removal.cfg", "cfg_thorough": "RemovalT.cfg", "min_states": 50000}
ENUM = {"module": "Enumeration", "cfg": "Enumeration.cfg", "cfg_thorough": "EnumerationT.cfg", "min_states": 30000}
LAYOUT = {"module": "Layout", "cfg": "Layout.cfg", "cfg_thorough": "LayoutT.cfg", "min_states": 300000}
LAYOUT_E = {"module": "Layout", "cfg": "LayoutE.cfg", "min_states": 3000}
EXPR = {"module": "Expressions", "cfg": "Expressions.cfg", "cfg_thorough": "ExpressionsT.cfg", "min_states": 500}
PLANS = {"module": "Evaluator", "cfg": "EvaluatorH.cfg"}
LAYOUTS = {"module": "Layout", "cfg": "LayoutH.cfg"}
SPOILT = {"module": "Layout", "cfg": "LayoutEH.cfg"}
TEXTS = {"module": "Expressions", "cfg": "ExpressionsH.cfg"}
REGISTRY = {"module": "Registry", "cfg": "Registry.cfg", "cfg_thorough": "RegistryT.cfg", "min_states": 3000}
SESSION = {"module": "Session", "cfg": "Session.cfg", "cfg_thorough": "SessionT.cfg", "min_states": 300000}
HANDLES = {"module": "Registry", "cfg": "RegistryH.cfg", "cfg_thorough": "RegistryHT.cfg"}
SESSIONS = {"module": "Session", "cfg": "SessionH.cfg"}
def PROG(c, n):
    return {"module": "Program", "cfg": f"Program_{c}.cfg", "min_states": n}
def INV(c):
    return {"module": "Program", "cfg": f"Program_{c}H.cfg"}
SINK = {"module": "Sink", "cfg": "Sink.cfg", "min_states": 100000}
SINKS = {"module": "Sink", "cfg": "SinkH.cfg"}
def DRAWN(c, n):
    return {"module": "Drawing", "cfg": f"Drawing_{c}.cfg", "cfg_thorough": f"Drawing_{c}T.cfg", "min_states": n}
CLOSING = {"module": "Closing", "cfg": "Closing.cfg", "cfg_thorough": "ClosingT.cfg", "min_states": 10000}
SUITES = {
    "C01": {"models": [ALG_D, EVAL], "gen": ["d11", "d12", "d21", "d22"], "ops": ["eval", "step", "step_multiple", "step_all", "query", "accepts", "accepts_graphemes", "graphemes_only"], "histories": [PLANS]},
    "C02": {"models": [ALG_N, EVAL], "gen": ["n11", "n21"], "ops": ["eval", "step", "step_multiple", "step_all", "query", "accepts", "accepts_graphemes", "graphemes_only"], "histories": [PLANS]},
    "C03": {"models": [ALG_N, SUBSET], "gen": ["n11", "n21", "n22"], "ops": ["to_dfa"]},
    "C04": {"models": [ALG_D, SUBSET], "gen": ["d11", "d12", "d21", "d22", "d31"], "ops": ["to_nfa", "back_to_dfa"]},
    "C05": {"models": [ALG_D, PARTITION], "gen": ["d11", "d12", "d21", "d22", "d31"], "ops": ["classes", "minimize", "merge"]},
    "C06": {"models": [ALG_D, PAIR_DFA], "gen": ["d12", "d22"], "ops": ["dfa_op", "dfa_product", "same", "invert"]},
    "C07": {"models": [ALG_N, PAIR_NFA, REMOVAL], "gen": ["n21"], "ops": ["nfa_union", "nfa_intersection", "nfa_product", "same"]},
    "C08": {"models": [ALG_D, PAIR_WALK], "gen": ["d12", "d22", "n21"], "ops": ["equiv"]},
    "C09": {"models": [ALG_N, REMOVAL], "gen": ["n11", "n21"], "ops": ["rm_eps", "optimize"]},
    "C10": {"models": [ALG_N, REMOVAL], "gen": ["d11", "d12", "d21", "d22", "d31", "n21"], "ops": ["reach", "rm_unreach"]},
    "C11": {"models": [ALG_N, ENUM], "gen": ["n11", "n22"], "ops": ["words", "next"]},
    "C12": {"models": [LAYOUT], "ops": ["parse_as"], "histories": [LAYOUTS]},
    "C13": {"models": [LAYOUT_E], "ops": ["parse"], "histories": [SPOILT]},
    "C14": {"models": [LAYOUT], "gen": ["d11", "d21", "n11", "n21"], "ops": ["print", "reparse"]},
    "C15": {"models": [SESSION], "ops": ["lib"], "histories": [SESSIONS]},
    "C16": {"models": [EXPR], "ops": ["regex"], "histories": [TEXTS]},
    "C17": {"models": [EXPR], "ops": ["regex_print", "regex_reread"], "histories": [TEXTS]},
    "C18": {"cli": True, "models": [PROG("equiv", 19000)], "histories": [INV("equiv")], "ops": ["cli_equiv"]},
    "C19": {"cli": True, "models": [PROG("binop", 20000)], "histories": [INV("binop")], "ops": ["cli_binop"]},
    "C20": {"cli": True, "models": [PROG("enum", 100), PROG("test", 800)], "histories": [INV("enum"), INV("test")], "ops": ["cli_enum", "cli_test"]},
    "C21": {"cli": True, "models": [SINK], "histories": [SINKS], "ops": ["cli_out"]},
    "C22": {"models": [REGISTRY], "histories": [HANDLES], "ops": ["w_load", "w_regex_to_nfa", "w_dfa_to_nfa", "w_nfa_to_dfa", "w_minimize", "w_eq", "w_table", "w_delete", "w_draw"]},
    "C23": {"models": [DRAWN("paper", 7000), DRAWN("any", 6000)], "gen": ["d11", "d12", "d21", "n11", "n21"], "ops": ["draw"]},
    "C24": {"models": [DRAWN("rows", 5000), DRAWN("rowsany", 200)], "gen": ["d11", "d12", "d21", "n11", "n21"], "ops": ["ascii"]},
    "C25": {"models": [ALG_N, CLOSING], "gen": ["n11", "n21", "e3"], "ops": ["closure", "has_eps"]},
}
