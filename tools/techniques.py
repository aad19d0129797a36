"""technique and level_note per property"""
PATHS = "path-sensitive dataflow over the syntax tree (value numbering, all paths between loop heads)"
TS = "typestate analysis over all control-flow paths between awaits"
COMMON = "Every path of the code involved is examined, so the verdict covers all inputs and schedules within the stated assumptions: cooperative scheduling at awaits, cocotb primitives (Queue, Event, triggers) behave as documented. Constructs the rules do not recognise are counted as not decided in the evidence rather than as violations."
TECH = {
    "C01": TS+": custody and single-completion of operations", "C02": TS+": counter/event pairing", "C03": PATHS+": effects of the reset hook",
    "C04": PATHS+": boolean state equations of the reset logic and constructor argument flow", "C05": TS+": handshake hold/present rules for sources",
    "C06": TS+": sample/record rules for receivers, effect analysis for monitors", "C07": "sleep/wake pairing analysis over all paths and all event setters",
    "C08": PATHS+": counter balance per queue operation", "C09": "escape/alias analysis of queued values", "C10": "argument-to-signal value-flow analysis over all paths",
    "C11": PATHS+": path conditions of acceptance and refusal compared with the specification", "C12": "guarded-access analysis: every optional signal access dominated by a presence test",
    "C13": PATHS+": loop-carried response accumulation", "C14": TS+": one response per request on all paths incl. exceptional ones", "C15": PATHS+": assertion conditions compared with the specification",
    "C16": "inductive loop-variable analysis of the burst splitter with value-number comparison", "C17": "loop-variable analysis of lane windows with value-number comparison",
    "C18": TS+": per-ID context life cycle", "C19": "value-number comparison of burst addresses and strobe runs with the specification", "C20": TS+": APB phase automaton over all paths",
    "C21": PATHS+": routing arithmetic by value numbering", "C22": PATHS+": offset arithmetic by value numbering", "C23": PATHS+": guard conditions of range checks compared with the specification",
    "C24": PATHS+": segment arithmetic by value numbering", "C25": PATHS+": free-list typestate and block arithmetic", "C26": PATHS+": conversion shapes and argument flow",
    "C27": PATHS+": per-lane accumulator loops", "C28": PATHS+": shape analysis of sideband lists", "C29": TS+": completion typestate of frames", "C30": "alias analysis of storage objects and address arithmetic",
    "C32": TS+": one list entry per received response", "C33": TS+": pause dominance between clock edges, effect analysis of the pause flag", "C34": TS+": stores of time stamps relative to accepted beats",
    "C35": PATHS+": constructor path conditions and derived attributes compared with the specification over a grid of widths",
    "C36": PATHS+": row domain, labels and layout by inductive comparison of value numbers",
    "C37": PATHS+": received frames against additions to the held data, effect of the taking path on every held length and count of a grid, conditions before each wait",
    "C31": "declaration analysis against a specification table",
}
NOTE = {k: COMMON for k in TECH}
