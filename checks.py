"""What each check runs.  sim: (configuration, behaviours per worker quick,
thorough, depth); bfs: exhaustive configurations
(configuration, tier or None, module); small:
(action of OpsSmall, length of its histories), exhaustive; extra: functions called after
the replay."""
import glob, os
from concurrent.futures import ThreadPoolExecutor

ASSUMPTIONS = [
    "the specification (spec/*.tla) states the intended behaviour",
    "clang 18 and its address and undefined-behaviour sanitizers, the C++ standard library and TLC are trusted",
]

CORE = ["ops_core"]
SHAPES = ["ops_core", "ops_view", "ops_cof", "ops_marith", "ops_varith", "ops_prod", "ops_cmp", "ops_tol1", "ops_tol2", "ops_struct", "ops_elem",
          "ops_binfun", "ops_lincomb", "ops_lin", "ops_div", "ops_qr", "ops_exp", "ops_poly"]
EVERY = SHAPES + ["ops_sarith", "ops_ctl", "ops_eig", "ops_io", "ops_rand"]
VIEW = ["ops_view", "ops_cof"]

CHECKS = {
    "C01": {"units": CORE + VIEW, "sim": [("C01.cfg", 400, 6000, 40)], "small": [("S01", 3)]},
    "C02": {"units": CORE + VIEW, "sim": [("C02.cfg", 400, 6000, 40)], "small": [("S02", 3)]},
    "C03": {"units": EVERY, "sim": [("C03.cfg", 120, 3000, 40)]},
    "C04": {"units": CORE + VIEW, "sim": [("C04.cfg", 400, 6000, 40)], "small": [("S04", 2)]},
    "C05": {"units": CORE + VIEW, "sim": [("C05.cfg", 400, 6000, 40)], "small": [("S05", 3), ("S05n", 3), ("S05m", 4)]},
    "C06": {"units": CORE + VIEW, "sim": [("C06.cfg", 400, 6000, 40)], "small": [("S06", 3), ("S06n", 3)]},
    "C07": {"units": CORE + VIEW + ["ops_marith", "ops_varith"], "sim": [("C07.cfg", 250, 4000, 40)], "small": [("S07", 3), ("S07i", 1)]},
    "C08": {"units": CORE + VIEW + ["ops_varith"], "sim": [("C08.cfg", 400, 6000, 40)], "small": [("S08", 1)]},
    "C29": {"units": ["ops_sarith"], "sim": [("C29.cfg", 400, 6000, 40)], "small": [("S29", 1)]},
    "C09": {"units": SHAPES, "sim": [("C09.cfg", 60, 1500, 40)], "bfs": [("C09shape.cfg", "quick", "OpsShape.tla"), ("C09shape4.cfg", "thorough", "OpsShape.tla")]},
    "C10": {"units": CORE + VIEW + ["ops_prod"], "sim": [("C10.cfg", 250, 4000, 40)], "small": [("S10", 1), ("S10v", 2)]},
    "C11": {"units": CORE + VIEW + ["ops_cmp", "ops_tol1", "ops_tol2"], "sim": [("C11.cfg", 300, 5000, 40)], "small": [("S11a", 2), ("S11b", 2), ("S11r", 1)]},
    "C12": {"units": CORE + VIEW + ["ops_struct"], "sim": [("C12.cfg", 300, 5000, 40)], "small": [("S12", 1), ("S12v", 2)]},
    "C13": {"units": CORE + VIEW + ["ops_struct"], "sim": [("C13.cfg", 300, 5000, 40)], "small": [("S13", 1)]},
    "C14": {"units": CORE + VIEW + ["ops_struct"], "sim": [("C14.cfg", 300, 5000, 40)], "small": [("S14", 1)]},
    "C15": {"units": CORE + VIEW + ["ops_elem"], "sim": [("C15.cfg", 300, 5000, 40)], "small": [("S15", 1)]},
    "C16": {"units": CORE + VIEW + ["ops_elem"], "sim": [("C16.cfg", 300, 5000, 40)], "small": [("S16", 1)]},
    "C17": {"units": CORE + VIEW + ["ops_lin", "ops_prod", "ops_struct"], "sim": [("C17.cfg", 200, 4000, 40)], "small": [("S17", 1)]},
    "C18": {"units": CORE + VIEW + ["ops_lin", "ops_div"], "sim": [("C18.cfg", 200, 4000, 40)], "small": [("S18", 1)]},
    "C19": {"units": CORE + VIEW + ["ops_lin"], "sim": [("C19.cfg", 200, 4000, 40)], "small": [("S19", 1)]},
    "C20": {"units": CORE + ["ops_qr"], "sim": [("C20.cfg", 250, 4000, 40)], "small": [("S20", 1)]},
    "C21": {"units": CORE + VIEW + ["ops_exp"], "sim": [("C21.cfg", 140, 4000, 40)], "small": [("S21", 1)]},
    "C22": {"units": ["ops_ctl"], "sim": [("C22.cfg", 80, 1500, 40)], "small": [("S22", 1)]},
    "C23": {"units": ["ops_ctl"], "sim": [("C23.cfg", 150, 3000, 40)], "small": [("S23", 1)]},
    "C24": {"units": CORE + VIEW + ["ops_poly"], "sim": [("C24.cfg", 250, 4000, 40)], "small": [("S24", 1)]},
    "C25": {"units": CORE + VIEW + ["ops_poly"], "sim": [("C25.cfg", 200, 4000, 40)], "small": [("S25", 1)]},
    "C26": {"units": CORE + ["ops_eig"], "sim": [("C26.cfg", 150, 4000, 40)], "small": [("S26", 1)]},
    "C27": {"units": CORE + VIEW + ["ops_io"], "sim": [("C27.cfg", 300, 5000, 40)], "small": [("S27", 7)]},
    "C28": {"units": CORE + VIEW + ["ops_io"], "sim": [("C28.cfg", 300, 5000, 40)], "small": [("S28", 1)]},
    "C30": {"units": ["ops_rand"], "sim": [("C30.cfg", 40, 800, 40)], "small": [("S30", 1)], "extra": ["random_traces"]},
    "C31": {"units": CORE + VIEW + ["ops_elem", "ops_binfun", "ops_lincomb"], "sim": [("C31.cfg", 300, 5000, 40)], "small": [("S31", 1)]},
}


def random_traces(run, pid, tier, seed, work, exe, ev):
    """Checks what random generation returned (logged by the replayer) against
    spec/RandTrace.tla."""
    files = sorted(glob.glob(os.path.join(work, "trace*.ndjson")))
    if not files:
        raise run.CheckError("the replayer wrote no trace")
    with ThreadPoolExecutor(run.CORES) as ex:
        ev["coverage"]["recorded_calls_validated"] = sum(ex.map(lambda f: run.check_trace(f, "RandTrace", work), files))


def jobs(pid, tier, seed, cores):
    spec, out = CHECKS[pid], []
    for n, (cfg, quick, thorough, depth) in enumerate(spec.get("sim", [])):
        for i in range(cores):
            out.append({"mode": "sim", "cfg": cfg, "num": quick if tier == "quick" else thorough, "depth": depth,
                        "seed": seed * 100003 + n * 1009 + i * 17 + 5})
    for b in spec.get("bfs", []):
        cfg, only, module = (b, None, "Props.tla") if isinstance(b, str) else b
        if only and only != tier:
            continue
        out.insert(0, {"mode": "bfs", "cfg": cfg, "module": module, "workers": 1, "heap": "3g"})
    for name, steps in spec.get("small", []):
        out.insert(0, {"mode": "bfs", "cfg": name, "config": SMALL % (steps, "FALSE" if tier == "quick" else "TRUE", name), "module": "OpsSmall.tla",
                       "workers": 1, "heap": "3g"})
    return out


SMALL = """CONSTANTS
  Sim = FALSE
  Types = {"i", "d", "z", "f", "c"}
  MaxDim = 3
  BigPct = 0
  Steps = %d
  Deep = %s
INIT SInit
NEXT %s
ACTION_CONSTRAINT SEmit
CHECK_DEADLOCK FALSE
"""
TECHNIQUE = "TLA+ specification explored by TLC; its behaviours replayed on the library under sanitizers"
NOTE = ("Every state TLC reaches satisfies the laws of the property; every printed behaviour (random histories of "
        "bounded shapes with exact rational elements) is replayed step by step on the library built from the current "
        "tree, comparing all observables. Histories are sampled (seeded), not all enumerated.")
NOT_APPLICABLE = {}
