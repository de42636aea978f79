"""property -> harness that decides it"""
CHECKS = {
    "C01": {"harness": "conn", "args": []},
    "C02": {"harness": "conn", "args": ["--nav"]},
    "C05": {"harness": "mutate", "args": ["--data"]},
    "C06": {"harness": "mutate", "args": ["--copies"]},
    "C04": {"harness": "gmesh", "args": []},
    "C07": {"harness": "quant", "args": []},
    "C08": {"harness": "geom", "args": []},
    "C03": {"harness": "mutate", "args": []},
}
CHECKS["C09"] = {"harness": "idt", "args": ["--signpost"]}
CHECKS["C10"] = {"harness": "idt", "args": ["--integer"]}
CHECKS["C11"] = {"harness": "idt", "args": ["--subdivision"]}
CHECKS["C12"] = {"harness": "trace", "args": []}
CHECKS["C13"] = {"harness": "mmp", "args": []}
CHECKS["C27"] = {"harness": "point", "args": []}
CHECKS["C16"] = {"harness": "linalg", "args": []}
CHECKS["C15"] = {"harness": "heat", "args": []}
CHECKS["C33"] = {"harness": "sheat", "args": []}
CHECKS["C34"] = {"harness": "polyheat", "args": []}
CHECKS["C17"] = {"harness": "fmm", "args": []}
CHECKS["C18"] = {"harness": "graph", "args": []}
CHECKS["C19"] = {"harness": "elem", "args": []}
CHECKS["C31"] = {"harness": "elem", "args": ["--intersect"]}
CHECKS["C29"] = {"harness": "iso", "args": []}
CHECKS["C21"] = {"harness": "subdiv", "args": []}
CHECKS["C20"] = {"harness": "mutman", "args": []}
CHECKS["C22"] = {"harness": "mutman", "args": ["--quadric"]}
CHECKS["C35"] = {"harness": "mutman", "args": ["--remesh"]}
CHECKS["C25"] = {"harness": "cloud", "args": []}
CHECKS["C36"] = {"harness": "cloud", "args": ["--heat"]}
CHECKS["C30"] = {"harness": "tuft", "args": []}
CHECKS["C26"] = {"harness": "io", "args": []}
CHECKS["C24"] = {"harness": "param", "args": []}
CHECKS["C23"] = {"harness": "dirfield", "args": []}
CHECKS["C28"] = {"harness": "poisson", "args": []}
CHECKS["C14"] = {"harness": "flipgeo", "args": []}
CHECKS["C37"] = {"harness": "stripe", "args": []}
