"""Which scenarios decide which property, and how many runs the quick tier makes.

Every entry: property -> list of (scenario, quick runs, weight in the thorough tier)."""

CHECKS = {
    "P01": [("mix", 2200, 1)],
    "P02": [("write", 2200, 1)],
    "P03": [("atomic", 2200, 1)],
    "P04": [("prim", 900, 1)],
    "P05": [("memory", 700, 1)],
    "P06": [("account", 6000, 1), ("oom", 160, 1), ("oom1", 250, 1)],
    "P07": [("oom1", 900, 2), ("oom", 160, 1)],
    "P08": [("callback", 1800, 1), ("callback_share", 1600, 1)],
    "P09": [("lvn", 1200, 1), ("larray", 600, 1)],
    "P10": [("kcache", 2600, 2), ("cache", 500, 1)],
    "P11": [("cache", 2600, 1)],
    "P12": [("cache", 2600, 1)],
    "P13": [("sweep", 6000, 2), ("cache", 900, 1)],
    "P14": [("mix", 600, 1), ("host", 600, 1), ("event", 900, 1), ("callback_share", 900, 1)],
    "P15": [("log", 9000, 1)],
    "P16": [("registry", 14000, 1)],
    "P17": [("event", 2400, 1)],
    "P18": [("host", 1600, 1)],
    "P19": [("freeze1", 2300, 2), ("freeze", 800, 1)],
    "P21": [("reinit", 400, 1)],
    "P22": [("isolate", 900, 1)],
    "P23": [("ctrl1", 4500, 2), ("ctrl", 700, 1)],
    "P20": [("history", 1200, 1), ("history1", 1000, 1)],
}
TECH = "deterministic simulation: seeded random schedules and faults over the real code, checked against a sequential reference model"
LEVEL = {}
NOTE = {}
COMMON_NOTE = ("Seeded sampling of schedules, inputs and faults; a clean run is evidence, not proof. Trusts the simulated thread "
               "pool, the sequentially consistent memory model of the simulator and the reference models.")
NA = {
    "P24": "A pure function of its input: no schedule, clock, fault or interleaving for the simulator to vary (the half conversion test covers it).",
    "P25": "No CUDA, OptiX or Metal driver or device exists in this sandbox; the device-side queues and code execution that the property is about could only be replaced by a stub that would itself define the behaviour.",
}
