"""Which workloads decide which property and which FairMQ translation units they need."""
PROPS = {
    "C01": {"wl": ["c01_state"], "fmq": ["StateMachine", "States"], "quick_s": 25},
    "C02": {"wl": ["c01_state"], "fmq": ["StateMachine", "States"], "quick_s": 25},
    "C23": {"wl": ["c23_semaphore"], "fmq": ["tools_Semaphore"], "quick_s": 20},
    "C04": {"wl": ["c04_observers"], "quick_s": 25},
    "C15": {"wl": ["c15_config"], "quick_s": 25},
    "C16": {"wl": ["c15_config"], "quick_s": 25},
    "C18": {"wl": ["c18_control"], "quick_s": 25},
    "C25": {"wl": ["c07_transfer"], "quick_s": 25},
    "C09": {"wl": ["c07_transfer"], "quick_s": 25},
    "C08": {"wl": ["c07_transfer"], "quick_s": 25},
    "C07": {"wl": ["c07_transfer"], "quick_s": 25},
    "C21": {"wl": ["c21_poller"], "quick_s": 25},
    "C03": {"wl": ["c03_interrupt"], "quick_s": 25},
    "C05": {"wl": ["c05_device"], "quick_s": 25},
    "C19": {"wl": ["c19_control"], "quick_s": 25},
    "C20": {"wl": ["c20_callbacks"], "quick_s": 25},
    "C22": {"wl": ["c22_devices"], "quick_s": 25},
    "C06": {"wl": ["c06_connect"], "quick_s": 25},
    "C10": {"wl": ["c10_regions"], "quick_s": 25},
    "C11": {"wl": ["c11_region_events"], "quick_s": 25},
    "C12": {"wl": ["c12_exhaustion"], "quick_s": 25},
    "C13": {"wl": ["c13_session"], "quick_s": 25},
    "C14": {"wl": ["c14_monitor"], "quick_s": 25},
    "C17": {"wl": ["c17_events"], "fmq": ["EventManager"], "quick_s": 25},
    "C24": {"wl": ["c24_rate"], "fmq": [], "quick_s": 25},
    "C28": {"wl": ["c28_ratelog"], "quick_s": 25},
    "C29": {"wl": ["c29_pubsub"], "quick_s": 25},
}
NOT_APPLICABLE = {
    "C26": "parsing of configuration text is a pure function of its input: no schedule, clock, fault or interleaving for a simulation to decide",
    "C27": "part containers and name tables are pure, single-threaded value types: no schedule, clock, fault or interleaving for a simulation to decide",
}
