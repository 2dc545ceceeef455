"""What each check records: histories per profile of the driver, per round."""
LEVEL = "model_checking"
ASSUME = [
    "The specification is written from the code and its documentation; TLC decides, the driver only records.",
    "Histories are generated (seeded), not exhaustive; one block of the history is begin blocker, messages, end blocker.",
    "The bank, account and parameter modules of the Cosmos SDK are taken to be right.",
]
PLAN = {
    "C01": {"runs": {"mix": 120, "pools": 96, "orders": 64, "match": 64, "ext": 64}},
    "C02": {"runs": {"match": 160, "mix": 96, "ext": 64}},
    "C03": {"runs": {"orders": 160, "mix": 120, "mm": 64}},
    "C04": {"runs": {"orders": 240, "mm": 80, "mix": 64}},
    "C05": {"runs": {"orders": 200, "match": 64, "mix": 96}},
    "C06": {"runs": {"admit": 176, "orders": 80, "mix": 64, "ext": 40}},
    "C07": {"runs": {"match": 176, "mix": 96, "pools": 64}},
    "C08": {"runs": {"match": 240, "mix": 80, "ext": 40}},
    "C09": {"runs": {"match": 176, "mix": 96, "pools": 64}},
    "C10": {"runs": {"pools": 176, "mix": 144, "ext": 40}},
    "C11": {"runs": {"pools": 256, "mix": 80, "ext": 64}},
    "C12": {"runs": {"pools": 256, "mix": 80, "ext": 64}},
    "C13": {"runs": {"pools": 176, "admit": 120, "mix": 64}},
    "C14": {"runs": {"mm": 256, "orders": 80, "mix": 40}},
    "C15": {"runs": {"query": 96, "admit": 96, "pools": 80, "gen": 64}},
    "C16": {"obs": 60, "runs": {"query": 128, "gen": 48, "mm": 48, "ext": 32, "pools": 32}},
    "C17": {"runs": {"gen": 240, "mm": 64, "mix": 56, "chain": 64}},
    "C18": {"runs": {"docs": 320}},
    "C19": {"runs": {"ext": 160, "mix": 80, "pools": 64, "gov": 64, "det": 80, "chain": 32}},
    "C20": {"runs": {"gov": 280, "admit": 64}},
    "C21": {"runs": {"admit": 120, "mix": 96, "pools": 80}},
    "C22": {"runs": {"match": 96, "ext": 120, "admit": 96, "mix": 64}},
    "C23": {"runs": {"admit": 256, "gov": 40, "mix": 64}},
    "C24": {"obs": 70, "runs": {"match": 80, "query": 64, "pools": 48, "ext": 40}},
    "C25": {"runs": {"chain": 320}},
    "C26": {"inv": 50, "runs": {"mix": 80, "pools": 64, "orders": 64, "mm": 80, "gen": 48}},
}

TECH = {"*": "TLA+ specification checked by TLC: every step of histories recorded from the real exchange is checked against the laws and the exact transitions of the specification (trace validation)"}
NOTE = {"*": "TLC evaluates the property on every recorded step of seeded histories of the real application; histories are sampled, not exhaustive."}
