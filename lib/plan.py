"""Which generator, validator and bounds decide which property."""

import json


def _ops(n, trace):
    """states of a history validator: one per operation and one initial state"""
    return sum(len(json.loads(x)["ops"]) + 1 for x in open(trace))


PLAN = {
    "C01": {
        "level": "model_checking",
        "steps": [{"gen": "GenC01", "conf": "ConfC01", "n": 1000, "thorough": {"n": 4000}}],
    },
    "C02": {
        "level": "model_checking",
        "steps": [{"gen": "GenC02", "conf": "ConfC02", "n": 2000, "thorough": {"n": 8000}}],
    },
    "C03": {
        "level": "model_checking",
        "steps": [{"gen": "GenC03", "conf": "ConfC03", "n": 1600, "thorough": {"n": 5000}}],
    },
    "C04": {
        "level": "model_checking",
        "steps": [{"gen": "GenC04", "conf": "ConfC04", "n": 1400, "thorough": {"n": 4000}}],
    },
    "C05": {
        "level": "model_checking",
        "steps": [{"gen": "GenC05", "conf": "ConfC05", "n": 1600, "thorough": {"n": 4000}}],
    },
    "C06": {
        "level": "model_checking",
        "steps": [{"gen": "GenC06", "conf": "ConfC06", "n": 1300, "thorough": {"n": 4000}}],
    },
    "C07": {
        "level": "model_checking",
        "steps": [{"gen": "GenC07", "conf": "ConfC07", "n": 1200, "thorough": {"n": 4000}}],
    },
    "C08": {
        "level": "model_checking",
        "steps": [{"gen": "GenC08", "conf": "ConfC08", "n": 1800, "thorough": {"n": 5000}}],
    },
    "C09": {
        "level": "model_checking",
        "steps": [{"gen": "GenC09", "conf": "ConfC09", "n": 1200, "thorough": {"n": 4500}}],
    },
    "C10": {
        "level": "model_checking",
        "steps": [{"gen": "GenC10", "conf": "ConfC10", "n": 2000, "thorough": {"n": 5000}}],
    },
    "C11": {
        "level": "model_checking",
        "steps": [{"gen": "GenC11", "conf": "ConfC11", "machine": True, "exhaustive": True},
                  {"gen": "GenC11use", "conf": "ConfC11", "n": 380, "thorough": {"n": 3800}}],
    },
    "C12": {
        "level": "model_checking",
        "steps": [{"gen": "GenC12", "conf": "ConfC12", "n": 0, "machine": True, "exhaustive": True, "ownnext": True, "states": _ops,
                   "env": {"DEPTH": 3, "NTERM": 2}, "gencfg": ["INVARIANT TypeOK", "PROPERTY Isolated"],
                   "thorough": {"env": {"DEPTH": 4, "NTERM": 2}}},
                  {"gen": "GenC12", "conf": "ConfC12", "n": 160, "machine": True, "ownnext": True, "states": _ops,
                   "env": {"DEPTH": 12, "NTERM": 11}, "gencfg": ["INVARIANT TypeOK", "PROPERTY Isolated"],
                   "thorough": {"n": 600, "env": {"DEPTH": 30, "NTERM": 11}}}],
    },
    "C13": {
        "level": "model_checking",
        "steps": [{"gen": "GenC13", "conf": "ConfC13", "n": 1400, "thorough": {"n": 5000}}],
    },
    "C14": {
        "level": "model_checking",
        "steps": [{"gen": "GenC14all", "conf": "ConfC14", "machine": True, "exhaustive": True, "ownnext": True, "states": _ops,
                   "env": {"DEPTH": 3}, "gencfg": ["PROPERTY Pure", "PROPERTY Gone"], "thorough": {"env": {"DEPTH": 4}}},
                  {"gen": "GenC14", "conf": "ConfC14", "n": 120, "ownnext": True, "states": _ops, "thorough": {"n": 600}}],
    },
    "C15": {
        "level": "model_checking",
        "steps": [{"gen": "GenC15", "conf": "ConfC15", "n": 1000, "thorough": {"n": 4000}}],
    },
    "C16": {
        "level": "model_checking",
        "steps": [{"gen": "GenC16", "conf": "ConfC16", "n": 4800, "thorough": {"n": 24000}}],
    },
    "C17": {
        "level": "model_checking",
        "steps": [{"gen": "GenC17", "conf": "ConfC17", "n": 1200, "thorough": {"n": 4500}}],
    },
    "C18": {
        "level": "model_checking",
        "steps": [{"gen": "GenC18", "conf": "ConfC18", "n": 1000, "thorough": {"n": 4000}}],
    },
    "C19": {
        "level": "model_checking",
        "steps": [{"gen": "GenC19", "conf": "ConfC19", "n": 1200, "thorough": {"n": 5000}}],
    },
    "C20": {
        "level": "model_checking",
        "steps": [{"gen": "GenC20", "conf": "ConfC20", "n": 700, "thorough": {"n": 3000}}],
    },
    "C21": {
        "level": "model_checking",
        "steps": [{"gen": "GenC21all", "conf": "ConfC21", "machine": True, "exhaustive": True, "ownnext": True, "states": _ops,
                   "env": {"DEPTH": 3}, "gencfg": ["PROPERTY Untouched", "INVARIANT TypesOK"], "thorough": {"env": {"DEPTH": 4}}},
                  {"gen": "GenC21", "conf": "ConfC21", "n": 120, "ownnext": True, "states": _ops, "thorough": {"n": 700}}],
    },
}
