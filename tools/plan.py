"""What the check of each property runs."""

# Properties that need unlocking scripts to be evaluated, or reported values to be recorded.
VERIFY = {"P12", "P21"}
QUERY = {"P21", "P22", "P23", "P25"}

ASSUMPTIONS = [
    "TLC and the JSON modules evaluate the specification correctly",
    "the driver's projection of a builder to a specification state is faithful",
    "values up to 21e14 satoshis, estimated sizes below 2^18 bytes, non-negative indexes",
]

PLANS = {
    "P01": {"record": [("fund", 1000), ("breakfund", 800), ("fee", 1000), ("sendmax", 600), ("sign", 800), ("signonly", 300), ("resign", 300)]},
    "P02": {"record": [("fund", 1400), ("breakfund", 1000), ("fee", 800), ("sendmax", 600), ("sign", 1200), ("embedded", 300), ("big", 120), ("resign", 600)]},
    "P03": {"record": [("fund", 1600), ("breakfund", 1000), ("fee", 1000), ("sign", 1200), ("big", 120), ("resign", 600)]},
    "P04": {"record": [("fund", 1600), ("breakfund", 1000), ("fee", 1000), ("sendmax", 600), ("sign", 800), ("big", 120), ("resign", 600)]},
    "P05": {"record": [("inputs", 1400), ("fund", 800), ("breakfund", 800), ("sendmax", 800)]},
    "P06": {"record": [("big", 60), ("fund", 2400), ("breakfund", 2000), ("sendmax", 1000)]},
    "P07": {"record": [("fund", 1600), ("breakfund", 1000), ("fee", 1400), ("sign", 800), ("resign", 300)]},
    "P08": {"record": [("edit", 2000), ("inputs", 1000)]},
    "P09": {"record": [("edit", 1400), ("inputs", 800), ("fee", 800), ("signonly", 600), ("report", 400)]},
    "P10": {"record": [("edit", 2000), ("fn", 600)]},
    "P11": {"record": [("big", 60), ("fee", 3000), ("edit", 600), ("embedded", 600)]},
    "P12": {"record": [("sign", 2000), ("signonly", 1400), ("resign", 600)]},
    "P13": {"record": [("sign", 2400), ("signonly", 2000), ("resign", 600)]},
    "P14": {"record": [("signonly", 4000)]},
    "P15": {"record": [("sighash", 2000)]},
    "P16": {"record": [("sighash", 2000)]},
    "P17": {"record": [("big", 40), ("sign", 2400), ("signonly", 800), ("fn", 400)]},
    "P18": {"record": [("break", 3000)]},
    "P19": {"record": [("breakq", 3000)]},
    "P20": {"record": [("shuffle", 3000)]},
    "P21": {"record": [("copy", 1200), ("several", 1200), ("import", 600), ("break", 400), ("fund", 400), ("breakfund", 400)]},
    "P22": {"record": [("import", 3000)]},
    "P23": {"record": [("embedded", 3000)]},
    "P24": {"record": [("fn", 2000), ("fees", 1600)]},
    "P25": {"record": [("report", 1600), ("edit", 400), ("import", 400), ("sign", 400), ("embedded", 400)]},
    "P26": {"record": [("big", 120), ("breakfund", 6000)]},
    "P27": {"tool": 5000},
    "P28": {"record": [("sign", 3600), ("resign", 600)]},
    "P29": {"record": [("big", 60), ("sendmax", 4000)]},
    "P30": {"record": [("text", 3000)]},
    "P31": {"together": [("together", 240), ("sign", 40), ("fund", 120), ("sighash", 80), ("import", 120), ("fn", 80), ("fees", 160),
                         ("text", 40), ("break", 80), ("shuffle", 40)]},
}

# Roles of scripts of the universe in derived histories.
ROLES = ("  PayScript = 1\n  OtherScript = 2\n  ChangeScript = 9\n  MultiScript = 13\n  DataScript = 22\n"
         "  OddScript = 30\n")

ALL = ["input", "output", "value", "change", "fee", "fund", "break"]
KEYS = list(range(1, 9))


def sign(*keys):
    return {"op": "sign", "b": "b1", "a": {"keys": list(keys)}}


BEHAVIOURS = {
    "edit": {"first": ["input", "output", "value", "change"], "then": ["input", "output", "value"], "before": 3, "depth": 5,
             "fee": [2, 3, 5], "dust": [1, 2, 4], "after": [[]]},
    "fund": {"first": ["output", "change", "input", "value"], "then": ["fund"], "before": 3, "depth": 4,
             "fee": [1, 2, 3, 4, 5, 6, 7, 8], "dust": [1, 2, 3, 4], "after": [[]]},
    "break": {"first": ["output", "change", "input", "value"], "then": ["break"], "before": 3, "depth": 4,
              "fee": [1, 2, 3, 4, 5, 6, 7, 8], "dust": [1, 2, 3, 4], "after": [[]]},
    "fee": {"first": ["output", "change", "input", "fund"], "then": ["fee"], "before": 3, "depth": 5,
            "fee": [2, 3, 4, 5, 6, 7, 8], "dust": [1, 2, 3, 4], "after": [[]]},
    "sign": {"first": ["output", "change", "input"], "then": ["fund"], "before": 3, "depth": 4,
             "fee": [2, 3, 4, 5, 6, 7, 8], "dust": [1, 2, 3, 4],
             "after": [[sign(*KEYS)], [sign(*KEYS), sign(*KEYS)], [sign(1), sign(*KEYS)]]},
}


def builder(depth, kinds, fee, dust, ins=3, outs=4):
    return {"module": "MCBuilder", "checked": True, "invariants": "Correct MarksMatch",
            "define": "K == <<%s>>" % ", ".join("{%s}" % ", ".join('"%s"' % k for k in ks) for ks in kinds),
            "constants": MODEL_ROLES + "  Depth = %d\n  Kinds <- K\n  MaxIns = %d\n  MaxOuts = %d\n"
                         "  FeeRates = {%s}\n  DustRates = {%s}\n" %
                         (depth, ins, outs, ", ".join(map(str, fee)), ", ".join(map(str, dust)))}


def signing(inputs, period, deltas, fee, dust):
    return {"module": "MCSign", "checked": True, "invariants": "Correct", "define": "I == {%s}" % inputs,
            "constants": MODEL_ROLES + "  Inputs <- I\n  Period = %d\n  Deltas = {%s}\n  FeeRates = {%s}\n"
                         "  DustRates = {%s}\n" % (period, deltas, fee, dust)}


def breaking(values, break_values, lists, fee):
    return {"module": "MCBreak", "invariants": "Correct",
            "define": "A(l) == [l |-> l, k |-> \"\"]\nAL == {%s}\nBV == {Amount(x) : x \\in {%s}}\n"
                      "VS == {Amount(x) : x \\in {%s}}" % (lists, break_values, values),
            "constants": "  Values <- VS\n  BreakValues <- BV\n  AddressLists <- AL\n  FeeRates = {%s}\n" % fee}


MODEL_ROLES = "".join("  %s = %d\n" % x for x in (
    ("PayScript", 1), ("OtherScript", 2), ("ChangeScript", 3), ("MultiScript", 4), ("DataScript", 5), ("OddScript", 6)))

MODELS = {
    "Builder2": builder(2, [ALL, ALL], [3], [2]),
    "Builder3": builder(3, [["output", "change", "fund"], ALL], [3, 5], [2]),
    "Builder4": builder(4, [["output", "change"], ["output", "change", "fund"], ["fund", "fee", "value"], ["fund", "fee", "break"]], [3], [2]),
    "Sign": signing("<<1>>, <<4, 1>>", 1, "0, 3", "3", "2"),
    "SignDeep": signing("<<1>>, <<4, 1>>, <<1, 1, 1>>", 2, "0, 1, 4", "3, 5", "2"),
    "Break": breaking("0, 1, 90, 91, 92, 93, 184, 300, 5000", "1, 100", "<<A(1)>>, <<A(1), A(4)>>, <<A(3), A(1), A(6)>>", "1, 3"),
    "BreakDeep": breaking("0, 1, 17, 90, 91, 92, 93, 183, 184, 185, 300, 999, 5000, 60000", "1, 9, 100",
                          "<<A(1)>>, <<A(1), A(4)>>, <<A(3), A(1), A(6)>>, <<A(3), A(1), A(4), A(1)>>", "1, 2, 3"),
    "Cache": {"module": "MCCache", "invariants": "Correct", "define": "",
              "constants": "  Types = {65, 66, 67, 193, 194}\n  MaxSteps = 6\n"},
    "CacheDeep": {"module": "MCCache", "invariants": "Correct", "define": "",
                  "constants": "  Types = {65, 66, 67, 193, 194, 195, 2, 3}\n  MaxSteps = 12\n"},
}

for _p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P26", "P29"):
    PLANS[_p].update(models=["Builder2"], deep=["Builder3", "Builder4"])
for _p in ("P01", "P02", "P03", "P04", "P07", "P17", "P28"):
    PLANS[_p].setdefault("models", []).append("Sign")
    PLANS[_p].setdefault("deep", []).append("SignDeep")
for _p in ("P18", "P26"):
    PLANS[_p].setdefault("models", []).append("Break")
    PLANS[_p].setdefault("deep", []).append("BreakDeep")
for _p in ("P15", "P16"):
    PLANS[_p].update(models=["Cache"], deep=["CacheDeep"])
for _p, _b in (
        ("P01", [("fund", 30), ("break", 20), ("fee", 20), ("sign", 10)]),
        ("P02", [("fund", 30), ("break", 20), ("fee", 20), ("sign", 20)]),
        ("P03", [("fund", 40), ("break", 20), ("fee", 20), ("sign", 20)]),
        ("P04", [("fund", 40), ("break", 20), ("fee", 30), ("sign", 20)]),
        ("P05", [("fund", 20), ("break", 20), ("edit", 20)]),
        ("P06", [("fund", 40), ("break", 20)]),
        ("P07", [("fund", 30), ("fee", 30)]),
        ("P08", [("edit", 40)]), ("P09", [("edit", 40)]), ("P10", [("edit", 40)]),
        ("P11", [("fee", 60), ("edit", 20)]),
        ("P12", [("sign", 20)]), ("P13", [("sign", 20)]), ("P17", [("sign", 30)]), ("P28", [("sign", 40)]),
        ("P26", [("break", 60)]), ("P29", [("edit", 40)])):
    PLANS[_p]["behaviours"] = _b

TECHNIQUE = {
    "*": "TLA+ specification checked with TLC; traces recorded from the real code validated against it",
}
NOTE = {
    "*": "Every recorded call of the real code is checked by TLC against the TLA+ specification; the "
         "histories are random with amounts at the thresholds the specification computes. Bounded by the "
         "histories explored.",
    "P27": "The tool is built from the repository and run as a process against a local service that answers like the "
           "one it uses; TLC checks what it prints against the TLA+ specification. Bounded by the runs made.",
    "P31": "The same calls are made alone and from several goroutines, with the race detector watching; TLC checks the "
           "recorded calls. Bounded by the histories and the schedules that occur; the race detector also reports accesses that did "
           "not happen to collide.",
}
NOT_APPLICABLE = {}
