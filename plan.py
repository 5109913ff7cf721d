"""Which families of scenarios and which models decide each property."""

FAMILY_MODULE = {f: "ContractTrace" for f in
                 ("basic", "fault", "close", "mal", "big", "limit", "slots", "health", "buf", "script")}
FAMILY_MODULE.update({f: "WireTrace" for f in ("wire", "keys", "allkeys", "wirescript")})
FAMILY_MODULE.update({f: "AdminTrace" for f in ("stats", "dump", "auth")})



def design(prog, batch, lim, rcap, sel, faults, kinds, close=True, monitor=False, bug="none", live=False, gen=False, **kw):
    """An instance of the model of the client (spec/Design.tla)."""
    m = {"module": "DesignGen.tla" if gen else "MCDesign.tla", "cfg": f"""SPECIFICATION {"GSpec" if gen else "FairSpec" if live else "Spec"}
CONSTANTS
 Prog <- {prog}
 Batch = {batch}
 Lim = {lim}
 RCap = {rcap}
 SelLim = {sel}
 MaxFaults = {faults}
 FaultKinds <- {kinds}
 WithClose = {"TRUE" if close else "FALSE"}
 Monitor = {"TRUE" if monitor else "FALSE"}
 Bug = "{bug}"
""" + ("VIEW GView\nCHECK_DEADLOCK FALSE\n" if gen else
       "INVARIANTS NoViolation OwnAnswers WrittenOnce OneOpen WithinLimit CountsSane AfterClose Bounded\n"
       + ("PROPERTIES EveryCallReturns CloseReturns Reconnects\n" if live else ""))}
    if gen:
        m["family"] = "script"
    m.update(kw)
    return m


MODELS = {
    # the design satisfies the contract, and always makes progress
    "safe-two": design("P21", 1, 2, 1, 2, 1, "Fall"),
    "safe-two2": design("P21", 1, 2, 1, 2, 2, "Fall", workers=4, mem="6g"),
    "safe-split": design("P22", 1, 2, 1, 2, 1, "Fio", workers=4),
    "safe-long": design("P31", 1, 2, 1, 2, 1, "Fio"),
    "safe-three": design("P111", 1, 2, 1, 2, 1, "Fio", workers=4),
    "safe-three2": design("P111", 1, 1, 1, 2, 2, "Fio", workers=4, mem="6g"),
    "live-seq": design("P1x1", 1, 1, 1, 2, 1, "Fio", live=True),
    "live-seq2": design("P1x1", 1, 1, 1, 2, 2, "Fall", live=True),
    "live-two": design("P21", 1, 2, 1, 2, 1, "Fio", live=True, workers=4, mem="6g"),
    "mon-seq": design("P1x1", 1, 1, 1, 2, 1, "Fio", monitor=True),
    "mon-bad": design("P1x1", 1, 1, 1, 2, 1, "Fbad", monitor=True),
    "mon-extra": design("P1x1", 1, 2, 1, 2, 2, "Fbadextra", close=False, monitor=True),
    "mon-seq2": design("P1x1", 1, 1, 1, 2, 2, "Fall", monitor=True, workers=6, mem="8g"),
    "mon-two": design("P11", 1, 1, 1, 2, 1, "Fio", monitor=True, workers=6, mem="8g"),
    # wrong designs must be refuted
    "bug-holdlock": design("P111", 1, 3, 1, 1, 1, "Fkill", close=False, bug="holdlock", expect="Deadlock reached"),
    "bug-staleclosed": design("P1x1", 1, 1, 1, 2, 1, "Fio", monitor=True, bug="staleclosed", expect="Invariant NoViolation is violated"),
    "bug-firstbatchonly": design("P21", 1, 1, 1, 2, 0, "Fnone", bug="firstbatchonly", expect="Deadlock reached"),
    "bug-leftover": design("P1x1", 1, 2, 1, 2, 2, "Fbadextra", close=False, monitor=True, bug="leftover", expect="Invariant NoViolation is violated"),
    "bug-nocount": design("P1x1", 1, 1, 1, 2, 1, "Fio", close=False, bug="nocount", expect="Deadlock reached"),
    "bug-nolimit": design("P21", 1, 1, 1, 2, 0, "Fnone", bug="nolimit", expect="Invariant WithinLimit is violated"),
    "bug-keepbad": design("P1x1", 1, 1, 1, 2, 1, "Fbad", monitor=True, bug="keepbad", expect="Invariant NoViolation is violated"),
    "bug-latebind": design("P11", 1, 2, 1, 2, 1, "Fio", close=False, bug="latebind", expect="Invariant OwnAnswers is violated"),
    "bug-signalempty": design("P11", 1, 2, 1, 2, 0, "Fnone", close=False, bug="signalempty", expect="Deadlock reached"),
    "bug-norecwait": design("P11", 1, 2, 1, 2, 1, "Fio", bug="norecwait", expect="Invariant AfterClose is violated"),
    # every transition of the quiescent graph becomes a script for the real code
    "gen-two": design("P21", 2, 3, 2, 2, 2, "Fall", gen=True),
    "gen-seq": design("P1x1", 1, 2, 1, 2, 3, "Fall", gen=True),
    "gen-three": design("P111", 1, 2, 1, 2, 2, "Fall", gen=True, workers=4),
    "gen-split": design("P22", 1, 3, 1, 2, 2, "Fall", gen=True, workers=4),
}

PLAN = {
    "C01": {"quick": [("basic", 7200), ("fault", 4800), ("limit", 720), ("mal", 2400), ("big", 72)]},
    "C02": {"quick": [("wire", 12000)]},
    "C03": {"quick": [("wire", 12000)]},
    "C04": {"quick": [("wire", 9600), ("basic", 4800), ("buf", 1440)]},
    "C05": {"quick": [("keys", 7200), ("allkeys", 4096), ("basic", 2400)]},
    "C06": {"quick": [("basic", 4800), ("fault", 4800), ("limit", 960), ("close", 2400)]},
    "C07": {"quick": [("basic", 3600), ("fault", 4800), ("close", 3600), ("big", 168), ("limit", 480), ("mal", 2400)]},
    "C08": {"quick": [("fault", 8400), ("close", 3600), ("mal", 3600), ("basic", 2400)]},
    "C09": {"quick": [("fault", 12000), ("mal", 3600), ("close", 1200)]},
    "C10": {"quick": [("fault", 6000), ("health", 2400), ("close", 2400), ("slots", 2400)]},
    "C11": {"quick": [("close", 14400), ("health", 1200), ("big", 48)]},
    "C12": {"quick": [("limit", 2880), ("basic", 3600), ("big", 48)]},
    "C13": {"quick": [("limit", 3600), ("basic", 2400)]},
    "C14": {"quick": [("fault", 7200), ("mal", 2400), ("wire", 4800)]},
    "C15": {"quick": [("mal", 16800), ("wire", 3600), ("stats", 900), ("dump", 900)]},
    "C16": {"quick": [("basic", 10800), ("fault", 3600)]},
    "C17": {"quick": [("buf", 3000), ("basic", 1200)]},
    "C18": {"quick": [("health", 10800)]},
    "C19": {"quick": [("slots", 14400)]},
    "C20": {"quick": [("stats", 12000)]},
    "C21": {"quick": [("dump", 12000)]},
    "C22": {"quick": [("auth", 18000)]},
    "C23": {"quick": [("fault", 9600), ("auth", 3600), ("stats", 2400), ("dump", 1200)]},
}

# models and generated scripts: (quick models, thorough models, quick scripts, thorough scripts)
ALLGEN = [("@gen-two", 3000), ("@gen-seq", 3000), ("@gen-three", 17000), ("@gen-split", 5000)]
DESIGN = {
    "C01": (["mon-extra", "bug-leftover"], ["mon-seq2", "safe-three"], [("@gen-two", 1268)], ALLGEN),
    "C06": (["safe-two", "bug-latebind"], ["safe-split", "safe-three2", "safe-two2"], [("@gen-split", 1600)], ALLGEN),
    "C07": (["live-seq", "bug-nocount", "bug-firstbatchonly", "bug-signalempty", "bug-holdlock"], ["live-seq2", "live-two", "safe-three2"],
            [("@gen-split", 1200)], ALLGEN),
    "C08": (["mon-seq"], ["mon-seq2", "mon-two"], [("@gen-three", 1500)], ALLGEN),
    "C09": (["safe-two", "bug-latebind"], ["safe-two2", "safe-three2", "mon-two"], [("@gen-three", 1500)], ALLGEN),
    "C10": (["mon-seq", "live-seq", "bug-keepbad"], ["mon-seq2", "live-seq2"], [("@gen-seq", 685)], ALLGEN),
    "C11": (["mon-seq", "bug-norecwait", "bug-staleclosed", "bug-firstbatchonly"], ["mon-two", "live-two"], [("@gen-two", 1268)], ALLGEN),
    "C12": (["safe-long", "bug-nolimit", "bug-nocount"], ["safe-split", "safe-three2"], [("@gen-split", 1200)], ALLGEN),
    "C14": (["mon-bad", "bug-keepbad"], ["mon-seq2"], [("@gen-seq", 685)], ALLGEN),
}
for _p, (_q, _t, _s, _ts) in DESIGN.items():
    _d = PLAN[_p]
    _d["models"] = {"quick": _q, "thorough": _q + _t}
    _d["scripts"] = {"quick": _s, "thorough": _ts}
