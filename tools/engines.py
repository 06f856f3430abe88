"""What is explored for each property."""
import json, os, sys
import rand
from common import ToolError, Violation
from forms import forms

ASSUME = [
    "bounds: the inputs, patterns and positions of the property's families (spec/NFamilies.tla); every combination of them is covered",
    "repeated elements consume input, and a lock is not entered twice by the same thread",
]

ASSUME_S = [
    "bounds: histories up to the depth of each group of the property's sessions (spec/NSessFam.tla), over their operations and initial states; every history is covered",
]


ASSUME_T = [
    "bounds: the patterns, programs and numbers of threads of spec/NThrFam.tla; every interleaving of their visible events "
    "(the start of an operation, a call of a user's function) is covered; between two visible events a thread runs as the machine lets it",
]

ASSUME_R = [
    "random programs: patterns and inputs drawn by tools/rand.py from VERIF_SEED, with at most two references to recursions; "
    "a sample, not an enumeration",
]

ASSUME_V = [
    "bounds: the conversions and values of spec/MCConv.tla; every combination is covered; the machine is little-endian and 64-bit",
]


def cases_cfg(prop, tier, law=None):
    return """SPECIFICATION Spec
CONSTANT Prop = "%s"
CONSTANT Tier = "%s"
CONSTANT Emit = TRUE
CONSTANT Groups <- TheGroups
INVARIANT %s
CHECK_DEADLOCK FALSE
""" % (prop, tier, law or "Law" + prop)


def sessions_cfg(prop, tier, law=None):
    return """SPECIFICATION Spec
CONSTANT Prop = "%s"
CONSTANT Tier = "%s"
CONSTANT Emit = TRUE
CONSTANT Sess <- TheSess
INVARIANT %s
CHECK_DEADLOCK FALSE
""" % (prop, tier, law or "Law" + prop)


def threads_cfg(prop, tier):
    return """SPECIFICATION Spec
CONSTANT Prop = "%s"
CONSTANT Tier = "%s"
CONSTANT Emit = TRUE
CONSTANT TGroups <- TheThreads
INVARIANT LawThreads
INVARIANT Emitted
CHECK_DEADLOCK FALSE
""" % (prop, tier)


def conv_cfg(tier):
    return """SPECIFICATION Spec
CONSTANT Tier = "%s"
CONSTANT Emit = TRUE
INVARIANT LawConv
CHECK_DEADLOCK FALSE
""" % tier


def cases(c, law=None, feats=None, name="cases"):
    cfg = cases_cfg(c.prop, c.tier, law)
    c.notes += [a for a in ASSUME if a not in c.notes]
    c.emit("MCCases", cfg, lambda d: ["cases", c.prop, d], name,
           mem="6g" if c.quick else "12g", feats=feats)


def random_groups(c, seed, n, name):
    path = os.path.join(c.work, name + ".json")
    with open(path, "w") as f:
        json.dump(rand.groups(c.prop, seed, n), f)
    cfg = """SPECIFICATION Spec
CONSTANT Emit = TRUE
CONSTANT Groups <- TheRandom
INVARIANT LawP01
INVARIANT Law%s
CHECK_DEADLOCK FALSE
""" % c.prop
    return cfg, {"RANDOM_GROUPS": path}


def randoms(c):
    """larger programs than the families contain: a sample of them"""
    c.notes += [a for a in ASSUME_R if a not in c.notes]
    for i in range(1 if c.quick else 24):
        name = "random%d" % i
        cfg, env = random_groups(c, c.seed * 1000 + i, 250 if c.quick else 1500, name)
        c.emit("MCRandom", cfg, lambda d: ["cases", c.prop, d], name, mem="6g" if c.quick else "12g", env=env)
        os.unlink(env["RANDOM_GROUPS"])


def sessions(c, law=None, name="sessions"):
    cfg = sessions_cfg(c.prop, c.tier, law)
    c.notes += [a for a in ASSUME_S if a not in c.notes]
    c.emit("MCSession", cfg, lambda d: ["sessions", c.prop, d], name, mem="6g" if c.quick else "12g")


def threads(c, name="threads"):
    cfg = threads_cfg(c.prop, c.tier)
    c.notes += [a for a in ASSUME_T if a not in c.notes]
    c.emit("MCThreads", cfg, lambda d: ["threads", c.prop, d], name, mem="6g" if c.quick else "12g")


def conv(c, feats=None, name="conv"):
    cfg = conv_cfg(c.tier)
    c.notes += [a for a in ASSUME_V if a not in c.notes]
    c.emit("MCConv", cfg, lambda d: ["conv", c.prop, d], name, mem="6g" if c.quick else "12g", feats=feats)


def macros(c):
    """the written forms of the model are compiled and run on every input"""
    cfg = """SPECIFICATION Spec
CONSTANT Prop = "P26"
CONSTANT Tier = "%s"
CONSTANT Emit = TRUE
CONSTANT Groups <- MacroGroups
INVARIANT LawP26
CHECK_DEADLOCK FALSE
""" % c.tier
    c.notes += [ASSUME[0].replace("NFamilies", "NMacro")]
    c.build()                          # the implementation itself
    d = os.path.join(c.work, "forms")
    os.makedirs(d)
    out = os.path.join(d, "tlc.out")
    txt = c.tlc("MCMacro", cfg, "macros", mem="6g" if c.quick else "12g")
    open(out, "w").write(txt)
    rs = os.path.join(d, "forms.rs")
    c.detail["forms compiled"] = forms(out, rs)
    c.build(crate="macros", env={"FORMS": rs})
    b = c.binary(crate="macros", must=False)
    if b is None:
        c.binary()                     # raises when the implementation does not build
        path = os.path.join(d, "replay.json")
        log = open(c.builds[("macros", None, "")][2]).read()
        open(path, "w").write(json.dumps({"a documented form is not accepted": log[:4000]}) + "\n")
        sys.stderr.write(log[:2000])
        c.violations += 1
        raise Violation(path)
    with open(out, "rb") as f:
        c.harness(b, [c.prop, d], d, f)
    os.unlink(out)


# name, features, how the compiler is asked to build
UNCHECKED = {"CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false", "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false"}
CONFIGS = [("default", None, ""), ("bare", "", ""), ("alloc", "alloc", ""), ("log", "std,log", ""),
           ("tracing", "std,tracing", ""), ("bare-log", "log", ""), ("bare-tracing", "tracing", ""),
           ("unchecked", "std", "_unchecked")]


def configs(c):
    """the same behaviours in every build configuration"""
    for _, feats, tag in CONFIGS:
        c.build(feats, tag=tag, env=UNCHECKED if tag else None)
    runs = [("cases", "MCCases", cases_cfg("P23", c.tier), True), ("conv", "MCConv", conv_cfg("quick"), True),
            ("sessions", "MCSession", sessions_cfg("P23", "quick"), False)]
    if not c.quick:
        runs += [("cases" + p[1:], "MCCases", cases_cfg(p, "quick"), True) for p in CASES]
        runs += [("sess" + p[1:], "MCSession", sessions_cfg(p, "quick"), False) for p in SESSIONS]
    runs = [r + ({},) for r in runs]
    for i in range(1 if c.quick else 8):
        cfg, env = random_groups(c, c.seed * 1000 + i, 120 if c.quick else 1000, "random%d" % i)
        runs.append(("random%d" % i, "MCRandom", cfg, True, env))
    c.notes += [a for a in ASSUME + ASSUME_S + ASSUME_V + ASSUME_R if a not in c.notes]
    c.notes += ["configurations: " + ", ".join(n for n, _, _ in CONFIGS) + "; log and tracing together do not build"]
    c.binary()
    for name, module, cfg, anywhere, env in runs:
        out = c.collect(module, cfg, name, env=env)
        for conf, feats, tag in CONFIGS:
            if not anywhere and not (feats is None or "std" in feats):
                continue                       # histories use items of the standard library
            d = os.path.join(c.work, name + "." + conf)
            os.makedirs(d)
            b = c.binary(feats, tag=tag, must=False)
            if b is None:
                path = os.path.join(d, "replay.json")
                log = open(c.builds[("harness", feats, tag)][2]).read()
                open(path, "w").write(json.dumps({"does not build": conf, "log": log[:4000]}) + "\n")
                sys.stderr.write(log[:2000])
                c.violations += 1
                raise Violation(path)
            with open(out, "rb") as f:
                s = c.harness(b, [COMMAND[module], c.prop, d], d, f)
            c.detail["executions in " + conf] = c.detail.get("executions in " + conf, 0) + s["executions"]
            if "log" in conf or "tracing" in conf:
                if s["records"] == 0:
                    raise ToolError("diagnostics were not active in " + conf)
        os.unlink(out)


COMMAND = {"MCCases": "cases", "MCRandom": "cases", "MCConv": "conv", "MCSession": "sessions"}


def cases_conv(c):
    conv(c)
    cases(c)
    randoms(c)


def only_cases(c):
    cases(c)
    if c.prop in rand.FOCUS:
        randoms(c)


def cases_known(c):
    cases(c)
    randoms(c)
    d = os.path.join(c.work, "known")
    os.makedirs(d)
    keep = dict(c.detail)
    c.harness(c.binary(), ["known", c.prop, d], d)
    c.detail = keep


def only_sessions(c):
    sessions(c)


def cases_threads(c):
    cases(c)
    threads(c)
    randoms(c)


def all_three(c):
    sessions(c)
    cases(c)
    threads(c)
    randoms(c)


CASES = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P16 P17 P18 P19 P20 P25 P27".split()
SESSIONS = "P14 P15 P21 P24".split()
ENGINES = {p: only_cases for p in CASES}
ENGINES.update({p: only_sessions for p in SESSIONS})
ENGINES["P20"] = cases_known
ENGINES["P22"] = all_three
ENGINES["P18"] = ENGINES["P19"] = cases_threads
ENGINES["P13"] = cases_conv
ENGINES["P26"] = macros
ENGINES["P23"] = configs

MORE = " in four ways of building the pattern"
CASES_L = ("all patterns, inputs, positions and handlers of bounded families are enumerated by TLC; each outcome is "
           "checked against the property's law in the model and demanded of the implementation," + MORE +
           "; so are the outcomes of larger programs drawn at random")
SESS_L = ("all histories of operations up to a bounded depth are enumerated by TLC; after every operation the result and the whole "
          "visible state are checked against the property's law in the model and demanded of the implementation")
THR_L = ("; all interleavings of the visible events of threads sharing a pattern are enumerated by TLC and each schedule is forced "
         "on real threads")
NOTE = {
    "*": ("every case of the model is replayed on the implementation", CASES_L),
    "P22": ("every history, case and thread schedule of the model is replayed on the implementation", SESS_L + "; " + CASES_L + THR_L),
    "P18": ("every case and thread schedule of the model is replayed on the implementation", CASES_L + THR_L),
    "P19": ("every case and thread schedule of the model is replayed on the implementation", CASES_L + THR_L),
    "P20": ("every case of the model is replayed on the implementation", CASES_L + "; one recorded finding is looked for at its own inputs"),
    "P13": ("every case and every byte conversion of the model is replayed on the implementation", CASES_L),
    "P23": ("every case, conversion and history of the model is replayed on eight builds of the implementation", CASES_L),
    "P26": ("every written form of the model is compiled and run on the implementation",
            "all written forms of the macros up to the family's bounds are enumerated by TLC, compiled, and run on every input of "
            "the family; the outcome is compared with the pattern the form stands for"),
}
for p in SESSIONS:
    NOTE[p] = ("every history of the model is replayed on the implementation", SESS_L)
