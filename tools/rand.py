"""Random programs: larger patterns than the enumerated families contain, with
inputs sampled from the patterns themselves and then disturbed.  The groups are
written as JSON, evaluated by the specification (spec/NRandom.tla) and replayed."""
import json, random, sys

AL = [97, 98]                        # letters most patterns are made of
OTHER = [44, 32, 233, 20013, 128512, 99]
N0 = {"c": "none"}
PAIRS = [(0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]
BTW = PAIRS + [(0, -1), (1, -1), (2, -1)]
BTWC = [(0, -1), (1, -1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 2), (2, 3)]
WRAPS = ["rx_into_ctor", "rx_box", "rx_rc", "rx_arc", "rx_refcell", "rx_dynbox", "rx_dynarc", "rx_dynrc",
         "boxdynregex", "rcdynregex", "as_ctor", "as_dyn_regex", "fnregex", "rc", "arc", "boxdyn", "arcdyn", "rcdyn",
         "into_box", "into_rc", "into_arc", "into_dyn", "dyn_box", "dyn_arc", "dyn_rc", "oncelock", "as_dyn_ctor",
         "refcell", "some", "into_refcell", "adapter"]
LEAFW = {"rx_into_ctor", "rx_box", "rx_rc", "rx_arc", "rx_cell", "rx_refcell", "rx_mutex", "rx_dynbox", "rx_dynarc", "rx_dynrc",
         "boxdynregex", "rcdynregex", "as_ctor", "as_dyn_regex", "fnregex"}
LOCKS = ["mutex", "rx_mutex", "into_mutex", "cell", "rx_cell", "into_cell"]
ASCII = ["ascii_alphabetic", "ascii_alphanumeric", "ascii_digit", "ascii_graphic", "ascii_lowercase",
         "ascii_punctuation", "ascii_whitespace", "word", "wild"]
UNI = ["alphabetic", "alphanumeric", "lowercase", "whitespace"]
PAIRT = ("then", "seponce", "ifthen", "dthen")
COMPOSITE = ["then", "or", "longest", "prefix", "suffix", "branch", "ifthen", "seponce", "enclose", "optp", "pat",
             "assert", "map", "rec", "irb", "wrap", "collect", "repeat", "rep2", "sep", "sep2", "sepc", "arr", "parr",
             "dthen"]
QUANT = ["once", "opt", "many0", "many1", "btw", "times", "nthen"]
FOCUS = {"P01": COMPOSITE[:9] + ["collect", "rep2", "sep", "sep2", "arr"], "P02": COMPOSITE[:9] + ["rep2", "sep2", "sep", "irb"],
         "P03": COMPOSITE[:-1], "P04": COMPOSITE, "P05": QUANT, "P06": QUANT, "P07": ["collect", "repeat", "rep2"],
         "P08": ["sep", "sep2", "sepc"], "P09": ["or", "arr", "parr", "optp", "branch"], "P10": ["longest", "arr", "parr"],
         "P11": ["then", "ifthen", "prefix", "suffix", "enclose", "seponce"], "P12": ["assert", "lit", "cons", "consall", "end"],
         "P13": ["map"], "P16": COMPOSITE, "P17": ["irb", "dthen"], "P18": ["rec"], "P19": ["wrap"],
         "P20": COMPOSITE, "P25": COMPOSITE, "P27": COMPOSITE, "P22": COMPOSITE, "P23": COMPOSITE}


class Gen:
    def __init__(self, rng, kind, focus, uni):
        self.r, self.k, self.focus, self.uni = rng, kind, focus, uni
        self.budget, self.refs, self.ud = 0, 0, 2

    # ------------------------------------------------------------- units
    def chr(self):
        r = self.r
        if r.random() < .8:
            return r.choice(AL)
        return r.choice([44, 32, 233] if self.k == "b" else OTHER if self.uni else [44, 32, 99])

    def unit(self, d=None):
        r = self.r; x = r.random()
        d = self.ud if d is None else d
        if x < (.5 if self.ud == 2 else .2) or d == 0:
            return {"u": "chr", "c": self.chr()}
        if x < .6:
            return {"u": "set", "cs": [self.chr() for _ in range(r.randint(1, 3))], "w": r.choice(["array", "vec", "slice"])}
        if x < .67:
            return {"u": "cls", "cl": r.choice(ASCII + (UNI if self.k == "t" else []))}
        if x < .73:
            lo, hi = sorted((self.chr(), self.chr()))
            return {"u": "rng", "lk": r.choice("iu"), "lo": lo, "hk": r.choice("ixu"), "hi": hi, "w": "std"}
        if x < .8:
            return {"u": r.choice(["and", "or"]), "l": self.unit(d - 1), "r": self.unit(d - 1)}
        if x < .9:
            return {"u": "not", "x": self.unit(d - 1)}
        if x < .96:
            return {"u": "always"}
        return {"u": "fn", "m": 2, "r": r.randint(0, 1)}

    def cond(self):
        r = self.r; x = r.random()
        if x < .85:
            return N0
        if x < .89:
            return {"c": "idx", "k": r.randint(0, 4)}
        if x < .93:
            return {"c": "not", "k": self.chr()}
        if x < .95:
            return {"c": "err", "k": self.chr()}
        return {"c": "rx", "p": self.leaf()}

    def bounds(self):
        r = self.r
        lk, hk = r.choice("iiux"), r.choice("iixu")
        lo = r.randint(0, 2); hi = r.randint(lo, lo + 2) + (hk == "x") + (lk == "x")
        return {"lk": lk, "lo": 0 if lk == "u" else lo, "hk": hk, "hi": 0 if hk == "u" else hi}

    def quant(self, t):
        u, c = self.unit(), self.cond()
        if t == "btw":
            m, n = self.r.choice(BTW if c is N0 else BTWC)
            return {"t": t, "min": m, "max": n, "u": u, "c": c}
        if t == "times":
            return dict({"t": t, "u": u, "c": c}, **self.bounds())
        if t == "nthen":
            return {"t": t, "u": u, "v": self.unit(), "c": c}
        return {"t": t, "u": u, "c": c}

    def lit(self):
        return {"t": "lit", "s": [self.chr() for _ in range(self.r.choice([1, 1, 2, 2, 3]))], "w": self.r.choice(["str", "str", "own"])}

    def leaf(self):
        r = self.r; x = r.random()
        if x < .62:
            return self.quant(r.choice(["once"] * 4 + QUANT))
        if x < .85:
            return self.lit()
        return r.choice([{"t": "start"}, {"t": "end"}, {"t": "end"}, {"t": "empty"}, {"t": "unit"}, {"t": "fail"}, {"t": "consall"},
                         {"t": "cons", "k": r.randint(0, 3)}, {"t": "rfail", "k": r.randint(0, 2)}, {"t": "lit", "s": [], "w": "str"}])

    def firm(self):
        """consumes something when it matches"""
        return self.r.choice([lambda: self.lit(), lambda: {"t": "once", "u": self.unit(), "c": N0},
                              lambda: {"t": "many1", "u": self.unit(), "c": N0}])()

    # ---------------------------------------------------------- patterns
    # env: for each enclosing recursion whether a reference to it is allowed here
    def pat(self, d, env, kinds=None):
        r = self.r
        self.budget -= 1
        if any(env) and self.refs > 0 and r.random() < .35:
            self.refs -= 1
            return {"t": "self", "k": r.choice([k for k in range(len(env)) if env[len(env) - 1 - k]])}
        if kinds is None and (d == 0 or self.budget <= 0 or r.random() < .12):
            return self.leaf()
        t = r.choice(kinds) if kinds else r.choice(self.focus + COMPOSITE)
        return self.make(t, d, env)

    def make(self, t, d, env):
        r = self.r
        go = lambda e=env: self.pat(d - 1, e)
        after = lambda p, e=env: [True] * len(e) if firm(p) else e
        if t in QUANT:
            return self.quant(t)
        if t == "lit":
            return self.lit()
        if t == "cons":
            return {"t": t, "k": r.randint(0, 4)}
        if t in ("consall", "end"):
            return {"t": t}
        if t in ("then",):
            l = go(); return {"t": t, "l": l, "r": go(after(l))}
        if t in ("or", "longest"):
            return {"t": t, "l": go(), "r": go()}
        if t == "branch":
            f = r.choice([{"f": "at", "k": r.randint(0, 2)}, {"f": "pk", "k": self.chr()}, {"f": "pk", "k": self.chr()},
                          {"f": "yes"}, {"f": "no"}, {"f": "err", "k": self.chr()}])
            return {"t": t, "f": f, "l": go(), "r": go()}
        if t == "ifthen":
            l = go(); i = go(after(l)); return {"t": t, "l": l, "i": i, "r": go(after(i, after(l)))}
        if t == "seponce":
            l = go(); s = go(after(l)); return {"t": t, "l": l, "s": s, "r": go(after(s, after(l)))}
        if t == "enclose":
            o = go(); p = go(after(o)); return {"t": t, "o": o, "p": p, "c": go(after(p, after(o)))}
        if t == "prefix":
            x = go(); return {"t": t, "x": x, "p": go(after(x))}
        if t == "suffix":
            p = go(); return {"t": t, "p": p, "x": go(after(p))}
        if t in ("optp", "pat"):
            return {"t": t, "p": go()}
        if t == "assert":
            return {"t": t, "p": go(), "pos": r.random() < .6}
        if t == "map":
            if r.random() < .35:
                p = self.make(r.choice(PAIRT[:3] if env else PAIRT), d - 1, env)
                return {"t": t, "p": p, "m": {"m": r.choice(["sel0", "sel1", "seleq", "selneq"])}}
            m = r.choice([{"m": "id"}, {"m": "tag", "k": r.randint(1, 9)}, {"m": "tag", "k": r.randint(1, 9)},
                          {"m": "short", "k": r.randint(0, 2)}, {"m": "err"}])
            return {"t": t, "p": go(), "m": m}
        if t == "rec":
            if len(env) >= 2:
                return self.leaf()
            e = env + [False]
            base = self.pat(d - 1, e)
            g = self.firm()
            deep = r.choice([{"t": "then", "l": g, "r": self.pat(d - 1, [True] * len(e))},
                             {"t": "enclose", "o": g, "p": self.pat(d - 1, [True] * len(e)), "c": self.leaf()},
                             {"t": "prefix", "x": g, "p": self.pat(d - 1, [True] * len(e))}])
            body = r.choice([{"t": "or", "l": deep, "r": base}, {"t": "optp", "p": deep}, {"t": "longest", "l": deep, "r": base},
                             {"t": "arr", "w": r.choice(["array", "slice", "vec"]), "ltm": r.random() < .5, "ps": [deep, base]}, deep])
            return {"t": t, "p": body}
        if t == "wrap":
            w = r.choice(WRAPS + (LOCKS if not env else []) + ["none"] * (r.random() < .1))
            return {"t": t, "w": w, "p": go()}
        if t in ("irb", "dthen"):
            t = "irb" if env else t              # a body is also used to recognise
            p = go()
            e = after(p)
            f = r.choice([lambda: {"f": "same"}, lambda: {"f": "len"}, lambda: {"f": "pat", "p": go(e)}, lambda: {"f": "pat", "p": go(e)},
                          lambda: {"f": "adv", "k": r.randint(0, 2), "p": go(e)}, lambda: {"f": "err", "k": r.randint(0, 1)},
                          lambda: {"f": "cond", "k": r.randint(0, 1), "p": go(e)}])()
            return {"t": t, "p": p, "f": f}
        if t == "collect":
            return {"t": t, "p": go(), "min": r.randint(0, 3)}
        if t == "repeat":
            return dict({"t": t, "p": go()}, **self.bounds())
        if t == "rep2":
            m, n = r.choice(PAIRS); return {"t": t, "p": go(), "min": m, "max": n}
        if t in ("sep", "sepc"):
            p = go(); return {"t": t, "p": p, "s": go(after(p)), "min": r.randint(0, 2), "skip": r.random() < .6}
        if t == "sep2":
            p = go(); m, n = r.choice(PAIRS)
            return {"t": t, "p": p, "s": go(after(p)), "min": m, "max": n, "skip": r.random() < .6}
        if t in ("arr", "parr"):
            n = r.randint(1, 4)
            x = {"t": t, "w": r.choice(["array", "slice", "vec"]), "ltm": r.random() < .5, "ps": [go() for _ in range(n)]}
            if t == "parr":
                x["ks"] = [r.randint(1, 99) for _ in range(n)]
            return x
        raise ValueError(t)

    # ------------------------------------------------------------ inputs
    def item(self, u):
        """an item the unit probably accepts"""
        r = self.r
        if u["u"] in ("chr", "eq"):
            return u["c"]
        if u["u"] == "set":
            return r.choice(u["cs"])
        if u["u"] in ("and", "or"):
            return self.item(r.choice([u["l"], u["r"]]))
        if u["u"] == "rng":
            return u["lo"] if u["lk"] == "i" else u["hi"] if u["hk"] == "i" else self.chr()
        if u["u"] == "not":
            y = self.item(u["x"])
            return r.choice([c for c in AL + [44] if c != y])
        return self.chr()

    def count(self, lo, hi):
        return self.r.randint(lo, max(lo, min(hi if hi >= 0 else lo + 3, lo + 3)))

    def sample(self, p, env, n):
        """a text the pattern probably matches"""
        r = self.r; t = p["t"]
        if n <= 0:
            return []
        s = lambda q: self.sample(q, env, n - 1)
        run = lambda q, k: [c for _ in range(k) for c in s(q)]
        its = lambda k: [self.item(p["u"]) for _ in range(k)]
        if t == "once": return its(1)
        if t == "opt": return its(r.randint(0, 1))
        if t == "many0": return its(r.randint(0, 3))
        if t == "many1": return its(r.randint(1, 3))
        if t == "btw": return its(self.count(p["min"], p["max"]))
        if t in ("times", "repeat"):
            lo = p["lo"] + (p["lk"] == "x"); hi = -1 if p["hk"] == "u" else p["hi"] - (p["hk"] == "x")
            k = self.count(lo, hi)
            return its(k) if t == "times" else run(p["p"], k)
        if t == "nthen": return its(1) + [self.item(p["v"])]
        if t == "lit": return list(p["s"])
        if t == "cons": return [self.chr() for _ in range(p["k"])]
        if t == "then": return s(p["l"]) + s(p["r"])
        if t in ("or", "longest", "branch"): return s(r.choice([p["l"], p["r"]]))
        if t == "ifthen": return s(p["l"]) + (s(p["i"]) + s(p["r"]) if r.random() < .7 else [])
        if t == "seponce": return s(p["l"]) + s(p["s"]) + s(p["r"])
        if t == "enclose": return s(p["o"]) + s(p["p"]) + s(p["c"])
        if t == "prefix": return s(p["x"]) + s(p["p"])
        if t == "suffix": return s(p["p"]) + s(p["x"])
        if t == "optp": return s(p["p"]) if r.random() < .7 else []
        if t in ("pat", "map", "wrap"): return s(p["p"])
        if t == "assert": return []
        if t == "rec": return self.sample(p["p"], env + [p["p"]], n - 1)
        if t == "self":
            e = env[:len(env) - p["k"]]
            return self.sample(e[-1], e, n - 2)
        if t in ("irb", "dthen"):
            x = s(p["p"]); f = p["f"]["f"]
            if f == "same": return x + x
            if f == "len": return x + [self.chr() for _ in x]
            return x + (s(p["f"]["p"]) if "p" in p["f"] else [])
        if t in ("collect", "rep2"): return run(p["p"], self.count(p["min"], p.get("max", -1)))
        if t in ("sep", "sep2", "sepc"):
            out = []
            for i in range(self.count(p["min"], p.get("max", -1))):
                out += s(p["p"]) + s(p["s"])
            return out if r.random() < .4 or not out else out + s(p["p"])
        if t in ("arr", "parr"): return s(r.choice(p["ps"]))
        return []

    def disturb(self, s):
        r = self.r; s = list(s)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            x = r.random()
            if x < .3 and s:
                del s[r.randrange(len(s))]
            elif x < .6:
                s.insert(r.randint(0, len(s)), self.chr())
            elif x < .8 and s:
                s[r.randrange(len(s))] = self.chr()
            elif s:
                s = s[:r.randint(0, len(s))]
        return s


def firm(p):
    t = p["t"]
    if t in ("once", "many1", "nthen"): return True
    if t == "lit": return bool(p["s"])
    if t == "btw": return p["min"] > 0
    if t in ("then",): return firm(p["l"]) or firm(p["r"])
    if t in ("or", "longest", "branch"): return firm(p["l"]) and firm(p["r"])
    if t == "ifthen": return firm(p["l"])
    if t == "seponce": return firm(p["l"]) or firm(p["s"]) or firm(p["r"])
    if t == "enclose": return firm(p["o"]) or firm(p["p"]) or firm(p["c"])
    if t in ("prefix", "suffix"): return firm(p["x"]) or firm(p["p"])
    if t in ("pat", "map", "wrap", "irb", "dthen"): return firm(p["p"])
    if t in ("collect", "rep2", "sep", "sep2", "sepc"): return p["min"] > 0 and firm(p["p"])
    if t in ("arr", "parr"): return all(firm(q) for q in p["ps"])
    return False


def has(p, ts):
    if isinstance(p, dict):
        return p.get("t") in ts or any(has(v, ts) for v in p.values())
    return isinstance(p, list) and any(has(v, ts) for v in p)


CON = {"then": "lr", "or": "lr", "longest": "lr", "branch": "lr", "ifthen": "lr", "seponce": "lr", "enclose": "p", "prefix": "p",
       "suffix": "p", "optp": "p", "map": "p", "rec": "p", "wrap": "p", "collect": "p", "repeat": "p", "rep2": "p", "sep": "p",
       "sep2": "p", "sepc": "p", "dthen": "p"}


def buildable(p, con=True):
    """dthen constructs only: is it where values are constructed?"""
    if not isinstance(p, dict) or "t" not in p:
        if isinstance(p, dict):
            return all(buildable(v, con) for v in p.values())
        return all(buildable(v, con) for v in p) if isinstance(p, list) else True
    if p["t"] == "dthen" and not con or p["t"] == "wrap" and p["w"] in LEAFW and has(p, ["dthen"]):
        return False
    for k, v in p.items():
        if k == "ps" and not all(buildable(q, con) for q in v):
            return False
        if k == "f" and not buildable(v, con and p["t"] == "dthen"):
            return False
        if k not in ("ps", "f") and not buildable(v, con and k in CON.get(p["t"], "")):
            return False
    return True


def groups(prop, seed, n, depth=4, size=14):
    rng = random.Random("%s/%s" % (seed, prop))
    focus = FOCUS[prop]
    out = []
    while len(out) < n:
        kind = "b" if rng.random() < .12 else "t"
        uni = rng.random() < (.8 if prop == "P20" else .3)
        g = Gen(rng, kind, focus, uni)
        if prop == "P05":
            g.ud = 5                             # deep expressions of units
        ps, want = [], rng.randint(1, 3)
        while len(ps) < want:
            g.budget, g.refs = rng.randint(4, size), 2      # each reference may double the work per letter
            p = g.pat(rng.randint(2, depth), [], focus if rng.random() < .5 else None)
            if has(p, focus) and p["t"] != "self" and buildable(p):
                ps.append(p)
        ins, blank = [], prop == "P16" or rng.random() < .12
        for p in ps:
            for _ in range(5):
                s = g.disturb(g.sample(p, [], 12))[:8 if has(ps, ["rec"]) else 12]
                if blank:
                    s = [c for x in s for c in ([32] * rng.choice([0, 0, 1, 2]) + [x])][:14]
                if kind == "b":
                    s = [min(c, 255) for c in s]
                if s not in ins:
                    ins.append(s)
        con = has(ps, ["dthen"])
        ops = ["con"] if con else ["mat", "con"]
        if not con and rng.random() < .2:
            ops += ["raw", "assert"]
        if not con and rng.random() < .15:
            ops += ["pol"]
        offs = rng.choice(["zero"] * 6 + ["bnd", "all"])
        # handlers and functions that read a piece need pieces that are text
        txt = json.dumps(ps)
        whole = kind == "b" or offs != "all" and not has(ps, ["cons", "rfail"]) and '"f": "adv"' not in txt and '"f": "err"' not in txt
        if '"f": "same"' in txt and not whole:
            continue
        hds = [{"t": "ok", "k": 0}]
        if rng.random() < .5:
            hds += [rng.choice([{"t": "nth", "k": rng.randint(1, 5)}] + [{"t": "chr", "k": rng.choice(AL)}] * whole)]
        pols = [[]]
        if blank:
            pols = [[rng.choice([{"t": "many0", "u": {"u": "chr", "c": 32}, "c": N0},
                                 {"t": "many0", "u": {"u": "cls", "cl": "ascii_whitespace"}, "c": N0},
                                 {"t": "opt", "u": {"u": "chr", "c": 32}, "c": N0},
                                 {"t": "many1", "u": {"u": "chr", "c": 32}, "c": N0}])]]
        pa = [[g.leaf(), g.leaf()]] if "pol" in ops else [[{"t": "empty"}, {"t": "empty"}]]
        out.append({"ps": ps, "ins": [{"k": kind, "cs": s} for s in ins], "pols": pols, "hds": hds, "ops": ops,
                    "offs": offs, "pa": pa, "er": prop == "P27"})
    return out


if __name__ == "__main__":
    json.dump(groups(sys.argv[1], int(sys.argv[2]), int(sys.argv[3])), sys.stdout)
