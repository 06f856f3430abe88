#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property.

TLC explores the models of /verif/spec, checks the property's laws on every
state, and emits the behaviours; the replayer in /verif/harness performs each
of them on the implementation in /repo and demands the specified outcome.

exit 0: held; exit 1 with a VIOLATION line: broken; exit 2: no answer.
"""
import json, os, re, shutil, signal, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import ToolError, Violation
from engines import ENGINES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.detail, self.notes = [], {}, []
        self.violations = 0
        self.known = []
        self.builds = {}
        self.deadline = T0 + (840 if self.quick else 6 * 3600)

    # ---------------------------------------------------------------- build
    def build(self, feats=None, crate="harness", env=None, tag=""):
        """start building a crate of /verif with some features (in parallel)"""
        key = (crate, feats, tag)
        if key in self.builds:
            return
        d = os.path.join(VERIF, crate)
        name = "default" if feats is None else (feats or "none").replace(",", "_")
        name += tag
        env = dict(os.environ, **(env or {}), CARGO_NET_OFFLINE="true",
                   CARGO_TARGET_DIR=os.path.join(d, "target", "cfg_" + name))
        cmd = ["cargo", "build", "--offline", "--locked", "-q"]
        if feats is not None:
            cmd += ["--no-default-features"] + (["--features", feats] if feats else [])
        out = open(os.path.join(self.work, "build_%s_%s.log" % (crate, name)), "w")
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=out, stderr=subprocess.STDOUT)
        self.builds[key] = (p, os.path.join(d, "target", "cfg_" + name, "debug", crate), out.name)

    def binary(self, feats=None, crate="harness", must=True, tag=""):
        self.build(feats, crate, tag=tag)
        p, path, lg = self.builds[(crate, feats, tag)]
        rc = p.wait(timeout=max(1, self.deadline - time.time()))
        if rc != 0:
            txt = open(lg).read()
            if must:
                sys.stderr.write(txt[-3000:])
                raise ToolError("building %s (%s) failed" % (crate, feats))
            return None
        return path

    # ------------------------------------------------------------------ TLC
    def tlc_cmd(self, module, cfg, name, workers, mem, extra):
        cfgf = os.path.join(self.work, name + ".cfg")
        open(cfgf, "w").write(cfg)
        meta = os.path.join(self.work, name + ".meta")
        return (["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + mem,
                 "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
                 "-DTLA-Library=" + SPEC, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
                 "-metadir", meta, "-config", cfgf] + extra + [module], meta)

    def tlc_read(self, txt, name):
        """states and verdict from TLC's messages"""
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", txt)
        if "Model checking completed. No error has been found." not in txt or not m:
            # a long simulation ends differently
            ms = re.search(r"The number of states generated: (\d[\d,]*)", txt)
            if ms and "Error:" not in txt and "violated" not in txt:
                g = int(ms.group(1).replace(",", ""))
                self.transitions += g
                self.states += g
                return g
            sys.stderr.write(txt[-4000:])
            raise ToolError("TLC did not finish %s" % name)
        g, d = (int(x.replace(",", "")) for x in m[-1])
        self.states += d
        self.transitions += g
        return d

    def emit(self, module, cfg, harness_args, name, workers=7, mem="6g", extra=(), feats=None, env=None):
        """TLC explores `module`, its output drives the replayer"""
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        self.build(feats)
        cmd, meta = self.tlc_cmd(module, cfg, name, workers, mem, list(extra))
        env = dict(os.environ, **(env or {}))
        if self.quick:
            out = os.path.join(d, "tlc.out")
            with open(out, "wb") as f:
                t = subprocess.Popen(cmd, cwd=SPEC, env=env, stdout=f, stderr=subprocess.STDOUT)
                b = self.binary(feats)
                try:
                    t.wait(timeout=max(1, self.deadline - time.time()))
                except subprocess.TimeoutExpired:
                    t.kill()
                    raise ToolError("TLC timed out on " + name)
            log(name, "explored")
            hs = open(out, "rb")
            self.harness(b, harness_args(d), d, hs)
            hs.close()
            os.unlink(out)
        else:
            b = self.binary(feats)
            t = subprocess.Popen(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            try:
                self.harness(b, harness_args(d), d, t.stdout)
            finally:
                t.stdout.close()
                try:
                    t.wait(timeout=30)
                except subprocess.TimeoutExpired:
                    t.kill()
        shutil.rmtree(meta, ignore_errors=True)
        n = self.tlc_read(open(os.path.join(d, "tlc.log"), errors="replace").read(), name)
        log(name, "replayed,", n, "states")

    def harness(self, b, args, d, stdin=None):
        """run the replayer; a crash of the process is a violation too"""
        err = open(os.path.join(d, "stderr"), "w")
        try:
            p = subprocess.run([b] + args, stdin=stdin or subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=err,
                               timeout=max(1, self.deadline - time.time()))
        except subprocess.TimeoutExpired:
            raise ToolError("replayer timed out")
        err.close()
        out = p.stdout.decode(errors="replace")
        e = open(err.name, errors="replace").read()
        for l in out.splitlines():
            if l.startswith("KNOWN-FINDING"):
                self.known.append(l)
        if p.returncode == 1 and "VIOLATION" in out:
            sys.stderr.write(e[:3000] + "\n")
            self.violations += 1
            m = re.search(r"replay=(\S+)", out)
            raise Violation(m.group(1))
        if p.returncode < 0 or p.returncode in (101, 134, 139):
            # died on a signal (stack overflow, abort, out of memory): the case is in `current`
            cur = ""
            try:
                cur = open(os.path.join(d, "current")).readline().strip()
            except OSError:
                pass
            path = os.path.join(d, "replay.json")
            open(path, "w").write(json.dumps({"died": p.returncode, "case": cur, "stderr": e[-500:]}) + "\n")
            self.violations += 1
            raise Violation(path)
        if p.returncode != 0:
            sys.stderr.write(e[-3000:])
            raise ToolError("replayer exit %d" % p.returncode)
        s = json.load(open(os.path.join(d, "summary.json")))
        for k, v in s.items():
            if k == "samples":
                self.samples += v[:4]
            elif isinstance(v, int):
                self.detail[k] = self.detail.get(k, 0) + v
        self.traces += s.get("executions", 0)
        return s

    def tlc(self, module, cfg, name, workers=7, mem="6g", extra=(), env=None, allow=False):
        """TLC on its own; returns its messages"""
        cmd, meta = self.tlc_cmd(module, cfg, name, workers, mem, list(extra))
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, **(env or {})), timeout=max(1, self.deadline - time.time()))
        shutil.rmtree(meta, ignore_errors=True)
        txt = p.stdout.decode(errors="replace")
        open(os.path.join(self.work, name + ".tlc"), "w").write(txt)
        if allow and p.returncode != 0:
            return txt
        n = self.tlc_read(txt, name)
        log(name, n, "states")
        return txt

    # ------------------------------------------------------------- evidence
    def collect(self, module, cfg, name, mem="6g", env=None):
        """TLC's behaviours in a file, to be replayed more than once"""
        cmd, meta = self.tlc_cmd(module, cfg, name, 7, mem, [])
        out = os.path.join(self.work, name + ".out")
        with open(out, "wb") as f:
            p = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})),
                               timeout=max(1, self.deadline - time.time()))
        shutil.rmtree(meta, ignore_errors=True)
        txt = "".join(l for l in open(out, errors="replace") if not l.startswith('"['))
        log(name, self.tlc_read(txt, name), "states")
        return out

    def evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        e = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples[:12] or ["none"],
                "detail": self.detail,
            },
            "assumptions": self.notes,
            "wall_s": round(time.time() - T0, 2), "violations": self.violations,
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)
            f.write("\n")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    rc = 2
    try:
        c.build()
        ENGINES[prop](c)
        for l in sorted(set(c.known)):
            print(l)
        rc = 0
    except Violation as v:
        print("VIOLATION property=%s replay=%s" % (prop, v))
        rc = 1
    except (ToolError, subprocess.TimeoutExpired, OSError) as e:
        log("no answer:", e)
        rc = 2
    for (p, _, _) in c.builds.values():
        if p.poll() is None:
            p.kill()
    c.evidence()
    log(prop, tier, "exit", rc)
    sys.exit(rc)


if __name__ == "__main__":
    main()
