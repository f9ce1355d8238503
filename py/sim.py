"""One worker's handle on the simulator: scratch directories, scenarios, runs."""
import json
import os
import shutil
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
SERVER = os.path.join(BUILD, "simserver")

FK = {"EIO": 1, "ENOSPC": 2, "EACCES": 3, "EMFILE": 4, "ENOENT": 5, "TORN_ENOSPC": 6, "TORN_EIO": 7, "KILL_BEFORE": 8, "KILL_AFTER": 9, "KILL_MID": 10, "SHORT": 11, "EINTR": 12}
IOK = {1: "open", 2: "read", 3: "write", 4: "seek", 5: "truncate", 6: "sync", 7: "close", 8: "unlink", 9: "rename"}
CLS = {0: "other", 1: "deck", 2: "mesh", 3: "output", 4: "timing", 5: "contact"}


class SimError(Exception):
    pass


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        os.makedirs(scratch, exist_ok=True)
        self.err = open(os.path.join(scratch, "server.err"), "a")
        self.p = None
        self.stats = {}
        self.scheds = set()
        self.faults = {}
        self.log = []
        self.replay = {}

    def start(self):
        self.p = subprocess.Popen([SERVER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, cwd=self.scratch)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def reset(self):
        """Forget what happened so far; empty the scratch directory."""
        self.log = []
        for n in os.listdir(self.scratch):
            if n != "server.err":
                p = os.path.join(self.scratch, n)
                if os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
                else:
                    os.unlink(p)

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def run(self, name, d, sc):
        """Execute one scenario in directory d.  `name` identifies the run inside its trial."""
        if name in self.replay:
            sc = dict(sc, replay=1, dec=self.replay[name])
        L = ["cwd " + d, "prog " + sc.get("prog", "nimble"), "nranks %d" % sc["nranks"]]
        for a in sc.get("args", []):
            L.append("arg " + a)
        L.append("seed %d" % sc.get("seed", 0))
        if sc.get("replay"):
            L.append("replay 1")
            for x in sc.get("dec", []):
                L.append("dec %d %d %d %d" % tuple(x))
        else:
            L.append("profile " + " ".join(str(x) for x in sc.get("profile", [0] * 6)))
        if sc.get("slow"):
            L.append("slow %d %d" % tuple(sc["slow"]))
        L.append("fold %d" % sc.get("fold", 0))
        L.append("poison %d" % sc.get("poison", 1))
        if sc.get("perturb"):
            L.append("perturb %d" % sc["perturb"])
        for f in sc.get("iofaults", []):
            L.append("iofault %d %d %d %d" % (f[0], f[1], FK[f[2]], f[3]))
        for f in sc.get("allocfaults", []):
            L.append("allocfault %d %d %d %d" % tuple(f))
        for f in sc.get("kills", []):
            L.append("killrpc %d %d" % tuple(f))
        for c in sc.get("clocks", []):
            L.append("clock %r %r %d %d %s" % (float(c["base"]), float(c["drift"]), c.get("freeze", 0), len(c["jumps"]), " ".join("%d %r" % (i, float(x)) for i, x in c["jumps"])))
        L.append("cpulimit %d" % sc.get("cpulimit", 12))
        L.append("walllimit %d" % sc.get("walllimit", 90))
        if sc.get("rpclimit"):
            L.append("rpclimit %d" % sc["rpclimit"])
        if sc.get("trace"):
            L.append("trace 1")
        if sc.get("meter"):
            L.append("meter 1")
        if sc.get("iolog"):
            L.append("iolog 1")
        path = os.path.join(self.scratch, "scenario")
        with open(path, "w") as f:
            f.write("\n".join(L) + "\n")
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write(path + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except (BrokenPipeError, OSError):
                line = ""
            if line:
                break
            self.close()
        if not line:
            raise SimError("the simulator ended unexpectedly on " + path)
        r = json.loads(line)
        if "error" in r:
            raise SimError(r["error"])
        for v in r["viol"]:
            if v.startswith("internal:"):
                raise SimError(v)
        self.count("runs")
        self.count("simns", r["simns"])
        for k in ("rpcs", "msgs", "colls", "rdv", "sync", "delays", "falsepolls", "anysrc", "yields"):
            self.count(k, r[k])
        self.scheds.add(r["sched"])
        if r["delays"]:
            self.fault("message or processor delay", r["delays"])
        if r["rdv"]:
            self.fault("send blocked until matched", r["rdv"])
        if r["sync"]:
            self.fault("collective forced to synchronise", r["sync"])
        if sc.get("slow"):
            self.fault("slow rank")
        for q in r["ranks"]:
            if q["fio"]:
                self.fault("i/o fault", q["fio"])
            if q["falloc"]:
                self.fault("failed allocation", q["falloc"])
            if q["fclock"]:
                self.fault("clock jump", q["fclock"])
            if q["fkill"]:
                self.fault("rank killed", q["fkill"])
        self.log.append([name, r["hash"], r["sched"], r["ok"], r["viol"], r["dec"]])
        return r


def text(d, r, k):
    try:
        with open(os.path.join(d, "std.%s.%d" % (k, r)), errors="replace") as f:
            return f.read()
    except OSError:
        return ""
