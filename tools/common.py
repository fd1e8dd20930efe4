"""What all checks share: scratch directories, the build, evidence and the verdict."""
import json, os, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
GOROOT = "/opt/veriftools/go1.27.3"


class Broken(Exception):
    """The check itself could not be carried out: no verdict."""


def env(extra=None, scratch=None):
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", CGO_ENABLED="1",
             GOROOT=GOROOT, GOPATH="/root/go", GOCACHE="/root/.cache/go-build",
             PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GIT_CONFIG_COUNT="1", GIT_CONFIG_KEY_0="safe.directory", GIT_CONFIG_VALUE_0="*",
             GIT_AUTHOR_NAME="v", GIT_AUTHOR_EMAIL="v@v", GIT_COMMITTER_NAME="v", GIT_COMMITTER_EMAIL="v@v")
    for k in [k for k in e if k.startswith("hotswap:")]:
        del e[k]
    if scratch:
        t = os.path.join(scratch, "tmp")
        os.makedirs(t, exist_ok=True)
        e["TMPDIR"] = t
    if extra:
        e.update(extra)
    return e


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="hsv-%s-" % prop)
        os.chmod(self.scratch, 0o755)
        self.env = env(scratch=self.scratch)
        self._fast = None
        self.violations = []      # (message, replay dict)
        self.known = []           # messages of known findings seen
        self.evaluations = 0
        self.distinct = 0
        self.rule = ""
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.notes = []

    def quick(self):
        return self.tier != "thorough"

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def sh(self, cmd, cwd=None, timeout=600, env=None, what=None):
        r = subprocess.run(cmd, cwd=cwd or self.scratch, env=env or self.env, timeout=timeout, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0 and what:
            raise Broken("%s failed:\n%s" % (what, r.stdout[-6000:]))
        return r

    def violation(self, msg, replay):
        self.violations.append((msg, replay))

    def finish(self):
        """Writes the evidence and says the verdict."""
        listed = load_known()
        fresh = []
        for msg, rep in self.violations:
            k = next((k for k in listed if k["property"] == self.prop and rep.get("finding") == k["id"]), None)
            if k:
                if k["id"] not in [x["id"] for x in self.known]:
                    self.known.append(k)
            else:
                fresh.append((msg, rep))
        cov = {"evaluations": int(self.evaluations), "distinct_nontrivial": int(self.distinct), "rule": self.rule,
               "samples": self.samples[:12] or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for n in self.notes[:20]:
            print("note:", n)
        if fresh:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, (msg, rep) in enumerate(fresh[:5]):
                rep = dict(rep, property=self.prop, seed=self.seed, tier=self.tier, message=msg)
                p = os.path.join(d, "%s-%d.json" % (self.prop, i))
                with open(p, "w") as f:
                    json.dump(rep, f, indent=1, ensure_ascii=False)
                    f.write("\n")
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  " + msg[:1500].replace("\n", "\n  "))
            return 1
        if self.evaluations == 0 or self.distinct == 0:
            print("%s: nothing was observed" % self.prop)
            return 2
        print("%s: held on %d evaluations, %d distinct non-trivial situations (%.0f s)" % (
            self.prop, self.evaluations, self.distinct, time.time() - self.t0))
        return 0

    def fast(self):
        """A directory for many small files: in memory, if there is room."""
        if self._fast is None:
            self._fast = self.scratch
            try:
                v = os.statvfs("/dev/shm")
                if v.f_bavail * v.f_frsize > 1 << 30 and v.f_favail > 100000:
                    self._fast = tempfile.mkdtemp(prefix="hsv-%s-" % self.prop, dir="/dev/shm")
            except OSError:
                pass
        return self._fast

    def clean(self):
        if self._fast and self._fast != self.scratch:
            subprocess.run(["chmod", "-R", "u+rwX", self._fast], stderr=subprocess.DEVNULL)
            shutil.rmtree(self._fast, ignore_errors=True)
        if not os.environ.get("VERIF_KEEP"):
            subprocess.run(["chmod", "-R", "u+rwX", self.scratch], stderr=subprocess.DEVNULL)
            shutil.rmtree(self.scratch, ignore_errors=True)


def load_known():
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
            for l in f:
                l = l.strip()
                if l:
                    d = json.loads(l)
                    if d.get("status") == "known":
                        out.append(d)
    except FileNotFoundError:
        pass
    return out


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]
