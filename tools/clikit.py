"""Scratch modules, the CLI built from /repo, and file-system snapshots."""
import hashlib, os, random, re, resource, shutil, signal, stat, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from common import *

GENERATED = ("hotswap.bureau.go", "hotswap.main.go", "hotswap.live.go")

FUNCS = {
    "OnLoad": "func OnLoad(data interface{}) error { return nil }",
    "OnInit": "func OnInit(v *vault.Vault) error { return nil }",
    "OnFree": "func OnFree() {}",
    "Export": "func Export() interface{} { return nil }",
    "Import": "func Import() interface{} { return nil }",
    "InvokeFunc": "func InvokeFunc(name string, params ...interface{}) (interface{}, error) { return nil, nil }",
    "Reloadable": "func Reloadable() bool { return true }",
}
REQUIRED = list(FUNCS)


def root_source(pkg, extra="", imports=(), skip=(), funcs=None):
    """The source of a complete plugin root package in one file."""
    f = dict(FUNCS, **(funcs or {}))
    imps = list(imports)
    if "OnInit" not in skip:
        imps.append('"github.com/edwingeng/hotswap/vault"')
    s = "package %s\n\n" % pkg
    if imps:
        s += "import (\n" + "".join("\t%s\n" % i for i in imps) + ")\n\n"
    for k in REQUIRED:
        if k not in skip:
            s += f[k] + "\n\n"
    return s + extra


class Result:
    def __init__(self, rc, out, err, wall):
        self.rc, self.out, self.err, self.wall = rc, out, err, wall

    def text(self):
        return "exit status %s\nstdout: %s\nstderr: %s" % (self.rc, self.out[-1500:], self.err[-3000:])

    def crashed(self):
        return re.search(r"^goroutine \d+ \[", self.err, re.M) or "panic: " in self.err or "fatal error: " in self.err


class Kit:
    def __init__(self, c, race=False):
        self.c = c
        self.n = 0
        os.makedirs(c.path("bin"), exist_ok=True)
        self.cli = self.build(False)
        self.cli_race = self.build(True) if race else None
        sums = open(os.path.join(VERIF, "harness", "go.sum")).read()
        repo_sum = open(os.path.join(REPO, "go.sum")).read()
        self.gosum = "\n".join(sorted(set((sums + "\n" + repo_sum).split("\n")))).strip() + "\n"

    def build(self, race):
        out = self.c.path("bin", "hotswap.race" if race else "hotswap")
        # The copy keeps the go command from touching go.mod and go.sum of /repo.
        mf = self.c.path("bin", "repo.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), mf)
        shutil.copy(os.path.join(REPO, "go.sum"), self.c.path("bin", "repo.sum"))
        self.c.sh(["go", "build", "-buildvcs=false", "-modfile", mf, "-trimpath"] + (["-race"] if race else []) + ["-o", out, "./cli/hotswap"],
                  cwd=REPO, timeout=800, what="building the CLI")
        return out

    def module(self, name, path="example.com/m", git=True):
        """Makes a module under the scratch directory that requires hotswap from /repo."""
        d = self.c.path("m", name)
        os.makedirs(d)
        mod = open(os.path.join(VERIF, "harness", "go.mod")).read()
        mod = re.sub(r"(?m)^module .*$", "module " + path, mod)
        mod = re.sub(r"(?m)^\s*github.com/anishathalye/porcupine .*\n", "", mod)
        mod = re.sub(r"(?m)^go .*$", "go 1.21", mod)
        write(os.path.join(d, "go.mod"), mod)
        write(os.path.join(d, "go.sum"), self.gosum)
        if git:
            self.git(d)
        return d

    def git(self, d):
        for a in (["init", "-q"], ["add", "go.mod"], ["commit", "-q", "-m", "x"]):
            self.c.sh(["git"] + a, cwd=d, what="git " + a[0])

    def run(self, args, cwd, env=None, timeout=300, race=False, cpu=None, mem=None):
        def limits():
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        e = dict(self.c.env)
        e.update(env or {})
        t = time.time()
        p = subprocess.Popen([self.cli_race if race else self.cli] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True, preexec_fn=limits, text=True, errors="replace")
        try:
            out, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            rc = "timeout"
        return Result(rc, out, err, time.time() - t)

    def go(self, args, cwd, timeout=600, env=None):
        e = dict(self.c.env)
        e.update(env or {})
        return self.c.sh(["go"] + args, cwd=cwd, timeout=timeout, env=e)

    def parallel(self, fn, items, workers=8):
        with ThreadPoolExecutor(workers) as ex:
            return list(ex.map(fn, items))


def rng(c, i):
    return random.Random("%d:%s:%s" % (c.seed, c.prop, i))


def write(p, s, mode=None):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(s if isinstance(s, bytes) else s.encode())
    if mode is not None:
        os.chmod(p, mode)


def write_tree(d, files):
    for k, v in files.items():
        write(os.path.join(d, k), v)


def snapshot(d, skip=(".git",)):
    """relative path -> what is there."""
    res = {}
    for root, dirs, files in os.walk(d):
        for x in list(dirs) + files:
            p = os.path.join(root, x)
            rel = os.path.relpath(p, d)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                res[rel] = "-> " + os.readlink(p)
            elif stat.S_ISDIR(st.st_mode):
                res[rel] = "dir %o" % (st.st_mode & 0o7777)
            elif stat.S_ISREG(st.st_mode):
                res[rel] = "file %o %s" % (st.st_mode & 0o7777, hashlib.sha1(open(p, "rb").read()).hexdigest()[:16])
            else:
                res[rel] = "other"
        dirs[:] = [x for x in dirs if x not in skip]
        for x in skip:
            res.pop(os.path.relpath(os.path.join(root, x), d), None)
    return res


def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append("%s: %s -> %s" % (k, a.get(k, "absent"), b.get(k, "absent")))
    return out
