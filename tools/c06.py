"""C06: exactly the right files take part in a plugin build."""
import os, re, shutil
from clikit import *
from clicheck import cases

DIRS = ["", "sub", "sub/deep", "a_test", "x.go.d", "internal/i", "testdata", "web/static", "Sub2", "_under", ".hidden", "hotswapbureau", "vendorish", "data-1", "foo"]
OTHER = ["data.txt", "conf.json", "README", "page.html", "LICENSE.md", "x.go.txt", "x.GO", "y.gob", "go", ".go.swp", "t_test.go.bak", "z.proto", "a.tar.gz", "n", "live_a.lua",
         "файл.txt", "sp ace.txt", "q'uote.txt", "x.so", "go.txt", "test.lua", "conf.json.bak", "hotswap.yaml", "sub.txt", ".gitignore", "x_test.txt"]
GO = ["a.go", "b_linux.go", "c.d.go", "Upper.go", "test.go", "x-y.go", "testing_go.go", "atest.go", "hotswap.go", "live.go", "xhotswap.main.go", "hotswap.main2.go", "a_tests.go"]
IGNORED_GO = ["c_windows.go", "e_js.go", "_skip.go", ".dot.go"]
TEST = ["a_test.go", "zz_test.go", "hotswap.main_test.go", "_test.go", "x.y_test.go"]
OWN = list(GENERATED)
STALE = "left behind by an earlier run 4c1d"

REX = [r"\.json$", r".*", r"^conf", r"\.(txt|html)$", r"(?i)readme", r"a", r"^x", r"sub/", r"^[^.]+$", r"\.bak$", r"test", r"^$", r"data", r"\.go", r"[а-я]", r"\s", r"^.{5,8}$",
       r"^(a|b)", r"\.json$|\.proto$", r"\.GO$", r"^sub", r"txt", r"LICENSE|README", r"\\", r"hotswap"]


def pkgname(d):
    return re.sub(r"[^a-z0-9_]", "_", os.path.basename(d).lower()).strip("_") or "x" if d else "foo"


def make(r):
    """files (path -> bytes), links, the root package name"""
    files, links = {}, {}
    dirs = [""] + r.sample(DIRS[1:], r.randint(1, 6))
    uid = [0]

    def body(pkg):
        uid[0] += 1
        s = "package %s\n\nvar V%d = %d\n" % (pkg, uid[0], uid[0])
        if r.random() < 0.2:
            s = s.replace("\n", "\r\n")
        return s
    files["main.go"] = root_source("foo")
    for d in dirs:
        pkg = pkgname(d)
        names = r.sample(GO, r.randint(0, 3)) + r.sample(OTHER, r.randint(0, 5))
        if d != "hotswapbureau":
            names += r.sample(IGNORED_GO, r.randint(0, 1))
        if r.random() < 0.6:
            names += r.sample(TEST, r.randint(1, 2))
        if r.random() < 0.3:
            names += r.sample(OWN, 1)
        for n in names:
            p = os.path.join(d, n)
            if p in files:
                continue
            if n.endswith("_test.go"):
                files[p] = r.choice([body(pkg), body(pkg + "_test"), "this is not Go at all\n", "package %s\n\nfunc Broken( {\n" % pkg, "package otherwise\n"]).encode()
                if d == "" and n == "_test.go":
                    files[p] = body(pkg).encode()
            elif n in OWN:
                # what an earlier run with --staticLinking has left there
                files[p] = ("// Code generated by hotswap. DO NOT EDIT.\n// %s\n\npackage %s\n" % (STALE, pkg)).encode()
            elif n.endswith(".go"):
                files[p] = body(pkg).encode()
            else:
                k = r.random()
                if k < 0.3:
                    files[p] = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 100, 5000])))
                elif k < 0.4:
                    files[p] = b"\xef\xbb\xbfpackage foo\r\n\r\nwith a mark \t \n\n\n"
                elif k < 0.6:
                    files[p] = b'package foo\n"example.com/m/plugin/foo/sub"\nimport "example.com/m/plugin/foo"\n`example.com/m/plugin/foo/sub`\r\n'
                else:
                    files[p] = ("text of " + p + "\n").encode()
    if r.random() < 0.3:
        big = os.path.join(r.choice(dirs), "big.bin")
        files[big] = os.urandom(300000) + b'"example.com/m/plugin/foo"'
    if r.random() < 0.25:
        for k in range(r.randint(20, 300)):
            files["many/f%d.%s" % (k, r.choice(["txt", "json"]))] = b"x%d" % k
    if r.random() < 0.2:
        d = r.choice([x for x in dirs if x != "hotswapbureau"])
        links[os.path.join(d, "linked.txt")] = "main.go" if d == "" else "/dev/null"
    for k in list(files):
        if isinstance(files[k], str):
            files[k] = files[k].encode()
    return files, links


def want(files, links, inc, exc):
    sel = {}
    for p in list(files) + list(links):
        b = os.path.basename(p)
        if b.endswith("_test.go") or b in GENERATED:
            continue
        if b.endswith(".go"):
            sel[p] = True
        elif inc is not None and re.search(inc, b) and not (exc is not None and re.search(exc, b)):
            sel[p] = False
    return sel


def run(c, replay):
    kit = Kit(c)
    todo = cases(c, replay, 240, 3000)
    mod = kit.module("c06")
    sigs = set()

    def one(i):
        r = rng(c, i)
        files, links = make(r)
        parent = os.path.join(mod, "p%d" % i)
        d = os.path.join(parent, "plugin", "foo")
        write_tree(d, files)
        for k, v in links.items():
            os.symlink(os.path.join(d, v) if not v.startswith("/") else v, os.path.join(d, k))
        out = os.path.join(parent, "out")
        os.makedirs(out)
        inc = r.choice([None] + REX * 2) if r.random() < 0.85 else None
        exc = r.choice(REX) if r.random() < 0.5 else None
        args = ["build", "--goBuild=false"]
        if inc is not None:
            args += r.choice([["--include=" + inc], ["--include", inc]])
        if exc is not None:
            args += ["--exclude=" + exc]
        cwd, pd = r.choice([(mod, d), (d, "."), (parent, "plugin/foo"), (mod, "p%d/plugin/foo/" % i), (out, "../plugin/foo")])
        args += [pd, out]
        if inc == "":
            inc = None
        before = snapshot(parent)
        res = kit.run(args, cwd=cwd)
        after = snapshot(parent)
        msg = None
        fresh = [x for x in os.listdir(os.path.join(parent, "plugin")) if x != "foo"]
        if res.rc == "timeout":
            raise Broken("the CLI did not end")
        if res.rc != 0 or len(fresh) != 1:
            if res.rc != 0:
                msg = "the build failed"
            else:
                raise Broken("no build tree: " + res.text())
        else:
            t = os.path.join(parent, "plugin", fresh[0])
            got = {}
            for root, _, names in os.walk(t):
                for n in names:
                    p = os.path.relpath(os.path.join(root, n), t)
                    if n not in GENERATED:
                        got[p] = os.path.join(root, n)
            sel = want(files, links, inc, exc)
            stale = [os.path.relpath(os.path.join(root, n), t) for root, _, names in os.walk(t) for n in names
                     if n in GENERATED and STALE.encode() in open(os.path.join(root, n), "rb").read()]
            if stale:
                msg = "generated files of an earlier run take part: %s" % sorted(stale)[:10]
            elif set(got) != set(sel):
                msg = "files missing: %s, files too many: %s" % (sorted(set(sel) - set(got))[:10], sorted(set(got) - set(sel))[:10])
            else:
                for p, isgo in sel.items():
                    if not isgo:
                        src = files.get(p)
                        if src is None:
                            src = open(os.path.join(d, p), "rb").read()
                        if open(got[p], "rb").read() != src:
                            msg = "the contents of %s changed" % p
            src0 = {k: v for k, v in before.items()}
            src1 = {k: v for k, v in after.items() if not k.startswith("plugin/" + fresh[0])}
            if not msg and src0 != src1:
                c.notes.append("the source tree changed: " + "; ".join(diff(src0, src1)[:5]))
        sel = want(files, links, inc, exc)
        sig = (inc, exc, sum(1 for v in sel.values() if v), sum(1 for v in sel.values() if not v), sum(1 for f in files if f.endswith("_test.go")))
        shutil.rmtree(parent, ignore_errors=True)
        return i, msg, sig, sorted(files), args, res, len(sel)

    nsel = 0
    for i, msg, sig, names, args, res, n in kit.parallel(one, todo):
        c.evaluations += 1
        nsel += n
        if len(names) > 3:
            sigs.add(digest(sig))
        if len(c.samples) < 6 and i % 23 == 1:
            c.samples.append({"case": i, "args": args[:-2], "files": names[:25], "taking part": n})
        if msg:
            c.violation("%s\narguments: %s\nfiles: %s\n%s" % (msg, args, names[:80], res.text()), {"kind": "cli", "case": i})
    c.distinct = len(sigs)
    c.extra["files_taking_part"] = nsel
    c.rule = ("generated trees of Go files, tests of any package name and syntax, generated files of earlier runs, other files and links, with generated "
              "--include and --exclude; the temporary tree of --goBuild=false is compared with a reference selection; distinct by expressions and numbers of files by kind")
