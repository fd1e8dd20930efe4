#!/usr/bin/env python3
"""Writes an overlay for GOROOT's plugin package that lets the harness substitute the dynamic loader."""
import json, os, sys

def make(goroot, outdir):
    src = os.path.join(goroot, "src", "plugin", "plugin.go")
    s = open(src).read()
    pat = "func Open(path string) (*Plugin, error) {\n"
    if s.count(pat) != 1 or "syms" not in s or "pluginpath string" not in s:
        raise SystemExit("mkoverlay: unexpected plugin.go in " + goroot)
    s = s.replace(pat, pat + "\tif VerifOpen != nil {\n\t\treturn VerifOpen(path)\n\t}\n")
    s += """
// VerifOpen, if set, replaces Open.
var VerifOpen func(path string) (*Plugin, error)

// VerifNew makes a plugin out of symbols.
func VerifNew(pluginpath string, syms map[string]any) *Plugin {
	return &Plugin{pluginpath: pluginpath, syms: syms}
}
"""
    d = os.path.join(outdir, "overlay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "plugin.go")
    open(f, "w").write(s)
    j = os.path.join(outdir, "overlay.json")
    json.dump({"Replace": {src: f}}, open(j, "w"))
    return j

if __name__ == "__main__":
    print(make(sys.argv[1], sys.argv[2]))
