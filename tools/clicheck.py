"""The checks of the command line tool (C01-C11)."""
import importlib

ASSUME = [
    "The tool runs on Linux with the Go toolchain, git and gofmt of this sandbox; plugins live in git-managed Go modules, below the module root.",
    "Packages take part whatever their contents, but plugin root packages are importable (not called main) where they are linked statically.",
]


def run(c, replay=None):
    m = importlib.import_module(c.prop.lower())
    c.assumptions = ASSUME + list(getattr(m, "ASSUME", []))
    m.run(c, replay)


def cases(c, replay, n_quick, n_thorough):
    """The indexes of the cases to run."""
    if replay:
        return [replay["case"]]
    return list(range(n_quick if c.quick() else n_thorough))
