"""What checks build besides the harness: the programs of the repository."""
import json
import os
import shutil


def modfile(x):
    """A copy of the repository's go.mod, so that no build writes to it."""
    path = os.path.join(x["scratch"], "repo.mod")
    if not os.path.exists(path):
        shutil.copy(os.path.join(x["repo"], "go.mod"), path)
        shutil.copy(os.path.join(x["repo"], "go.sum"), os.path.join(x["scratch"], "repo.sum"))
    return path


def go_build(x, pkg, out, overlay=None, flags=(), env=None):
    cmd = ["go", "build", "-buildvcs=false", "-modfile", modfile(x), "-o", os.path.join(x["scratch"], out)]
    if overlay:
        path = os.path.join(x["scratch"], out + ".overlay.json")
        with open(path, "w") as f:
            json.dump({"Replace": overlay}, f)
        cmd += ["-overlay", path]
    x["run"](cmd + list(flags) + [pkg], "building " + pkg, cwd=x["repo"], env=env or x["env"])


ALL = ["append", "community_id", "lowercase", "remove", "set", "uppercase"]


def probe_overlay(x, directory, constraint=None, everything=False):
    """Adds the line probes (and all processors) to a package main."""
    with open(os.path.join(x["harness"], "lineprobe", "probe.go")) as f:
        text = f.read()
    text = text[text.index("package lineprobe"):].replace("package lineprobe", "package main", 1)
    if everything:
        text = text.replace("import (", "import (\n" + "".join(
            '\t_ "github.com/andrewkroh/go-sawmill/pkg/processor/%s"\n' % n for n in ALL), 1)
    if constraint:
        text = "//go:build %s\n\n%s" % (constraint, text)
    path = os.path.join(x["scratch"], "probe_%s.go" % directory.replace("/", "_"))
    with open(path, "w") as f:
        f.write(text)
    return {os.path.join(x["repo"], directory, "zz_verif_probe.go"): path}


def sawmill(x):
    go_build(x, "./cmd/sawmill", "sawmill", probe_overlay(x, "cmd/sawmill"))


def generator(x):
    go_build(x, "./pkg/processor/generate", "generator")


def exports(x):
    """The compiled packages that generated processors and a program need."""
    flags = ["-modfile", modfile(x)]
    pkgs = ["./pkg/processor/registry", "./pkg/processor", "./pkg/config", "time", "encoding/json", "fmt", "os",
            "reflect", "runtime"]
    out = x["run"](["go", "list"] + flags + ["-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}"] + pkgs,
                   "go list -export", cwd=x["repo"], env=x["env"])
    with open(os.path.join(x["scratch"], "importcfg"), "w") as f:
        for line in out.splitlines():
            name, _, path = line.partition(" ")
            if path.startswith("/"):
                f.write("packagefile %s=%s\n" % (name, path))


def docs(x):
    go_build(x, "./docs/generate", "docsgen")


def cshared(x):
    go_build(x, "./examples/c/cshared", "libsawmill.so", probe_overlay(x, "examples/c/cshared", everything=True),
             ["-buildmode=c-shared"])
    x["run"](["gcc", "-O1", "-o", os.path.join(x["scratch"], "cdriver"),
              os.path.join(x["harness"], "frontend", "driver.c"), "-ldl", "-lpthread"], "building the C driver")


def wasm(x):
    go_build(x, "./examples/wasm", "sawmill.wasm",
             probe_overlay(x, "examples/wasm", "js && wasm", everything=True),
             env=dict(x["env"], GOOS="js", GOARCH="wasm", CGO_ENABLED="0"))
    root = x["run"](["go", "env", "GOROOT"], "go env", env=x["env"]).strip()
    for d in ("lib", "misc"):
        path = os.path.join(root, d, "wasm", "wasm_exec.js")
        if os.path.exists(path):
            shutil.copy(path, os.path.join(x["scratch"], "wasm_exec.js"))
    shutil.copy(os.path.join(x["harness"], "frontend", "driver.js"), x["scratch"])
