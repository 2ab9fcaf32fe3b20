#!/usr/bin/env python3
"""mkseeds.py [ID...]: writes seeded/<id>/ from tools/seeds/<id>.py and confirms each in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedcopy"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    if not os.path.exists(S):
        sh("cp -a /repo " + S)
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq && git -C %s fetch -q /repo HEAD && git -C %s checkout -q FETCH_HEAD" % (S, S, S, S))
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(V, "tools/seeds")) if f.endswith(".py"))
    ov = "/tmp/seedcopy.overlay.json"
    open(ov, "w").write(open("/opt/vp/overlay.json").read().replace('"/repo/', '"%s/' % S))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        ns = {"V": V}
        exec(open(os.path.join(V, "tools/seeds", i + ".py")).read(), ns)
        sh("git -C %s checkout -q -- ." % S)
        d = os.path.join(V, "seeded", i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "demo"))
        shutil.copytree(os.path.join(V, "harness/stack"), os.path.join(d, "stack"))
        shutil.copy(os.path.join(V, "tools/seedkit/demo.sh"), d)
        if not ns.get("BARE"):
            shutil.copy(os.path.join(V, "tools/seedkit/kit_test.go"), os.path.join(d, "demo"))
        else:
            shutil.rmtree(os.path.join(d, "stack")) if ns["BARE"] == "nostack" else None
        pkg = ns.get("PKG", "verifx/demo")
        open(os.path.join(d, "package"), "w").write(pkg + "\n")
        name = os.path.basename(pkg)
        if os.path.exists(os.path.join(d, "demo/kit_test.go")):
            k = os.path.join(d, "demo", "kit_test.go")
            s = open(k).read().replace("package demo", "package " + name)
            open(k, "w").write(s)
            if name != "demo":
                os.rename(k, os.path.join(d, "demo", "zz_kit_test.go"))
        imports = "".join('\t%s\n' % x for x in ns.get("IMPORTS", ['"testing"']))
        open(os.path.join(d, "demo", "demo_test.go" if name == "demo" else "zz_demo_test.go"), "w").write("package %s\n\nimport (\n%s)\n\n%s" % (name, imports, ns["DEMO"].lstrip()))
        sh("gofmt -w %s/demo/*_test.go" % d)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, cwd=S)
        for f, a, b in ns["EDITS"]:
            p = os.path.join(S, f)
            t = open(p).read()
            n = t.count(a)
            if n != 1:
                print(i, "EDIT does not apply once:", n, f, a)
                return
            open(p, "w").write(t.replace(a, b))
        fmt = sh("gofmt -l $(git diff --name-only)", cwd=S).stdout
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=S).stdout)
        b = sh(". /opt/vp/env.sh; go build ./... && go test -overlay %s -vet=off -count=1 -timeout 10m -json ./... > /tmp/seedcopy.log; python3 /opt/vp/results.py /tmp/seedcopy.out.json gojson:/tmp/seedcopy.log" % ov, cwd=S, executable="/bin/bash")
        res = json.load(open("/tmp/seedcopy.out.json"))
        passed = set(res.get("passed", res.get("pass", [])))
        r1 = sh("bash %s/demo.sh" % d, cwd=S)
        sh("git -C %s checkout -q -- ." % S)
        bad = sorted(base - passed)
        print("%s %s: clean demo %d, patched demo %d, tests %s %s" % (i, ns["PROPERTY"], r0.returncode, r1.returncode, "ok" if not bad else bad[-12:], "gofmt:" + fmt if fmt else ""))
        if r0.returncode:
            print("  clean:", r0.stdout[-800:])
        print("  patched:", r1.stdout[-300:].replace("\n", " | "))


main()
