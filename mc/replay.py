"""python3 -m mc.replay FILE: runs a recorded counterexample against /repo's working tree and prints what came out."""
import base64, json, os, sys
from . import build, run

def main():
    r = json.load(open(sys.argv[1]))
    need = sorted({s[0] for s in r["steps"]})
    for t in need:
        base, _, v = t.partition("@")
        if base in build.ALL + ["wlalink", "wlab"]:
            run.TOOLS[t] = build.build([base], v or "opt")[base]
    w = run.World("replay")
    prog = {"files": {n: base64.b64decode(d) for n, d in r["files"].items()}, "steps": r["steps"], "reads": r["reads"],
            "env": r.get("env"), "stdin": r.get("stdin")}
    res = w.run(prog)
    print("property", r["property"], "case", r["key"]); print("recorded:", r["message"])
    for n, t in r["text"].items():
        print("---- %s\n%s" % (n, t))
    for s, rc, o in zip(r["steps"], res.rcs, res.outs):
        print("$", *([s[0]] + list(s[1])), "->", rc); print(o.decode("utf-8", "replace"))
    for n, d in res.files.items():
        print(n, None if d is None else "%d bytes: %s" % (len(d), d[:256].hex(" ")))
    w.close()

if __name__ == "__main__":
    main()
