"""Record the parameter names of the functions contracts may stand in for (vt/sigs.json): a stand-in is written
against these positions, and keeps working when the code passes arguments by keyword or reorders parameters."""
import ast, glob, json, os, sys

repo = os.environ.get("VT_REPO", "/repo")
out, dup = {}, set()
for f in sorted(glob.glob(repo + "/src/mssm/**/*.py", recursive=True)):
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.FunctionDef):
            names = [a.arg for a in n.args.posonlyargs + n.args.args]
            if n.args.vararg or n.args.kwarg or n.args.kwonlyargs:
                continue
            if n.name in out and out[n.name] != names:
                dup.add(n.name)
            out[n.name] = names
for n in dup:
    del out[n]
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "vt", "sigs.json"), "w"), indent=0, sort_keys=True)
print(len(out), "signatures")
