"""DESIGN.md = tools/design.md + a section per property (from tools/props.py and the check itself) + the seeded-bug table."""
import ast, glob, json, os, textwrap
def info(path):
    t = ast.parse(open(path).read())
    r = {"RULE": "", "MIN": {}, "SCENARIOS": []}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            k = n.targets[0].id
            if k in ("RULE", "MIN"):
                try: r[k] = ast.literal_eval(n.value)
                except Exception: pass
            if k == "SCENARIOS" and isinstance(n.value, ast.List):
                for c in n.value.elts:
                    try: r[k].append((ast.literal_eval(c.args[0]), ast.literal_eval(c.args[2]), ast.literal_eval(c.args[3])))
                    except Exception: pass
    return r
def wrap(s, ind=""):
    return textwrap.fill(s, 128, initial_indent=ind, subsequent_indent=ind, break_long_words=False, break_on_hyphens=False)
def make(here, props):
    kf = json.load(open(f"{here}/known_findings.json"))
    out = [open(f"{here}/tools/design.md").read(), "## Properties\n"]
    for p in props:
        g = glob.glob(f"{here}/checks/{p['id']}_*.py")
        out.append(f"### {p['id']} - {p['title']}")
        out.append(wrap(p["statement"]) + "\n")
        out.append(wrap(f"*Over* {', '.join(p['over'])}: {p['qtext']}", "") )
        if g:
            i = info(g[0])
            out.append(wrap("*Monitor* " + p["technique"] + ". " + (i["RULE"][:1].upper() + i["RULE"][1:])))
            out.append(wrap("*Cases (quick/thorough)* " + ", ".join(f"{a} {b}/{c}" for a, b, c in i["SCENARIOS"]) + ". *Must have seen at least* " + ", ".join(f"{k} {v}" for k, v in i["MIN"].items()) + "."))
        out.append(wrap("*Why tests cannot* " + p["why"]))
        out.append(wrap("*Bounds* " + p["note"]))
        fx = [x for x in kf["fixed"] if x.startswith(f"fixed: property={p['id']} ")]
        fd = [x for x in kf["findings"] if x["property"] == p["id"]]
        if fx: out.append("*Repaired*\n" + "\n".join(wrap("- " + x.split(" ", 2)[2], "  ") for x in fx))
        if fd: out.append("*Known findings (not repaired)*\n" + "\n".join(wrap(f"- `{x['id']}`: {x['what']}", "  ") for x in fd))
        out.append("")
    out.append("## Seeded bugs\nEach is caught by the quick check of the property it was written for, unless noted.\n\n| bug | property | file | needs | caught by |\n|---|---|---|---|---|")
    cf = f"{here}/tools/caught.json"
    caught = json.load(open(cf)) if os.path.exists(cf) else {}
    for d in sorted(glob.glob(f"{here}/seeded/*/meta.json")):
        m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
        f = [l[6:] for l in open(os.path.dirname(d) + "/patch.diff").read().splitlines() if l.startswith("+++ b/")]
        out.append(f"| {n} | {m['property']} | {', '.join(x.removeprefix('tianshou/') for x in f)} | {m['needs']} | {caught.get(n, m['property'])} |")
    open(f"{here}/DESIGN.md", "w").write("\n".join(out) + "\n")
