"""Type-level rules: compile-fail witnesses, each paired with its compiling twin.

A witness is a Rust file whose lines marked `//~` are the offence. With those lines the file must be
rejected with (only) the error code named in its first line; without them it must compile. The twin
shows that the rejection is due to the marked lines and not to an unrelated mistake."""
import concurrent.futures, glob, json, os, re, subprocess, tempfile
from .base import VERIF, ToolError, cargo_env, extract


def libpaths(cfg):
    deps = os.path.join(os.path.dirname(extract()[cfg]), "libs-" + cfg)
    cand = glob.glob(os.path.join(deps, "libdumpster-*.rmeta"))
    if len(cand) != 1:
        raise ToolError("expected one rmeta of dumpster in %s, found %s" % (deps, cand))
    return deps, cand[0]


def compile_snippet(src, libs, extra=()):
    """Type-check a snippet against the analysed crate. Returns (ok, [error codes], text)."""
    deps, rmeta = libs
    with tempfile.TemporaryDirectory(prefix="vpw-") as d:
        f = os.path.join(d, "w.rs")
        with open(f, "w") as h:
            h.write(src)
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--emit=metadata", "--crate-type=bin",
                            "--error-format=json", "-A", "warnings", "--out-dir", d, "-L",
                            "dependency=" + deps, "--extern", "dumpster=" + rmeta, *extra, f],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=cargo_env())
    codes, text = [], []
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            text.append(line)
            continue
        if m.get("level") == "error":
            text.append(m.get("rendered") or m["message"])
            if m.get("code"):
                codes.append(m["code"]["code"])
            elif not m["message"].startswith("aborting"):
                codes.append("nocode")
    return r.returncode == 0, codes, "\n".join(text)


def run_witnesses(rep, folder, cfgs, prefix):
    jobs = []
    libs = {c: libpaths(c) for c in cfgs}
    for p in sorted(glob.glob(os.path.join(VERIF, "witness", folder, "*.rs"))):
        src = open(p).read()
        name = os.path.basename(p)[:-3]
        m = re.match(r"// expect: (\w+)", src)
        if not m:
            raise ToolError("witness without expectation: " + p)
        bad = src
        good = "\n".join(l for l in src.splitlines() if not l.rstrip().endswith("//~")) + "\n"
        for cfg in cfgs:
            jobs.append((name, m.group(1), bad, good, cfg))

    def work(j):
        name, code, bad, good, cfg = j
        return j, (None if code == "pass" else compile_snippet(bad, libs[cfg])), compile_snippet(good, libs[cfg])

    rep.rule(prefix + "-fail", "a program doing what the property forbids is rejected with the expected error code")
    rep.rule(prefix + "-pass", "the same program without the offending lines is accepted")
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (name, code, bad, good, cfg), fail, ok in ex.map(work, jobs):
            rep.inst(prefix + "-pass", sample=name)
            if not ok[0]:
                rep.bad("%s:%s:twin-rejected" % (prefix, name), "witness %s (%s): legal program is rejected:\n%s"
                        % (name, cfg, ok[2][:1500]))
            if fail is None:
                continue
            rep.inst(prefix + "-fail", sample=name + " " + code)
            if fail[0]:
                rep.bad("%s:%s:accepted" % (prefix, name), "witness %s (%s): the program below is accepted but "
                        "must be rejected with %s:\n%s" % (name, cfg, code, bad))
            elif code not in fail[1]:
                rep.bad("%s:%s:other-error" % (prefix, name), "witness %s (%s): rejected with %s instead of %s:\n%s"
                        % (name, cfg, sorted(set(fail[1])), code, fail[2][:1500]))
