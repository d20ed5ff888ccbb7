"""Runs the proof units of one property against /repo's current tree."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
INC_SUB = ["", "include", "include/core", "include/core/utils", "include/core/platform", "include/core/modal_models",
           "include/core/threaded", "include/core/federated", "include/core/federated/network", "include/api",
           "low_level_platform/api", "tag/api", "trace/api", "trace/api/types", "version/api", "logging/api",
           "platform/api", "core/federated/RTI"]
COMMON = ["-DPLATFORM_Linux", "-DLOG_LEVEL=1"]
FED = ["-DFEDERATED=1", "-DNUMBER_OF_WORKERS=4", "-DNUMBER_OF_FEDERATES=3", "-DFEDERATE_ID=0",
       "-DADVANCE_MESSAGE_INTERVAL=10000000"]
CONFIGS = {
    "multi": ["-DNUMBER_OF_WORKERS=4"],
    "single": ["-DLF_SINGLE_THREADED=1"],
    "modal": ["-DNUMBER_OF_WORKERS=4", "-DMODAL_REACTORS=1"],
    "watchdog": ["-DNUMBER_OF_WORKERS=4", "-DNUMBER_OF_WATCHDOGS=1"],
    "gedf": ["-DNUMBER_OF_WORKERS=4", "-DSCHEDULER=SCHED_GEDF_NP"],
    "rti": ["-DSTANDALONE_RTI=1", "-DFEDERATED=1", "-D_LF_CLOCK_SYNC_COLLECT_STATS"],
    "enclave": ["-DNUMBER_OF_WORKERS=4", "-DLF_ENCLAVES=1"],
    "fedc": FED + ["-DFEDERATED_CENTRALIZED=1", "-DLF_CLOCK_SYNC=3"],
    "fedgedf": FED + ["-DFEDERATED_CENTRALIZED=1", "-DLF_CLOCK_SYNC=3", "-DSCHEDULER=SCHED_GEDF_NP"],
    "fedd": FED + ["-DFEDERATED_DECENTRALIZED=1", "-DLF_CLOCK_SYNC=3"],
}
BASE_CHECKS = (["--sat-solver", os.environ["VF_SAT"]] if "VF_SAT" in os.environ else []) + ["--no-malloc-may-fail", "--drop-unused-functions", "--verbosity", "8"]


def incs():
    return [f"-I{os.path.join(REPO, s)}" for s in INC_SUB] + [f"-I{HARN}"]


def sh(cmd, timeout, cwd=None, env=None, mem_gb=10):
    """Runs cmd; returns (rc, stdout, stderr, seconds); rc None on timeout."""
    t = time.time()
    pre = ["bash", "-c", f"ulimit -v {int(mem_gb * 1024 * 1024)}; ulimit -c 0; exec \"$@\"", "sh"]
    p = subprocess.Popen(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout", time.time() - t


class Unit:
    """One group of obligations: a harness entry point, optionally with functions whose contract is enforced."""

    def __init__(self, name, file, entry, config="multi", enforce=None, replace=(), unwind=None, unwindset=(), defs=(),
                 kind="proof", bound="", flags=(), functions=(), tier="quick", timeout=200, replay=True, cover=True,
                 solver=(), search_flags=(), rec=(), callees=(), small=False, drop=(), small_timeout=100, only_failed=True, loops=None,
                 search_unwind=None, search_defs=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.functions = list(functions) or ([enforce] if enforce else [])


def base_flags(u, search=False):
    f = list(BASE_CHECKS)
    n = u.search_unwind if search and u.search_unwind is not None else u.unwind
    if n is not None:
        f += ["--unwind", str(n)]
    for s in u.unwindset:
        f += ["--unwindset", s]
    f += list(u.flags)
    return f


def gcc_defs(u):
    return COMMON + CONFIGS[u.config] + list(u.defs)


def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        pass
    # cbmc may stop in the middle of the array
    for tail in ("]", "}]", "]}]"):
        try:
            return json.loads(out.rstrip().rstrip(",") + tail)
        except Exception:
            continue
    return None


def results_of(js, drop=()):
    """drop: (function, regex) pairs: obligations of CBMC that state no property (documented in DESIGN.md)"""
    res, status, msgs = [], None, []
    for item in js or []:
        if "result" in item:
            # gcc documents that it does not exploit undefined signed left shifts: no obligation
            res += [x for x in item["result"] if "overflow on signed shl" not in x.get("description", "")
                    and not any(x["property"].startswith(f + ".") and re.search(g, x.get("description", "")) for f, g in drop)]
        if "cProverStatus" in item:
            status = item["cProverStatus"]
        if item.get("messageType") == "ERROR":
            msgs.append(item.get("messageText", ""))
    return res, status, msgs


def loc(r):
    l = r.get("sourceLocation") or {}
    if not l:
        for st in reversed(r.get("trace", [])):
            if st.get("stepType") == "failure":
                l = st.get("sourceLocation", {})
    return f"{l.get('file', '?')}:{l.get('line', '?')} in {l.get('function', '?')}"


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = "undecided"  # proved | bounded | violated | undecided
        self.obligations = 0
        self.discharged = 0
        self.solver_s = 0.0
        self.wall = 0.0
        self.cmd = ""
        self.note = ""
        self.failed = []
        self.replay = None
        self.log = ""
        self.replayed = False
        self.covers = 0
        self.vacuous = False


def compile_goto(u, work, tag, defs=(), entry=True):
    out = os.path.join(work, f"{u.name}-{tag}.gb")
    cmd = ["goto-cc"] + gcc_defs(u) + list(defs) + incs() + (["--function", u.entry] if entry else ["-c"]) + [os.path.join(HARN, u.file), "-o", out]
    rc, o, e, t = sh(cmd, 120)
    if rc != 0:
        return None, " ".join(cmd) + "\n" + o[-3000:] + e[-3000:]
    return out, ""


def defined_functions(gb):
    rc, o, e, t = sh(["goto-instrument", "--list-goto-functions", "--json-ui", gb], 60)
    return o


def prepare(u, work, tag, defs=()):
    """The goto program the obligations are generated from: contracts enforced, callees replaced by theirs.
    Returns (file or None, commands, note)."""
    gb, err = compile_goto(u, work, tag, list(defs) + (["-DVF_ABSTRACT"] if u.callees else []))
    if gb is None:
        return None, err, "the obligations could not be generated (harness does not compile against this source)"
    cmds = ""
    note = ""
    if u.callees:
        b = gb[:-3] + "-a.gb"
        cmd = ["goto-instrument"]
        for g in u.callees:
            cmd += ["--replace-calls", f"{g}:abs_{g}"]
        cmd += [gb, b]
        rc, o, e, t = sh(cmd, 120)
        if rc != 0:
            return None, " ".join(cmd) + "\n" + (o + e)[-2000:], "callee contracts could not be applied"
        cmds += " ".join(cmd).replace(work, "$W") + " && "
        gb = b
        if "VF_TOP" in open(os.path.join(HARN, u.file)).read():
            t, err = compile_goto(u, work, tag + "-top", ["-DVF_TOP"], entry=False)
            if t is None:
                return None, err, "the obligations could not be generated (harness does not compile against this source)"
            b = gb[:-3] + "-l.gb"
            rc, o, e, tt = sh(["goto-cc", "--function", u.entry, gb, t, "-o", b], 120)
            if rc != 0:
                return None, (o + e)[-2000:], "linking failed"
            gb = b
    if u.enforce or u.replace or u.loops:
        b = gb[:-3] + "-dfcc.gb"
        cmd = ["goto-instrument", "--dfcc", u.entry]
        if u.loops:
            lf, err = loop_file(u, gb, work, tag)
            if lf is None:
                return gb, cmds, "loop contracts do not fit this source (" + err + "): loops unwound up to the stated bound instead"
            cmd += ["--apply-loop-contracts", "--loop-contracts-file", lf]
            cmd += initial_values(gb)
        if u.enforce:
            cmd += (["--enforce-contract-rec"] if u.rec else ["--enforce-contract"]) + [u.enforce]
        for g in u.replace:
            cmd += ["--replace-call-with-contract", g]
        cmd += [gb, b]
        rc, o, e, t = sh(cmd, 200)
        if rc != 0:
            note = "contract instrumentation failed: " + (o + e)[-400:]
        else:
            gb = b
            cmds += " ".join(cmd).replace(work, "$W") + " && "
    return gb, cmds, note


def real_loops(text, fn):
    """Loop identifiers of fn's loops in source order, ignoring do { } while (0); a loop with several back edges counts
    once (its last back edge carries the contract)."""
    m = re.search(r"^" + re.escape(fn) + r" /\*.*?\n(.*?)END_FUNCTION", text, re.M | re.S)
    if not m:
        return None
    seen, heads, n = {}, {}, 0
    for i, l in enumerate(m.group(1).split("\n")):
        k = re.match(r"\s*(\d+): ", l)
        if k:
            seen[k.group(1)] = i
        for g in re.findall(r"GOTO ([\d, ]+)$", l):
            for t in re.findall(r"\d+", g):
                if t in seen:
                    if "IF 0 \u2260 0" not in l and "IF false" not in l:
                        heads[seen[t]] = n
                    n += 1
    return [heads[h] for h in sorted(heads)]


def initial_values(gb):
    """Instrumentation would make every static arbitrary; the harness states what is arbitrary, the rest keeps its initial value."""
    rc, o, e, t = sh(["goto-instrument", "--show-symbol-table", gb], 100)
    out = []
    for b in o.split("\n\n"):
        m = re.search(r"^Symbol\.*: (\S+)$", b, re.M)
        f = re.search(r"^Flags\.*:.*static_lifetime", b, re.M)
        l = re.search(r"^Location\.*: file (\S+) line", b, re.M)
        if m and f and l and not m.group(1).startswith("__CPROVER"):
            n = m.group(1)
            out += ["--nondet-static-exclude", (l.group(1) + ":" + n) if "::" in n else n]
    return out


def loop_file(u, gb, work, tag):
    """Loop invariants are attached to the real loops by function and loop number; variable names are resolved in the
    symbol table of the compiled source."""
    rc, o, e, t = sh(["goto-instrument", "--show-symbol-table", "--json-ui", gb], 100)
    names = set(re.findall(r'"name": "([^"]+)"', o)) | set(re.findall(r'^    "([^"\n]+)": \{', o, re.M))
    fns = []
    rc, lo, e, t = sh(["goto-instrument", "--show-goto-functions", gb], 100)
    for fn, ls in u.loops.items():
        nums = real_loops(lo, fn)
        if nums is None:
            return None, f"no function {fn}"
        out = []
        for l in ls:
            m = []
            for v in l.get("vars", []):
                c = [n for n in names if re.match(re.escape(fn) + r"::(.*::)?" + re.escape(v) + "$", n)]
                if len(c) > 1 and l.get("scope") in ("deep", "shallow"):
                    c = sorted(c, key=lambda n: n.count("::"))
                    c = [c[-1] if l["scope"] == "deep" else c[0]]
                elif len(c) > 1 and l.get("scope"):
                    c = [n for n in c if l["scope"] in n] or c
                if l["id"] >= len(nums):
                    return None, f"no loop number {l['id']} in {fn}"
                if len(c) != 1:
                    return None, f"{len(c)} variables named {v} in {fn}"
                m.append(f"{v},{c[0]}")
            out.append({"loop_id": str(nums[l["id"]]), "invariants": l["inv"], "assigns": l.get("assigns", ""), "decreases": l.get("decreases", ""),
                        "symbol_map": ";".join(m)})
        fns.append({fn: out})
    p = os.path.join(work, f"{u.name}-{tag}-loops.json")
    json.dump({"sources": ["x.c"], "functions": fns, "output": "stdout"}, open(p, "w"))
    return p, ""


def solver_time(js):
    s = 0.0
    for item in js or []:
        m = re.search(r"Runtime Solver: ([0-9.e+-]+)s", item.get("messageText", "") or "", re.I)
        if m:
            s += float(m.group(1))
    return s


def function_exists(fn, gb):
    return True


def run_unit(u, work, outdir):
    r = Result(u)
    t0 = time.time()
    try:
        _run_unit(u, r, work, outdir)
    except Exception as ex:  # a machinery problem is never a verdict
        import traceback
        r.status, r.note = "undecided", "machinery: " + repr(ex)
        r.log += traceback.format_exc()
    r.wall = time.time() - t0
    return r


def _run_unit(u, r, work, outdir):
    target, cmds, contract_note = prepare(u, work, "p")
    if target is None:
        r.note, r.log = contract_note, cmds
        if not u.callees:
            return
        search(u, r, work, outdir, had_failure=False)
        return
    r.cmd = cmds
    cmd = ["cbmc", "--json-ui"] + base_flags(u) + list(u.solver) + select(u, target, base_flags(u)) + [target]
    r.cmd += " ".join(cmd).replace(work, "$W")
    rc, o, e, t = sh(cmd, u.timeout, mem_gb=12)
    js = parse_json(o) if rc is not None else None
    if rc is None or js is None or rc not in (0, 10):
        r.note = f"verifier gave no answer (rc={rc}, {t:.0f}s) {contract_note}"
        r.log += o[-3000:] + e[-2000:]
        res, failed = [], []
    else:
        res, status, msgs = results_of(js, u.drop)
        r.solver_s = solver_time(js)
        r.obligations = len(res)
        r.discharged = sum(1 for x in res if x["status"] == "SUCCESS")
        failed = [x for x in res if x["status"] == "FAILURE"]
        r.failed = [f"{x['property']}: {x.get('description', '')} [{loc(x)}]" for x in failed]
        unknown = [x for x in res if x["status"] not in ("SUCCESS", "FAILURE")]
        if not res:
            r.note = "no obligations were generated"
            return
        if unknown and not failed:
            r.note = f"{len(unknown)} obligations unknown"
            return
        only_unwind = failed and all("unwind" in x["property"] or "recursion" in x["property"] for x in failed)
        if only_unwind and any("/verif/" in loc(x) or HARN in loc(x) for x in failed):
            r.note = "machinery: a loop of the harness exceeds its bound: " + "; ".join(r.failed)[:200]
            r.failed = []
            return
        if only_unwind:
            # The bound of this harness no longer covers the code's loops: not a violation of the property.
            r.note = "loop bound exceeded on this source: result is bounded, not a proof"
            # decide the rest under the assumption, as a bounded result
            cmd2 = [c for c in cmd] + ["--no-unwinding-assertions"]
            rc2, o2, e2, t2 = sh(cmd2, u.timeout, mem_gb=12)
            js2 = parse_json(o2) if rc2 is not None else None
            res2, _, _ = results_of(js2, u.drop) if js2 else ([], None, [])
            failed = [x for x in res2 if x["status"] == "FAILURE"]
            r.failed = [f"{x['property']}: {x.get('description', '')} [{loc(x)}]" for x in failed]
            if not failed:
                r.status = "bounded" if res2 else "undecided"
                if contract_note: r.note += "; " + contract_note
                return
        if not failed:
            r.status = "bounded" if (u.kind == "bounded" or contract_note) else "proved"
            r.note = u.bound if u.kind == "bounded" else ""
            if contract_note:
                r.note = contract_note
            if u.cover:
                run_cover(u, r, work)
            return
    # Some obligation failed (or no answer): look for an input and replay it on the real code.
    search(u, r, work, outdir, had_failure=bool(failed))


def select(u, gb, flags):
    """--property options leaving out the dropped obligations (a failed one would make later ones unknown)"""
    if not u.drop:
        return []
    rc, o, e, t = sh(["cbmc", "--json-ui", "--show-properties"] + flags + [gb], 100, mem_gb=14)
    out = []
    for item in (parse_json(o) or []) if rc is not None else []:
        if isinstance(item, dict):
            for x in item.get("properties", []):
                if not any(x["name"].startswith(f + ".") and re.search(g, x.get("description", "")) for f, g in u.drop):
                    out += ["--property", x["name"]]
    return out


def run_cover(u, r, work):
    gb, cmds, note = prepare(u, work, "c", ["-DVF_COVER"])
    if gb is None:
        return
    cmd = ["cbmc", "--json-ui"] + [f for f in base_flags(u)] + ["--no-unwinding-assertions", "--no-standard-checks"] + list(u.solver) + [gb]
    rc, o, e, t = sh(cmd, 60, mem_gb=12)
    js = parse_json(o) if rc is not None else None
    if js is None:
        return
    res, _, _ = results_of(js, u.drop)
    cov = [x for x in res if x.get("description", "").startswith("VFCOVER:")]
    r.covers = sum(1 for x in cov if x["status"] == "FAILURE")
    bad = [x["description"] for x in cov if x["status"] != "FAILURE"]
    if bad:
        r.vacuous = True
        r.note = (r.note + " unreachable on this source: " + ", ".join(bad)).strip()


def inputs_from(trace):
    vals = []
    for st in trace:
        if st.get("stepType") == "input" and st.get("inputID") == "vf_nd":
            v = st["values"][0]
            d = v.get("data")
            if v.get("binary"):
                n = int(v["binary"], 2)
                if n >= 1 << 63:
                    n -= 1 << 64
                vals.append(n)
            else:
                vals.append(int(re.sub(r"[^0-9-]", "", d)))
    return vals


def build_native(u, work):
    exe = os.path.join(work, f"{u.name}-native")
    main = os.path.join(work, f"{u.name}-main.c")
    with open(main, "w") as f:
        f.write(f'#include "{os.path.join(HARN, u.file)}"\nint main(void) {{ {u.entry}(); return 0; }}\n')
    cmd = ["gcc", "-g", "-O1", "-w", "-DVF_REPLAY", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
           "-fno-sanitize=alignment,shift", "-DVF_SEARCH"] + gcc_defs(u) + list(u.search_defs) + incs() + [main, "-lm", "-lpthread", "-o", exe]
    cmd.insert(1, "-Wl,--no-demangle")
    rc, o, e, t = sh(cmd, 120, mem_gb=64 * 1024)
    if rc != 0 and "undefined reference" in e:
        # functions outside the harness: reaching one natively means "not replayable", never a reproduction
        und = sorted(set(re.findall(r"undefined reference to [`']([A-Za-z0-9_]+)'", e)))
        with open(main, "a") as f:
            for n in und:
                f.write(f'__asm__(".globl {n}\\n{n}: jmp vf_unreachable_native");\n')
            f.write("void vf_unreachable_native(void) { fprintf(stderr, \"VF: external code reached\\n\"); _Exit(77); }\n")
        rc, o, e, t = sh(cmd, 120, mem_gb=64 * 1024)
    if rc != 0:
        return None, " ".join(cmd) + "\n" + o[-2000:] + e[-3000:]
    return exe, ""


def run_native(exe, vals, timeout=20):
    fd, p = tempfile.mkstemp(suffix=".vals", dir=os.path.dirname(exe))
    os.write(fd, ("\n".join(map(str, vals)) + "\n").encode())
    os.close(fd)
    env = dict(os.environ, VF_VALUES=p, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
    t = time.time()
    try:
        pr = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return pr.returncode, pr.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return None, "timeout"


def search(u, r, work, outdir, had_failure):
    """Looks for concrete inputs on the unabstracted code and replays them natively."""
    log = []
    stages = []
    if u.small:
        stages.append(("small", ["-DVF_SMALL"], u.small_timeout))
    stages.append(("full", [], u.timeout))
    failed, decided = [], None
    ids = {f.split(":")[0] for f in r.failed}
    for tag, defs, tmo in stages:
        gb, err = compile_goto(u, work, "s" + tag, ["-DVF_SEARCH"] + defs + list(u.search_defs))
        if gb is None:
            r.note = "the obligations could not be generated (harness does not compile against this source)"
            r.log += err
            r.status = "undecided"
            return
        flags = base_flags(u, True) + ["--no-unwinding-assertions"] + list(u.search_flags)
        # the obligations that failed, and the stated ones
        rc, o, e, t = sh(["cbmc", "--json-ui", "--show-properties"] + flags + [gb], 100, mem_gb=14)
        props = []
        for item in (parse_json(o) or []) if rc is not None else []:
            if isinstance(item, dict): props += item.get("properties", [])
        props = [x for x in props if not any(x["name"].startswith(f + ".") and re.search(g, x.get("description", "")) for f, g in u.drop)]
        want = [x["name"] for x in props if x["name"] in ids or (x.get("description", "").startswith("VF:"))]
        if u.only_failed and any(x in ids for x in want): want = [x for x in want if x in ids]
        sel = []
        for w in want: sel += ["--property", w]
        cmd = ["cbmc", "--json-ui", "--trace"] + flags + sel + [gb]
        rc, o, e, t = sh(cmd, tmo, mem_gb=14)
        js = parse_json(o) if rc is not None else None
        res, _, _ = results_of(js, u.drop) if js else ([], None, [])
        failed = [x for x in res if x["status"] == "FAILURE"]
        log.append(f"search {tag}: rc {rc}, {len(res)} obligations, {len(failed)} failed, {t:.0f}s")
        if failed:
            break
        if res and all(x["status"] == "SUCCESS" for x in res):
            decided = tag
            if u.callees or u.loops or not had_failure:
                break
    # own checks first: they state the property
    failed.sort(key=lambda x: 0 if x.get("description", "").startswith("VF:") else 1)
    if not failed and decided and (u.callees or u.loops or not had_failure):
        # the modular obligations failed or were not answered, the same property holds on the whole program up to the bound
        r.status = "bounded"
        r.log += "not discharged modularly:\n" + "\n".join(r.failed) + "\n"
        r.failed = []
        r.obligations = r.discharged = max(1, r.obligations)
        r.note = (r.note + "; modular obligations not discharged, decided by the bounded whole-program check (" + decided + " domain)").strip("; ")
        return
    if not failed and not had_failure:
        return
    if not had_failure:
        r.failed = [f"{x['property']}: {x.get('description', '')} [{loc(x)}]" for x in failed]
    exe, err = (None, "replay disabled") if not u.replay else build_native(u, work)
    if exe is None:
        log.append("native build failed: " + err)
    os.makedirs(outdir, exist_ok=True)
    rep = os.path.join(outdir, f"{u.name}.replay.txt")
    found = None
    for x in failed[:8]:
        vals = inputs_from(x.get("trace", []))
        if exe is None:
            break
        nrc, nout = run_native(exe, vals)
        log.append(f"obligation {x['property']} ({x.get('description')}) inputs {vals[:60]} -> native rc {nrc}: {nout[-1500:]}")
        if nrc not in (0, 77, None):
            found = (x, vals, nrc, nout)
            break
    r.status = "violated"
    with open(rep, "w") as f:
        f.write(f"unit {u.name}: harness {u.file}, entry {u.entry}, config {u.config}\n")
        f.write("failed obligations:\n" + "".join("  " + s + "\n" for s in r.failed[:40]))
        if found:
            x, vals, nrc, nout = found
            f.write(f"\ncounterexample for {x['property']}: {x.get('description')} at {loc(x)}\n")
            f.write("inputs, in order of the harness's nd_*() calls:\n" + " ".join(map(str, vals)) + "\n")
            f.write(f"\nreplayed natively on the real code (gcc -DVF_REPLAY -fsanitize=address,undefined), exit status {nrc}:\n{nout[-4000:]}\n")
            f.write("\nto replay: VF_VALUES=<file with the inputs, one per line> of a binary built with:\n  gcc -g -w -DVF_REPLAY -DVF_SEARCH "
                    + " ".join(gcc_defs(u) + list(u.search_defs) + incs()) + f" (main calling {u.entry} after #include of {u.file})\n")
        else:
            f.write("\nno failing input reproduced natively; verifier output and attempts:\n" + "\n".join(log)[-12000:] + "\n")
            f.write("verifier command: " + r.cmd + "\n")
    r.replayed = found is not None
    r.replay = rep
    r.log += "\n".join(log)
