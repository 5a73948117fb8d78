#!/usr/bin/env python3
"""Decide one property: build its harnesses from /repo, explore, write evidence.

    run.py <property> [quick|thorough]          run the check
    run.py --setup                              build all harnesses
    run.py <property> --replay <file>           run one recorded execution again
    run.py <property> --only <scenario regex>   development aid, no evidence
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
sys.path.insert(0, HERE)
import checks  # noqa: E402

HANG_S = 40          # no new execution for that long: suspected hang
HANG_ALONE_S = 150   # the suspect alone, before it is called a hang
START = time.time()


def say(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


_fh = {}
_fl = threading.Lock()


def filehash(f):
    with _fl:
        if f in _fh:
            return _fh[f]
    try:
        with open(f, "rb") as fd:
            r = hashlib.sha256(fd.read()).hexdigest()
    except OSError:
        r = "missing"
    with _fl:
        _fh[f] = r
    return r


def deps_of(dfile):
    try:
        t = open(dfile).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ")
    t = t.split(":", 1)[1] if ":" in t else ""
    return [x for x in t.split() if x]


class BuildError(Exception):
    pass


def compile_one(cmd, src, obj):
    """Compile unless the object is up to date for this command and these contents."""
    d = obj + ".d"
    stamp = obj + ".stamp"

    def key():
        ds = deps_of(d)
        if ds is None:
            return None
        return sha(" ".join(cmd), *[x + filehash(x) for x in ds])
    if os.path.exists(obj) and os.path.exists(stamp):
        k = key()
        if k and open(stamp).read() == k:
            return
    full = cmd + ["-MMD", "-MF", d, "-c", src, "-o", obj]
    p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(full) + "\n" + p.stdout[-6000:])
    k = key()
    with open(stamp, "w") as f:
        f.write(k or "")


def expand(pats):
    out = []
    for p in pats:
        g = sorted(glob.glob(p)) if "*" in p else [p]
        out += g
    return out


def build(binaries):
    """binaries: list of dicts (see checks.py). Returns name -> path."""
    os.makedirs(BUILD, exist_ok=True)
    jobs = {}
    links = []
    for b in binaries:
        b = checks.resolve(b, REPO, HERE)
        cxx = b["cxx"]
        base = [cxx] + b["flags"] + ["-I" + i for i in b["inc"]]
        objs = []
        for s in expand(b["src"]):
            fl = base + b.get("srcflags", {}).get(os.path.relpath(s, HERE), [])
            o = os.path.join(BUILD, re.sub(r"[^A-Za-z0-9_]", "_", os.path.relpath(s, "/"))[-80:] + "_" + sha(" ".join(fl), s)[:12] + ".o")
            jobs[o] = (fl, s, o)
            objs.append(o)
        links.append((b, objs, os.path.join(BUILD, b["name"])))
    order = sorted(jobs.values(), key=lambda j: not j[1].startswith(HERE))  # harness files first: they take longest
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(compile_one, *j) for j in order]
        for f in fs:
            f.result()

        def link(b, objs, out):
            cmd = [b["cxx"]] + b["ldpre"] + objs + ["-o", out + ".tmp%d" % os.getpid()] + b["ld"]
            k = sha(" ".join(cmd[:-len(b["ld"]) or None]).replace(".tmp%d" % os.getpid(), ""), *[filehash(o) for o in objs])
            st = out + ".stamp"
            if os.path.exists(out) and os.path.exists(st) and open(st).read() == k:
                return
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise BuildError(" ".join(cmd)[:3000] + "\n" + p.stdout[-6000:])
            os.replace(out + ".tmp%d" % os.getpid(), out)
            with open(st, "w") as f:
                f.write(k)
        with _fl:
            for o in jobs:
                _fh.pop(o, None)
        for f in [ex.submit(link, *l) for l in links]:
            f.result()
    return {b["name"]: out for b, _, out in links}


def read_trace(path):
    try:
        data = open(path, "rb").read()
    except OSError:
        return 0, []
    if len(data) < 16:
        return 0, []
    n, depth = struct.unpack_from("<QQ", data, 0)
    depth = min(depth, (len(data) - 16) // 8)
    return n, list(struct.unpack_from("<%dQ" % depth, data, 16))


def scratch(tag):
    d = os.path.join(BUILD, "scratch", "%s-%d" % (re.sub(r"[^A-Za-z0-9_.-]", "_", tag)[:60], os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def env_for():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4000:hard_rss_limit_mb=5000:quarantine_size_mb=8:malloc_context_size=0:detect_odr_violation=0:new_delete_type_mismatch=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
    e["LC_ALL"] = "C"
    e["MALLOC_PERTURB_"] = "165"     # what is read before it is written, or after it is freed, is the same rubbish each time
    return e


def spawn(binary, scen, thorough, wd, extra, errf):
    cmd = [binary, "--scenario", scen] + (["--thorough"] if thorough else []) + extra
    return subprocess.Popen(cmd, cwd=wd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=errf, env=env_for())


def tail(f, n=1500):
    try:
        with open(f, "rb") as fd:
            fd.seek(0, 2)
            fd.seek(max(0, fd.tell() - n))
            return fd.read().decode("utf8", "replace")
    except OSError:
        return ""


def crash_key(err, rc):
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m:
        return "assert:" + m.group(1)[:120]
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:100]
    m = re.search(r"terminate called after throwing an instance of '(.*?)'", err)
    if m:
        return "terminate:" + m.group(1)
    return "signal:%d" % -rc if rc < 0 else "exit:%d" % rc


def run_replay(binary, scen, thorough, choices, limit):
    """Returns (kind, key, msg): kind in ok, fail, crash, hang."""
    wd = scratch("replay-" + os.path.basename(binary) + "-" + sha(scen)[:8] + "-" + sha(str(choices))[:8])
    rf = os.path.join(wd, "replay.txt")
    with open(rf, "w") as f:
        f.write(" ".join(map(str, choices)) + "\n")
    of, ef = os.path.join(wd, "out.json"), os.path.join(wd, "err.txt")
    try:
        with open(ef, "wb") as e:
            p = spawn(binary, scen, thorough, wd, ["--replay", rf, "--out", of], e)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                return "hang", "hang", "execution did not end within %d s" % limit
        if rc == 0:
            return "ok", "", ""
        err = tail(ef)
        if rc == 1 and os.path.exists(of):
            v = json.load(open(of))["violations"]
            if v:
                return "fail", v[0]["key"], v[0]["msg"]
        return "crash", crash_key(err, rc), err[-800:]
    finally:
        shutil.rmtree(wd, ignore_errors=True)


class Infra(Exception):
    pass


def empty(scen):
    return dict(scenario=scen, executions=0, pruned=0, edges=0, steps=0, states=0, states_lost=0, words=0, complete=False, notes={}, samples=[], violations=[])


def merge(a, b):
    for k in ("executions", "pruned", "edges", "steps", "states", "states_lost", "words"):
        a[k] += b[k]
    for k, n in b["notes"].items():
        a["notes"][k] = a["notes"].get(k, 0) + n
    a["samples"] += b["samples"]
    for v in b["violations"]:
        for w in a["violations"]:
            if w["key"] == v["key"]:
                w["count"] += v["count"]
                break
        else:
            a["violations"].append(v)
    a["complete"] = b["complete"]


def run_part(binary, scen, thorough, wd, limit, after):
    """One process: the whole tree, or what comes behind the execution `after`.
    Returns its result and the raw trace of the execution it died in, if it did."""
    tr, of, ef = os.path.join(wd, "trace.bin"), os.path.join(wd, "out.json"), os.path.join(wd, "err.txt")
    for f in (tr, of):
        if os.path.exists(f):
            os.remove(f)
    extra = ["--trace", tr, "--out", of, "--limit", str(limit)]
    if after is not None:
        af = os.path.join(wd, "after.txt")
        with open(af, "w") as f:
            f.write(" ".join(map(str, after)) + "\n")
        extra += ["--after", af]
    t0 = time.time()
    with open(ef, "wb") as e:
        p = spawn(binary, scen, thorough, wd, extra, e)
        last, lastt = -1, time.time()
        hang = False
        while True:
            try:
                rc = p.wait(0.25 if time.time() - t0 > 2 else 0.02)
                break
            except subprocess.TimeoutExpired:
                pass
            if time.time() - lastt > 3 or last < 0:
                n, _ = read_trace(tr)
                if n != last:
                    last, lastt = n, time.time()
            if time.time() - lastt > HANG_S:
                hang = True
            if hang or time.time() - t0 > limit + 60:
                p.kill()
                p.wait()
                rc = None
                break
    n, raw = read_trace(tr)
    choices = [x & 0xffffffff for x in raw]
    if rc is None and not hang:
        raise Infra("%s: not finished after %d s (%d executions)" % (scen, limit, n))
    if rc in (0, 1) and os.path.exists(of):
        r = json.load(open(of))
        if not r["complete"] and not r["violations"]:
            raise Infra("%s: not finished after %d s (%d executions)" % (scen, limit, r["executions"]))
        return r, None
    res = empty(scen)
    res["executions"] = n
    if rc is None:
        k, key, msg = run_replay(binary, scen, thorough, choices, HANG_ALONE_S)
        if k == "ok":
            raise Infra("%s: stalled, but the execution alone ends" % scen)
    else:
        err = tail(ef, 4000)
        if rc in (3, 4, 5):
            raise Infra("%s: exit %d: %s" % (scen, rc, err))
        key, msg = crash_key(err, rc), err[-1200:]
    res["violations"] = [dict(key=key, msg=msg, count=1, choices=choices)]
    return res, raw


def run_scenario(binary, scen, thorough, limit):
    wd = scratch(os.path.basename(binary) + "-" + scen)
    t0 = time.time()
    try:
        res, dead = run_part(binary, scen, thorough, wd, limit, None)
        lives = 8 if res["violations"] and res["violations"][0]["key"] != "hang" else 1
        while dead and lives and time.time() - t0 < limit / 2:
            lives -= 1
            r, dead = run_part(binary, scen, thorough, wd, limit, dead)
            merge(res, r)
        res["wall_s"] = time.time() - t0
        # a violation counts only if the recorded execution fails again, twice; or, when it
        # needs what earlier executions left behind, if the whole exploration fails so again
        keep, again = [], None
        res["unreplayed"] = []
        for v in res["violations"][:12]:
            r = [run_replay(binary, scen, thorough, v["choices"], HANG_ALONE_S) for _ in range(2 if v["key"] != "hang" else 1)]
            if all(x[0] != "ok" for x in r):
                keep.append(v)
                continue
            if again is None:
                try:
                    again = run_part(binary, scen, thorough, wd, limit, None)[0]["violations"] if res["wall_s"] < 250 else []
                except Infra:
                    again = []
            if any(x["key"] == v["key"] and x["choices"] == v["choices"] for x in again):
                v["whole"] = True
                keep.append(v)
            else:
                res["unreplayed"].append("%s: violation %s does not replay (%s): %s" % (scen, v["key"], [x[0] for x in r], v["msg"]))
        res["violations"] = keep
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def load_known(pid):
    out = []
    f = os.path.join(HERE, "known_findings.json")
    if os.path.exists(f):
        for e in json.load(open(f)).get("findings", []):
            if e["property"] == pid:
                out.append(e)
    return out


def setup():
    allb = {}
    for c in checks.CHECKS.values():
        for b in c["bins"]:
            allb[b["name"]] = b
    try:
        build(list(allb.values()))
    except BuildError as e:
        say("BUILD-ERROR")
        say(str(e))
        return 2
    say("built %d harnesses in %.0f s" % (len(allb), time.time() - START))
    return 0


def main():
    if sys.argv[1] == "--setup":
        return setup()
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    replay = None
    i = 0
    while i < len(args):
        if args[i] in ("quick", "thorough"):
            tier = args[i]
        elif args[i] == "--only":
            i += 1
            only = args[i]
        elif args[i] == "--replay":
            i += 1
            replay = args[i]
        i += 1
    thorough = tier == "thorough"
    chk = checks.CHECKS[pid]
    try:
        bins = build(chk["bins"])
    except BuildError as e:
        say("BUILD-ERROR property=%s" % pid)
        say(str(e))
        return 2
    if replay:
        r = json.load(open(replay))
        if r.get("whole"):
            v = run_scenario(bins[r["binary"]], r["scenario"], r["tier"] == "thorough", 3600)["violations"]
            say("fail" if v else "ok", *["%s %s" % (x["key"], x["msg"]) for x in v])
            return 1 if v else 0
        k, key, msg = run_replay(bins[r["binary"]], r["scenario"], r["tier"] == "thorough", r["choices"], HANG_ALONE_S)
        say(k, key, msg)
        return 0 if k == "ok" else 1
    tbuild = time.time() - START
    tasks = []
    for b in chk["bins"]:
        names = subprocess.run([bins[b["name"]], "--list"] + (["--thorough"] if thorough else []), stdout=subprocess.PIPE, text=True, check=True).stdout.split("\n")
        for n in names:
            if n and (not only or re.search(only, n)):
                tasks.append((b["name"], n))
    limit = chk.get("limit", 600) if not thorough else chk.get("limit_thorough", 6 * 3600)
    results, errors = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = {ex.submit(run_scenario, bins[bn], sc, thorough, limit): (bn, sc) for bn, sc in tasks}
        for f in cf.as_completed(fs):
            bn, sc = fs[f]
            try:
                r = f.result()
                r["binary"] = bn
                results.append(r)
                errors += r["unreplayed"]
                if only or os.environ.get("VERIF_VERBOSE"):
                    say("%-40s exec=%-9d pruned=%-8d states=%-8d %.1fs viol=%d" % (sc, r["executions"], r["pruned"], r["states"], r["wall_s"], len(r["violations"])))
            except Infra as e:
                errors.append(str(e))
    results.sort(key=lambda r: (r["binary"], r["scenario"]))
    known = load_known(pid)
    bad, hit = [], []
    for r in results:
        for v in r["violations"]:
            m = [k for k in known if re.fullmatch(k["scenario"], r["scenario"]) and re.fullmatch(k["key"], v["key"])]
            if m:
                hit.append((m[0], v))
            else:
                bad.append((r, v))
    for k in known:
        if any(h[0] is k for h in hit):
            say("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for e in errors:
        say("CHECK-ERROR property=%s %s" % (pid, e))
    replays = []
    if bad:
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        for r, v in bad:
            f = os.path.join(d, "%s-%s.json" % (pid, sha(r["scenario"], v["key"])[:10]))
            with open(f, "w") as fd:
                json.dump(dict(property=pid, binary=r["binary"], scenario=r["scenario"], tier=tier, key=v["key"], message=v["msg"], choices=v["choices"], whole=v.get("whole", False)), fd)
            replays.append(f)
            say("VIOLATION property=%s replay=%s" % (pid, f))
            say("  scenario %s, %s (seen %d times): %s" % (r["scenario"], v["key"], v["count"], v["msg"][:600]))
    if only:
        return 1 if bad else (2 if errors else 0)
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            samples.append("%s: %s" % (r["scenario"], s))
    samples = samples[:12] or ["%s: %d executions" % (r["scenario"], r["executions"]) for r in results[:6]]
    complete = all(r["complete"] for r in results) and not errors
    notes = {}
    for r in results:
        for k, n in r["notes"].items():
            notes[k] = notes.get(k, 0) + n
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=chk.get("level", "model_checking"),
              coverage=dict(states=sum(r["states"] for r in results),
                            transitions=sum(r["edges"] + r["steps"] for r in results),
                            traces_validated_against_impl=sum(r["executions"] for r in results),
                            samples=samples,
                            exhaustive=complete and not any(r["states_lost"] for r in results),
                            executions_cut_at_a_bound=sum(r["pruned"] for r in results),
                            random_words_supplied=sum(r["words"] for r in results),
                            scenarios={r["scenario"]: dict(executions=r["executions"], cut=r["pruned"], states=r["states"], complete=r["complete"], wall_s=round(r["wall_s"], 2)) for r in results},
                            counters=notes,
                            bounds=chk.get("bounds", "")),
              wall_s=round(time.time() - START, 2),
              build_s=round(tbuild, 2),
              assumptions=chk.get("assumptions", []),
              violations=[dict(scenario=r["scenario"], key=v["key"], message=v["msg"][:1000]) for r, v in bad])
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(os.path.join(EVID, pid + ".json.tmp"), os.path.join(EVID, pid + ".json"))
    say("%s %s: %d scenarios, %d executions, %d states, %d transitions, %.0f s (build %.0f s)%s" % (
        pid, tier, len(results), ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["states"], ev["coverage"]["transitions"], time.time() - START, tbuild,
        "" if complete else " INCOMPLETE"))
    if bad:
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    shutil.rmtree(os.path.join(BUILD, "scratch"), ignore_errors=True)
    sys.exit(rc)
