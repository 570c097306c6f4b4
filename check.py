#!/usr/bin/env python3
"""Decides one property: python3 check.py C07 [--thorough]

Extracts the functions under contract from /repo's current sources (vx/), lets Verus discharge
every obligation of the modules the property depends on, and replays concrete inputs against the
real library (replay/). See DESIGN.md, "How a run decides".

--baseline rewrites contracts/baseline.json from the current tree (by hand, on the unchanged tree).
"""
import concurrent.futures as cf, glob, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO") or os.path.join(os.path.dirname(V), "repo")
C = V + "/contracts"
ALGS = "bup buzhash fastcdc gear gzip mii pigz ram zpaq zstd".split()
DEPS = {"buzhash": ["buzhash_table"], "zpaq": ["range"]}
EVERY = ["buzhash_table", "range"] + ALGS
# property -> modules whose obligations carry it (the base - traits, iterators, drivers, gear
# tables - always does), algorithms to replay
PROPS = {
    "C01": (EVERY, ALGS), "C02": (ALGS, ALGS), "C03": (ALGS, ALGS), "C04": (ALGS, ALGS), "C05": (ALGS, ALGS),
    "C06": (ALGS, ALGS), "C07": (["bup", "buzhash", "gzip", "zstd"], ["bup", "buzhash", "gzip", "zstd"]),
    "C08": (["fastcdc", "ram", "zpaq", "buzhash", "mii", "range"], ["fastcdc", "ram", "zpaq", "buzhash", "mii"]),
    "C09": (ALGS, ALGS), "C10": (["bup"], ["bup"]), "C11": (["buzhash_table", "buzhash"], ["buzhash"]),
    "C12": (["fastcdc"], ["fastcdc"]), "C13": (["gear"], ["gear"]), "C14": (["gzip"], ["gzip"]), "C15": (["mii"], ["mii"]),
    "C16": (["pigz"], ["pigz"]), "C17": (["ram"], ["ram"]), "C18": (["range", "zpaq"], ["zpaq"]), "C19": (["zstd"], ["zstd"]),
    "C20": (["range"], ["zpaq"]), "C21": (EVERY, ALGS), "C22": (["buzhash_table"], ["gear", "fastcdc", "buzhash"]),
}
# what Verus says when an obligation fails
OBLIGATION = ["postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
              "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
              "possible bit shift underflow/overflow", "could not prove termination", "loop invariant", "recommendation not met",
              "unreachable", "assert_by", "assertion"]
PANIC = ["possible arithmetic underflow/overflow", "possible division by zero", "possible bit shift", "precondition not satisfied"]


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)


class Broken(Exception):
    """the check itself could not run"""


def literals():
    """numbers in the sources, by count"""
    out = {}
    for d, _, fs in os.walk(REPO + "/src"):
        for f in fs:
            if f.endswith(".rs"):
                s = open(os.path.join(d, f), errors="replace").read()
                s = re.sub(r"//[^\n]*|/\*.*?\*/", "", s, flags=re.S)
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.])|b'(\\?.)'", s):
                    if m.group(1):
                        n = int(m.group(1).replace("_", ""), 0) if not re.fullmatch(r"0[0-9_]+", m.group(1)) else int(m.group(1).replace("_", ""))
                    else:
                        c = m.group(2)
                        n = {"n": 10, "t": 9, "r": 13, "0": 0}.get(c[1:], ord(c[-1])) if len(c) == 2 else ord(c)
                    out[str(n)] = out.get(str(n), 0) + 1
                for m in re.finditer(r"1(?:[iu]\w+)?\s*<<\s*(\d+)", s):
                    n = str(1 << min(int(m.group(1)), 63))
                    out[n] = out.get(n, 0) + 1
    return out


# ---- extraction and proof

class Proof:
    """The text handed to the verifier and what came back."""

    def __init__(self, work, base):
        self.work, self.base = work, base
        self.reports, self.texts, self.trouble = {}, {}, {}

    def extract(self, name, probe=False, give_up=None, who=""):
        src = REPO + ("/src/%s.rs" % name if not name.startswith("gear") or name == "gear" else "/src/gear_table/%s.rs" % name)
        suffix = ".probe" if probe else "." + who if give_up else ""
        o, r = "%s/%s%s.rs" % (self.work, name, suffix), "%s/%s%s.json" % (self.work, name, suffix)
        for p in (o, r):
            if os.path.exists(p):
                os.unlink(p)
        env = dict(os.environ)
        env.pop("VX_PROBE", None)
        env["VX_BASE"] = C + "/baseline.json" if self.base else ""
        env["VX_GIVE_UP"] = ";".join(sorted(give_up or []))
        if probe:
            env["VX_PROBE"] = "1"
        cmd = [V + "/vx/target/debug/vx", src, "%s/%s.vrs" % (C, name), o, r] + ([] if name == "lib" else [name])
        p = sh(cmd, env=env)
        try:
            rep = json.load(open(r))
        except (OSError, ValueError):
            rep = {}
        if p.returncode or "functions" not in rep or not os.path.exists(o):
            self.trouble[name] = "extraction: " + (rep.get("parse_error") or p.stderr.strip()[-300:])
            return None
        if not give_up:
            self.reports[name] = rep
        return open(o).read()

    def prelude(self, *texts):
        """with the contracts of those further library functions that the texts call"""
        extra = re.split(r"^//@@ when (.*)$", open(C + "/std_extra.rs").read(), flags=re.M)[1:]
        used = [b for w, b in zip(extra[::2], extra[1::2]) if any(re.search(w, t or "") for t in texts)]
        if used:
            used = ["verus! {\n"] + used + ["} // verus!\n"]
        return "".join(open(C + "/" + f).read() for f in ("prelude.rs", "prelude_ops.rs", "tables.rs")) + "".join(used)

    def build(self, mods, probe=False, give_up=None):
        """texts of the base and of each module with what it depends on"""
        out = {}
        who = "_".join(mods) or "base"
        t = {n: self.extract(n, probe, give_up, who) for n in ["lib", "gear32", "gear64"]}
        if None in t.values():
            return {}
        rest = t["lib"] + "pub mod gear_table { use super::*;\n" + t["gear32"] + t["gear64"] + "pub use self::gear32::GEAR_32; pub use self::gear64::GEAR_64; }\n"
        out["base"] = self.prelude(t["lib"]) + rest + "fn main() {}\n"
        mt = {}
        for m in mods:
            for d in DEPS.get(m, []) + [m]:
                if d not in mt:
                    mt[d] = self.extract(d, probe, give_up, who)
        for m in mods:
            parts = [mt[d] for d in DEPS.get(m, []) + [m]]
            if None in parts:
                continue
            out[m] = self.prelude(t["lib"], *parts) + rest + "".join(parts) + "fn main() {}\n"
        return out

    def verify(self, m, text, probe=False):
        r = self.verify_at(m, text, "3", True) if probe else self.verify_at(m, text, "30", False)
        if not probe and any(e["kind"] == "rlimit" for e in r["errors"]):
            n = self.verify_at(m, text, "90", False, 150)
            r = r if n["lost"] else n
        # what the verifier cannot take: its contract is assumed, for the rest to be proved
        up, first = set(), []
        for _ in range(4):
            keys = {e["fn"] for e in r["errors"] if e["fn"]} - up
            if probe or not r["lost"] or not keys:
                break
            first += [dict(e) for e in r["errors"] if e["fn"] in keys]
            up |= keys
            t = self.build([] if m == "base" else [m], give_up=up).get(m)
            if t is None:
                break
            n = self.verify_at(m, t, "30", False)
            if not n["lost"]:
                n["errors"] += first
                n["given_up"] = sorted(up)
                return n
            r = dict(n, errors=first + n["errors"])
        return r

    def verify_at(self, m, text, rlimit, probe, limit=240):
        f = "%s/v_%s%s.rs" % (self.work, m, "_probe" if probe else "")
        open(f, "w").write(text)
        cmd = ["verus", f, "--triggers-mode", "silent", "--rlimit", rlimit, "--multiple-errors", "12" if probe else "6", "--output-json", "--time", "--error-format=json"]
        if m != "base":
            cmd += ["--verify-module", m]
        t0 = time.time()
        try:
            p = sh(cmd, timeout=limit, cwd=self.work)
            outs, errs = p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return {"cmd": " ".join(cmd), "lost": "verifier ran out of time", "errors": [], "verified": 0, "failed": 0, "smt_ms": 0, "wall": time.time() - t0}
        try:
            j = json.loads(outs)
        except ValueError:
            j = {}
        diags = []
        for l in errs.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error":
                    diags.append(d)
        vr = j.get("verification-results", {})
        smt = j.get("times-ms", {}).get("smt", {})
        res = {"cmd": " ".join(cmd), "verified": vr.get("verified", 0), "failed": vr.get("errors", 0),
               "smt_ms": smt.get("total", 0) if isinstance(smt, dict) else 0, "wall": time.time() - t0, "errors": [], "lost": None}
        lines = text.split("\n")
        region = regions(lines)
        # the front end (rustc's or the verifier's) rejected the text
        nothing = "verified" not in vr or vr.get("encountered-vir-error") or vr.get("encountered-error") and not vr["verified"] and not vr.get("errors")
        for d in diags:
            msg = d["message"]
            if msg.startswith("aborting due to") or "verification results" in msg:
                continue
            if nothing or not any(msg.startswith(o) or o in msg for o in OBLIGATION):
                kind = "rlimit" if "rlimit" in msg.lower() or "Resource limit" in msg else "unsupported"
            else:
                kind = "obligation"
            sp = [s for s in d.get("spans", []) if s["file_name"].endswith(os.path.basename(f))]
            ln = [s["line_start"] for s in sp]
            # the function whose body is being checked: not the trait clause, not the callee's
            keys = []
            for s in sorted(sp, key=lambda s: (s.get("label") or "").startswith("failed")):
                k = region[s["line_start"] - 1] if s["line_start"] - 1 < len(region) else None
                if k is None and s["line_end"] < len(lines):
                    mm = re.search(r"/\*VXFN ([^*]+)\*/", lines[s["line_end"]])
                    k = mm and mm.group(1).strip()
                if k and k not in keys:
                    keys.append(k)
            clause = []
            for s in sp:
                lab = s.get("label") or ""
                if "precondition" in msg and lab.startswith("failed"):
                    continue
                if lab.startswith("at "):
                    continue
                for x in range(s["line_start"] - 1, min(s["line_end"], len(lines))):
                    mm = re.search(r"// @([C0-9,]+)\s*$", lines[x])
                    if mm:
                        clause += mm.group(1).split(",")
            res["errors"].append({"module": m, "kind": kind, "message": msg, "fn": keys[0] if keys else None, "lines": ln,
                                  "clause": sorted(set(clause)), "text": [lines[x - 1].strip() for x in ln if x - 1 < len(lines)][:4],
                                  "rendered": d.get("rendered", "")[:3000]})
        if nothing:
            res["lost"] = "; ".join(sorted({e["message"] for e in res["errors"]}))[:600] or "no result: " + errs[-300:]
            for e in res["errors"]:
                e["kind"] = "unsupported"
        return res


def regions(lines):
    """the function each line belongs to"""
    out, cur = [], None
    for l in lines:
        m = re.search(r"/\*VXFN ([^*]+)\*/", l)
        if m:
            cur = m.group(1).strip()
        out.append(cur)
        if "/*VXEND" in l:
            cur = None
    return out


def functions(reports):
    out = {}
    for mod, r in reports.items():
        for f in r["functions"]:
            out[f["key"] if mod not in ("gear32", "gear64") else f["key"]] = dict(f, module=mod)
    return out


# functions of core and std that vstd specifies: calling another one of them does not put a proof out
# of its depth (an unsupported one fails the module, which is not an alarm)
STD = set("""wrapping_add wrapping_sub wrapping_mul wrapping_shl wrapping_shr wrapping_neg wrapping_pow checked_add checked_sub
checked_mul checked_div saturating_add saturating_sub saturating_mul rotate_left rotate_right min max abs_diff len is_empty unwrap
leading_zeros trailing_zeros ilog2 rem_euclid is_some is_none swap replace from into clone to_owned copied cloned is_power_of_two default as_ref
u8 u16 u32 u64 usize i32 i64""".split())


def last_name(k):
    return k.split(".")[-1]


def conversions(f):
    """calls that resolve by type: what the verifier knows about them hangs on the type"""
    return sum(re.split(r"[.:]", c)[-1] in ("into", "try_into", "from", "try_from", "as_ref") and not re.match(r"(u8|u16|u32|u64|usize)::from$", c) for c in f["calls"])


def changed_structure(key, fns, base):
    """a reason why the proof of this function says nothing: its shape is not the one the contracts
    (loop invariants, callee contracts) were written for"""
    if key is None:
        return None
    f, b = fns.get(key), base["functions"].get(key)
    if f is None:
        return None
    if b is None:
        return "no contract of its own"
    if f["loops"] != b["loops"]:
        return "loops %s instead of %s" % (f["loops"], b["loops"])
    if f["loops"] and f["breaks"] != b["breaks"]:
        return "%d breaks instead of %d" % (f["breaks"], b["breaks"])
    if len(f.get("carried", [])) > len(b.get("carried", [])):
        return "carries %s through a loop" % ", ".join(f["carried"])
    fields = set(f.get("accums", [])) - set(b.get("accums", []))
    if fields:
        return "accumulates %s in a loop" % ", ".join(sorted(fields))
    # the verifier knows of a conversion what its impl says, which may be nothing
    if conversions(f) > b.get("conversions", 0):
        return "%d conversions instead of %d" % (conversions(f), b.get("conversions", 0))
    known = set(b["calls"])
    fresh = {last_name(k) for k, g in fns.items() if not g["contract"] and k not in base["functions"]}
    for c in f["calls"]:
        n = re.split(r"[.:]", c)[-1]
        if n in fresh:
            return "calls %s, which has no contract" % c
        if c not in known and n not in {last_name(k) for k, g in fns.items() if g["contract"]} | {"Some", "Ok", "Err", "Wrapping"} | STD:
            return "calls %s, which it did not" % c
    return None


def tags(f):
    hard, soft = set(), set()
    for t in (f or {}).get("tags", []):
        (hard if t[0] == "@" else soft).update(t[1:].split(","))
    return hard, soft


# ---- replay

def cargo_build(d, profile):
    env = dict(os.environ, CARGO_TERM_COLOR="never")
    p = sh(["cargo", "build", "--offline", "-q", "--profile", profile], cwd=d, env=env)
    return p.returncode, p.stderr


def debug_only():
    for f in glob.glob(REPO + "/src/**/*.rs", recursive=True):
        for l in open(f, errors="replace"):
            l = l.split("//")[0]
            if "debug_assert" in l or "overflow_checks" in l:
                return True
    return False


def replay(binary, out, secs, seed, algs, dic, threads=8, fixed=True):
    if os.path.exists(out):
        os.unlink(out)
    cmd = [binary, "run", "--secs", str(secs), "--seed", str(seed), "--out", out, "--algs", ",".join(algs), "--threads", str(threads), "--hang", "20"]
    if dic:
        cmd += ["--dict", ",".join(dic)]
    if not fixed:
        cmd.append("--no-fixed")
    try:
        p = sh(cmd, timeout=secs + 120)
        rc = p.returncode
        err = p.stderr[-400:]
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    if os.path.exists(out):
        r = json.load(open(out))
        if r["note"] == "abort in fixed calls" and fixed:
            more = replay(binary, out, secs, seed, algs, dic, threads, False)
            r = dict(more, failures=r["failures"] + more["failures"])
        return r
    return {"crash": "replay ended with %s: %s" % (rc, err), "failures": [], "inputs": 0, "cutting": 0, "bytes": 0, "jobs": {}, "samples": [], "note": ""}


def large(binary, out, secs, algs):
    """streams beyond 2^32 bytes"""
    if os.path.exists(out):
        os.unlink(out)
    cmd = [binary, "large", "--algs", ",".join(algs), "--secs", str(secs), "--out", out]
    try:
        p = sh(cmd, timeout=secs + 60)
    except subprocess.TimeoutExpired:
        return {"cases": 0, "failures": []}
    r = json.load(open(out)) if os.path.exists(out) else {"cases": 0, "failures": [], "crash": "large streams: ended with %s: %s" % (p.returncode, p.stderr[-300:])}
    for f in r["failures"]:
        f["reproduce"] = " ".join(cmd)
    return r


def assumed_contracts(work):
    """the contracts assumed of std, against std's code (assumed/std.rs, Kani); for the evidence"""
    try:
        p = sh(["kani", V + "/assumed/std.rs"], cwd=work, timeout=120)
    except (subprocess.TimeoutExpired, OSError) as e:
        return {"trouble": str(e)[:200]}
    cur, out = None, {}
    for l in p.stdout.splitlines():
        m = re.match(r"Checking harness (\w+)", l)
        cur = m.group(1) if m else cur
        m = re.match(r"VERIFICATION:- (\w+)", l)
        if m and cur:
            out[cur] = m.group(1)
    return out or {"trouble": (p.stderr or p.stdout)[-200:]}


def main():
    args = sys.argv[1:]
    if "--baseline" in args:
        return baseline()
    prop = args[0]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    mods, algs = PROPS[prop]
    work = "%s/work/%s" % (V, prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    base = json.load(open(C + "/baseline.json"))
    lit = literals()
    dic = sorted({k for k, n in lit.items() if n > base["literals"].get(k, 0)}, key=int)[:40]
    dic = [d for d in dic if int(d) < 1 << 64]

    pool = cf.ThreadPoolExecutor(10)
    jvx, jrp = pool.submit(cargo_build, V + "/vx", "dev"), pool.submit(cargo_build, V + "/replay", "release")
    rc, err = jvx.result()
    if rc:
        raise Broken("vx does not build: " + err[-800:])
    proof = Proof(work, base)
    texts = proof.build(mods)
    probes = Proof(work, base).build(mods, probe=True)
    vpool = cf.ThreadPoolExecutor(7)
    jk = pool.submit(assumed_contracts, work)
    jv = {m: vpool.submit(proof.verify, m, t) for m, t in sorted(texts.items(), key=lambda x: x[0] != "zstd")}
    jp = {m: vpool.submit(proof.verify, m, t, True) for m, t in probes.items()}
    rc, err = jrp.result()
    rp, replay_trouble = None, None
    secs = {"quick": 12, "thorough": 240}[tier]
    binary = V + "/replay/target/release/replay"
    if rc:
        if sh(["cargo", "check", "--offline", "-q"], cwd=REPO, env=dict(os.environ, CARGO_TARGET_DIR=work + "/cargo")).returncode:
            raise Broken("/repo does not build: " + err[-800:])
        replay_trouble = "replay does not build against this tree: " + err[-500:]
    else:
        rp = replay(binary, work + "/replay.json", secs, seed, algs, dic)
        # code that a build without debug assertions does not have
        if debug_only() and not cargo_build(V + "/replay", "plain")[0]:
            more = replay(V + "/replay/target/plain/replay", work + "/replay_plain.json", secs, seed, algs, dic)
            for f in more["failures"]:
                f["build"] = "without debug assertions"
            rp["failures"] += more["failures"]
    results = {m: j.result() for m, j in jv.items()}
    presults = {m: j.result() for m, j in jp.items()}

    fns = functions(proof.reports)
    errors = [e for r in results.values() for e in r["errors"]]
    # why a failed obligation says nothing about the property
    undecided, failed = [], []
    for m in ["base"] + mods:
        if m in results and not results[m]["lost"]:
            continue
        undecided.append({"module": m, "why": results[m]["lost"] if m in results else "; ".join("%s: %s" % x for x in proof.trouble.items()) or "not extracted"})
    for mod, r in proof.reports.items():
        for l in r["lost"]:
            undecided.append({"module": mod, "why": "lost anchor: " + l})
    lost_fns = {l.split(":")[0] for r in proof.reports.values() for l in r["lost"]}
    for e in errors:
        if e["kind"] == "rlimit" and e["fn"] and not changed_structure(e["fn"], fns, base) and e["fn"] not in lost_fns:
            # provable on the tree the contracts were written for within a fraction of the limit
            failed.append(dict(e, message="not discharged within the resource limit: " + e["message"]))
            continue
        if e["kind"] != "obligation":
            undecided.append({"module": e["module"], "fn": e["fn"], "why": e["message"]})
            continue
        why = changed_structure(e["fn"], fns, base)
        if not why and e["fn"] in lost_fns:
            why = "lost anchor"
        if why:
            undecided.append({"module": e["module"], "fn": e["fn"], "why": why, "obligation": e["message"], "text": e["text"]})
        else:
            failed.append(e)

    def props_of(e):
        """(surely, perhaps) properties a failed obligation breaks"""
        hard, soft = tags(fns.get(e["fn"]))
        if e["clause"]:
            return set(e["clause"]), set()
        if any(p in e["message"] for p in PANIC) and "ensures" not in e["message"]:
            return {"C01"} | (hard if "precondition" in e["message"] else set()), hard | soft
        if e["fn"] is None:
            return set(), set(ALG_PROP.get(e["module"], [])) | {"C01"}
        if not hard and not soft:
            # a Clone or Default without a property of its own
            return set(), set(ALG_PROP.get(e["module"], [])) | {"C04", "C21"}
        return hard, soft

    finds = [f for f in (rp or {}).get("failures", [])]
    relevant = []
    for e in failed:
        h, s = props_of(e)
        if prop in h or prop in s:
            relevant.append((e, prop in h))

    def shown(finds):
        """inputs that fail this property, or, where an obligation of this very property fails, that
        show the algorithm it belongs to misbehave"""
        mods = {e["module"] for e, hard in relevant if hard}
        mods |= {u["module"] for u in undecided if u.get("fn") and prop in tags(fns.get(u["fn"]))[0]}
        return [f for f in finds if f["prop"] == prop] or [f for f in finds if f["alg"] in mods]
    mine = shown(finds)
    if rp is not None and (tier == "thorough" or not mine and (relevant or undecided or dic)):
        big = large(binary, work + "/large.json", {"quick": 75, "thorough": 200}[tier], algs)
        rp["large"] = big["cases"]
        finds += big["failures"]
        rp["crash"] = rp.get("crash") or big.get("crash")
        mine = shown(finds)
    if rp is not None and not mine and (relevant or undecided or dic) and tier == "quick":
        # the proof does not go through: look longer for an input
        bad = sorted({e["module"] for e, _ in relevant} | {u["module"] for u in undecided})
        focus = [a for a in algs if a in bad] or algs
        more = replay(binary, work + "/replay2.json", 60 if relevant or undecided else 20, seed + 17, focus, dic)
        for k in ("inputs", "cutting", "bytes"):
            rp[k] += more[k]
        finds += more["failures"]
        rp["crash"] = rp.get("crash") or more.get("crash")
        mine = shown(finds)
    if rp is not None and rp.get("crash"):
        # the library took the process down (abort, stack overflow, out of memory): no answer is expected of it
        if prop == "C01":
            mine.append({"prop": "C01", "alg": "?", "desc": rp["crash"], "msg": rp["crash"]})
        else:
            replay_trouble = rp["crash"]

    explained = bool(finds)
    alarms = [e for e, hard in relevant if hard or not explained]
    status, replay_path, msg = 0, None, None
    if mine or alarms:
        status = 1
        replay_path = "%s/work/replay_%s.json" % (V, prop)
        body = {"property": prop, "dict": dic, "failed_obligations": [dict(e, properties=sorted(set().union(*props_of(e)))) for e, _ in relevant], "undecided": undecided}
        if mine:
            f = min(mine, key=lambda f: len(f.get("data", "")) if "data" in f else 1 << 40)
            body["failing_input"] = f
            body["all"] = mine
            if "data" in f:
                body["reproduce"] = "%s one --prop %s --alg %s --cfg %d --data '%s' --plan-a '%s' --plan-b '%s' --extra '%s' --pick %d%s" % (
                    binary, f["prop"], f["alg"], f["cfg"], f["data"], f["plan_a"], f["plan_b"], f["extra"], f["pick"], " --dict " + ",".join(dic) if dic else "")
            elif "reproduce" in f:
                body["reproduce"] = f["reproduce"]
            elif f["alg"] == "fixed":
                body["reproduce"] = binary + " fixed"
            msg = "%s: %s" % (f["desc"], f["msg"])
        else:
            other = next((f for f in finds if "data" in f), None)
            body["other_property_fails_on"] = other
            e = alarms[0]
            msg = "%s: %s: %s" % (e["fn"] or e["module"], e["message"], " / ".join(e["text"][:2]))
        json.dump(body, open(replay_path, "w"), indent=1)

    evidence(prop, tier, seed, t0, proof, results, presults, rp, replay_trouble, fns, base, undecided, failed, status, dic, mods, algs, jk.result())
    known = known_findings()
    if rp is not None and any(k[0] == prop for k in known):
        seen = {l.split()[0]: l for l in sh([binary, "known"], timeout=60).stdout.splitlines() if l.strip()}
        for p, what in known:
            if p == prop:
                if " reproduced " in seen.get(p, "") + " ":
                    print("KNOWN-FINDING: property=%s %s" % (p, what))
                else:
                    print("note: the known finding of %s does not show any more: %s" % (p, seen.get(p)))
    v, n = sum(r["verified"] for r in results.values()), sum(r["verified"] + r["failed"] for r in results.values())
    print("%s: %d of %d obligation groups discharged (%s); %d undecided; %s inputs replayed; %.0f s" % (
        prop, v, n, ", ".join(sorted(results)), len(undecided), rp["inputs"] if rp else "no", time.time() - t0))
    for u in undecided[:10]:
        print("undecided (bounded stand-in: replay): %s %s: %s" % (u["module"], u.get("fn") or "", u["why"]))
    if status:
        print(msg)
        print("VIOLATION property=%s replay=%s%s" % (prop, replay_path, "" if mine else " no-failing-input-found"))
    if not status and rp is None and (undecided or failed):
        raise Broken("neither proof nor replay: %s" % replay_trouble)
    return status


ALG_PROP = {"bup": ["C10"], "buzhash": ["C11"], "fastcdc": ["C12"], "gear": ["C13"], "gzip": ["C14"], "mii": ["C15"], "pigz": ["C16"], "ram": ["C17"], "zpaq": ["C18"], "zstd": ["C19"], "range": ["C20"], "buzhash_table": ["C22"], "base": ["C02", "C03", "C05"]}


def known_findings():
    out = []
    for l in open(V + "/known-findings.txt"):
        m = re.match(r"known: property=(C\d+) (.*)", l.strip())
        if m:
            out.append((m.group(1), m.group(2)))
    return out


def assumptions(texts):
    """mechanical scan of the verified text for what is assumed instead of proved"""
    pat = re.compile(r"\b(assume|admit)\s*\(|external_body|external_fn_specification|assume_specification|external_type_specification|\baxiom\b|#\[verifier::external\b")
    out = {}
    for t in texts:
        for l in t.split("\n"):
            if pat.search(l) and not l.strip().startswith("//"):
                out[re.sub(r"\s+", " ", l.strip())[:160]] = 1
    return sorted(out)


def vacuity(presults, texts):
    """assert(false) at the entry and in each loop of every contracted function: each must fail"""
    want, got, spent = set(), set(), set()
    for m, r in presults.items():
        f = r["cmd"].split()[1]
        lines = open(f).read().split("\n")
        # only the probes of the module itself are verified in its run
        s = 0
        if m != "base":
            s = next(i for i, l in enumerate(lines) if l.startswith("pub mod %s {" % m))
        for i, l in enumerate(lines[s:]):
            mm = re.search(r"/\*VXPROBE (.*?)\*/", l)
            if mm:
                want.add((m, mm.group(1)))
        for e in r["errors"]:
            if e["kind"] == "rlimit" and e["fn"]:
                spent.add((m, e["fn"]))
            for x in e["lines"]:
                mm = re.search(r"/\*VXPROBE (.*?)\*/", lines[x - 1])
                if mm:
                    got.add((m, mm.group(1)))
    # no proof of false within the probe's resource limit either
    idle = {(m, k) for m, k in want - got if (m, k.rsplit(" ", 1)[0]) in spent}
    return len(want), len(want & got), sorted("%s: %s" % x for x in idle), sorted("%s: %s" % x for x in want - got - idle)


def evidence(prop, tier, seed, t0, proof, results, presults, rp, replay_trouble, fns, base, undecided, failed, status, dic, mods, algs, std):
    under = [k for k, f in fns.items() if f["contract"] and f["has_body"]]
    tagged = [k for k in under if prop in set().union(*tags(fns[k]))]
    free = [k for k, f in fns.items() if not f["contract"] and f["has_body"]]
    ext = [k for k, f in fns.items() if f["external"]]
    bad = {e["fn"] for e in failed} | {u.get("fn") for u in undecided if u.get("fn")}
    texts = [open("%s/v_%s.rs" % (proof.work, m)).read() for m in results]
    n, ok, idle, vac = vacuity(presults, texts)
    clauses = sum(t.count("// @") for t in texts)
    cov = {
        "obligations": sum(r["verified"] + r["failed"] for r in results.values()),
        "discharged": sum(r["verified"] for r in results.values()),
        "checker_cmd": "; ".join(r["cmd"] for r in results.values()),
        "trusted_base": ["Verus 0.2026.09.13 and its Z3", "vstd specifications of core/alloc functions", "vx extraction (see extraction_edits)"]
            + assumptions(texts) + ["external: " + k for k in ext],
        "back_end": "Verus (Z3)",
        "assumed_std_contracts_checked_by_kani": std,
        "solver_ms": sum(r["smt_ms"] for r in results.values()),
        "modules": {m: {"verified": r["verified"], "errors": r["failed"], "solver_ms": r["smt_ms"], "wall_s": round(r["wall"], 1), "lost": r["lost"]} for m, r in results.items()},
        "functions_under_contract": len(under),
        "functions_proved": sorted(k for k in under if k not in bad and fns[k]["module"] not in {u["module"] for u in undecided if "fn" not in u}),
        "functions_tagged_with_this_property": sorted(tagged),
        "functions_without_contract": sorted(free),
        "tagged_clauses": sum(len(re.findall(r"// @[C0-9,]*%s\b" % prop, t)) for t in texts),
        "undecided": undecided,
        "failed_obligations": [{k: e[k] for k in ("module", "fn", "message", "text", "clause")} for e in failed],
        "vacuity_probes": n, "vacuity_probes_failing_as_they_must": ok, "vacuity_probes_without_answer": idle, "vacuity_suspects": vac,
        "extraction_edits": {m: r["edits"] for m, r in proof.reports.items()},
        "helpers_inlined": {m: r["inlined"] for m, r in proof.reports.items() if r.get("inlined")},
        "renames_followed": {m: r["followed"] for m, r in proof.reports.items() if r.get("followed")},
        "given_up": {m: r["given_up"] for m, r in results.items() if r.get("given_up")},
        "extraction_notes": sum((r["notes"] for r in proof.reports.values()), []),
        "bounded": {"what": "concrete replay against the real library: counterexample search, and stand-in for whatever is listed under undecided (bounded, not counted as proved)",
                    "inputs": rp["inputs"] if rp else 0, "with_cuts": rp["cutting"] if rp else 0, "bytes": rp["bytes"] if rp else 0,
                    "streams_beyond_32_bits": (rp or {}).get("large", 0), "jobs": rp["jobs"] if rp else {}, "samples": rp["samples"][:6] if rp else [], "dictionary": dic, "trouble": replay_trouble},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": ["machine arithmetic is exact: Verus models fixed-width integers and Wrapping through proved specifications, not as unbounded",
                          "64-bit usize where a contract says so; streams of at most 2^62 bytes; sane configurations as listed in DESIGN.md",
                          "cfg attributes are dropped: all default features are on", "Debug/PartialEq impls are not verified",
                          "what the trusted_base lists is assumed, not proved"],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if status else 0}
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)


def baseline():
    work = V + "/work/baseline"
    os.makedirs(work, exist_ok=True)
    rc, err = cargo_build(V + "/vx", "dev")
    assert rc == 0, err
    p = Proof(work, None)
    texts = p.build(EVERY)
    fns = functions(p.reports)
    b = {"literals": literals(), "functions": {k: {"loops": f["loops"], "calls": sorted(set(f["calls"])), "conversions": conversions(f), "contract": f["contract"], "lets": f.get("lets", []), "breaks": f.get("breaks", 0), "carried": f.get("carried", []), "accums": f.get("accums", [])} for k, f in fns.items()},
         "structs": {m: r["structs"] for m, r in p.reports.items()}}
    json.dump(b, open(C + "/baseline.json", "w"), indent=0, sort_keys=True)
    print(len(fns), "functions", [l for r in p.reports.values() for l in r["lost"]], p.trouble)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("check error:", e)
        sys.exit(2)
