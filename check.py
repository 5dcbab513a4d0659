#!/usr/bin/env python3
"""check.py <ID> [quick|thorough] [--replay FILE] [--stage NAME]

Builds the monitors of one property from /repo's current working tree, runs them,
merges what they observed into evidence/<ID>.json.
exit 0: held on everything observed; exit 1: VIOLATION printed; exit 2: no verdict.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

CPU_LIMIT = 150.0      # CPU seconds in one case without finishing = does not terminate
IDLE_LIMIT = 120.0     # wall seconds with all threads asleep = deadlock


def log(*a):
    print(*a, flush=True)


class Inconclusive(Exception):
    pass


def proc_cpu(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return None


def any_running(pid):
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            s = open(f"/proc/{pid}/task/{t}/stat").read().rsplit(")", 1)[1].split()[0]
            if s in "RD":
                return True
    except OSError:
        return True
    return False


def read_journal(path):
    out = []
    try:
        d = open(path, "rb").read()
    except OSError:
        return out
    for i in range(0, len(d), 128):
        s = d[i:i + 128].split(b"\0")[0].decode(errors="replace").strip()
        p = s.split(" ", 2)
        if len(p) == 3:
            out.append((p[2], int(p[1]), int(p[0])))
    return out


def build_env(extra=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable")
    e.pop("RUSTFLAGS", None)
    e["CARGO_TARGET_DIR"] = os.environ.get("VERIF_TARGET_DIR", os.path.join(HARNESS, "target"))
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def run_cmd(cmd, env, cwd, timeout):
    """run, own session, kill the whole group on timeout; returns rc (None = timeout), output"""
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        f.seek(0)
        return rc, f.read().decode(errors="replace")


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = CHECKS[pid]
        self.ev = os.path.join(ROOT, "evidence")
        self.replays = os.path.join(self.ev, "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=f"vchk-{pid}-")
        self.stages, self.notes, self.violated = [], [], False
        kf = os.path.join(ROOT, "known-findings.json")
        self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid and k.get("status") == "known"] if os.path.exists(kf) else []

    def viol(self, stage, data):
        path = os.path.join(self.replays, f"{self.pid}-{stage}.json")
        data.update(property=self.pid, stage=stage, seed=self.seed, tier=self.tier)
        json.dump(data, open(path, "w"), indent=1)
        log(f"VIOLATION property={self.pid} replay={path}")
        log("  " + str(data.get("message", ""))[:800])
        self.violated = True

    # ---- stages -------------------------------------------------------
    def build(self, st, profile="release", toolchain=None, rustflags=None, target=None, tdir=None, build_std=False):
        crate, b = st["crate"], st["bin"]
        env = build_env()
        cwd = HARNESS
        if crate == "vover":
            # crates above sunscreen_tfhe build through a tree of links into /repo
            cwd = os.path.join(ROOT, "overlay")
            sys.path.insert(0, cwd)
            import ov
            ov.make()
            env["CARGO_TARGET_DIR"] = os.path.join(os.environ["VERIF_TARGET_DIR"], "overlay") if "VERIF_TARGET_DIR" in os.environ else os.path.join(cwd, "target")
        if toolchain:
            env["RUSTUP_TOOLCHAIN"] = toolchain
        if rustflags:
            env["RUSTFLAGS"] = rustflags
        if tdir:
            env["CARGO_TARGET_DIR"] = os.path.join(env["CARGO_TARGET_DIR"], tdir)
        base = ["cargo", "build", "--offline", "-q", "--profile", profile, "-p", crate, "--bin", b]
        if build_std:
            base += ["-Zbuild-std"]
        if target:
            base += ["--target", target]
        tries = [["--features", "hooks"], []] if st.get("hooks") else [[]]
        out = ""
        for i, feat in enumerate(tries):
            rc, out = run_cmd(base + feat, env, cwd, st.get("build_timeout", 700))
            if rc == 0:
                if i == 1:
                    self.notes.append("hook build failed; ran without the feature verif-hooks")
                d = os.path.join(env["CARGO_TARGET_DIR"], target or "", profile if profile != "dev" else "debug")
                return os.path.join(d, b)
        raise Inconclusive(f"build of {crate}/{b} failed:\n" + out[-3000:])

    def native(self, st, name, exe, extra_env=None, timeout=None, sanitizer=None):
        out = os.path.join(self.scratch, f"{name}.json")
        jour = os.path.join(self.scratch, f"{name}.journal")
        env = dict(os.environ)
        env.update(VERIF_TIER=self.tier, VERIF_SEED=str(self.seed), VERIF_STAGE=name, VERIF_REPLAY_DIR=self.replays,
                   VERIF_KNOWN="\n".join(k["signature"] for k in self.known), VERIF_SCRATCH=self.scratch)
        env.update(st.get("env", {}))
        env.update(extra_env or {})
        if "budget" in st:
            env["VERIF_BUDGET_S"] = str(st["budget"][self.tier == "thorough"])
        timeout = timeout or (600 if self.tier == "quick" else 4000)
        args = [exe, "--out", out, "--journal", jour] + st.get("args", [])
        t0 = time.time()
        so = open(os.path.join(self.scratch, f"{name}.log"), "w+b")
        p = subprocess.Popen(args, env=env, stdout=so, stderr=subprocess.STDOUT, cwd=self.scratch, start_new_session=True)
        last, since_cpu, since_wall, why = None, 0.0, time.time(), None
        while True:
            try:
                p.wait(0.25 if time.time() - t0 < 20 else 2)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = read_journal(jour)
            cpu = proc_cpu(p.pid)
            if cpu is None:
                continue
            if cur != last or not cur:
                last, since_cpu, since_wall = cur, cpu, time.time()
            elif cpu - since_cpu > CPU_LIMIT * st.get("slow", 1):
                why = f"case does not terminate: {cpu - since_cpu:.0f} CPU seconds without finishing {cur}"
            elif time.time() - since_wall > IDLE_LIMIT and cpu - since_cpu < 1.0 and not any_running(p.pid):
                why = f"deadlock: every thread asleep for {IDLE_LIMIT:.0f} s in {cur}"
            if why or time.time() - t0 > timeout:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        rc = p.returncode
        so.seek(0)
        text = so.read().decode(errors="replace")
        if why:
            self.viol(name, dict(message=why, inflight=last))
            return
        if time.time() - t0 > timeout and rc == -9:
            raise Inconclusive(f"{name}: watchdog of {timeout} s fired")
        if sanitizer:
            m = re.search(r"(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|ERROR: LeakSanitizer)[\s\S]{0,3000}", text)
            if m:
                self.viol(name, dict(message=m.group(0), inflight=read_journal(jour)))
                return
        for line in text.splitlines():
            if line.startswith(("VIOLATION", "  ", "KNOWN-FINDING")):
                log(line)
        if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP):
            self.viol(name, dict(message=f"process died with {signal.Signals(-rc).name} while running {read_journal(jour)[:8]}: {text[-800:]}",
                                 inflight=read_journal(jour)))
            return
        if os.path.exists(out):
            self.stages.append(dict(kind=name, **json.load(open(out))))
        if rc == 1:
            self.violated = True
        elif rc != 0:
            raise Inconclusive(f"{name}: exit {rc}: {text[-1500:]}")

    def miri(self, st, name):
        seeds = st["seeds"][self.tier == "thorough"]
        flags = "-Zmiri-disable-isolation " + st.get("flags", "")
        if seeds > 1:
            s0 = (self.seed - 1) * seeds
            flags += f" -Zmiri-many-seeds={s0}..{s0 + seeds}"
        env = build_env({"RUSTUP_TOOLCHAIN": "nightly", "MIRIFLAGS": flags, "VERIF_SEED": str(self.seed), "VERBOSE": "1"})
        env.update(st.get("env", {}))
        if self.tier == "thorough":
            env.update(st.get("env_thorough", {}))
        env["CARGO_TARGET_DIR"] = os.path.join(env["CARGO_TARGET_DIR"], "miri-t")
        args = st["args"][self.tier == "thorough"]
        cmd = ["cargo", "miri", "run", "-q", "--offline", "-p", st["crate"], "--bin", st["bin"]]
        if st.get("hooks"):
            cmd += ["--features", "hooks"]
        t0 = time.time()
        timeout = st.get("timeout", (500, 3000))[self.tier == "thorough"]
        shards = st.get("shards", 1)
        if shards == 1:
            rc, text = run_cmd(cmd + ["--"] + args, env, HARNESS, timeout)
        else:
            # every shard takes its own part of the cases
            from concurrent.futures import ThreadPoolExecutor
            run_cmd(["cargo", "miri", "setup", "-q"], env, HARNESS, timeout)
            with ThreadPoolExecutor(shards) as ex:
                res = list(ex.map(lambda i: run_cmd(cmd + ["--"] + args, dict(env, VERIF_SHARD=str(i), VERIF_SEED=str(self.seed * 1000 + i)), HARNESS, timeout), range(shards)))
            bad = [r for r in res if r[0] != 0]
            rc, text = bad[0] if bad else (0, "\n".join(r[1] for r in res))
        obs = [l for l in text.splitlines() if re.match(r"^[a-z0-9 _-]+: \d", l)]
        secs = [dict(section=m[1].strip(), cases=int(m[2]), evaluations=int(m[3]), distinct=int(m[4])) for m in
                re.finditer(r"\[C\d\d\] (.+?) +cases +(\d+) evals +(\d+) distinct +(\d+)", text)]
        if rc == 0 and secs:
            self.stages.append(dict(kind=name, cases=sum(x["cases"] for x in secs), evaluations=sum(x["evaluations"] for x in secs), distinct=sum(x["distinct"] for x in secs),
                                    samples=[], sections=secs, wall_s=time.time() - t0, incomplete=[]))
            return
        if rc == 0:
            self.stages.append(dict(kind=name, cases=seeds, evaluations=max(seeds, len(obs)), distinct=len(set(obs)), samples=sorted(set(obs))[:8],
                                    sections=[dict(section="miri " + st["bin"], runs=seeds, reports=0, observed_lines=len(obs))], wall_s=time.time() - t0, incomplete=[]))
            return
        m = re.search(r"error: (Undefined Behavior|memory leaked)[\s\S]{0,2500}", text) or re.search(r"MONITOR:[^\n]*|VIOLATION property=[^\n]*\n[^\n]*", text)
        if not m:
            m = re.search(r"error: (abnormal termination|the evaluated program (aborted|deadlocked))[\s\S]{0,1500}", text)
        if m:
            self.viol(name, dict(message=m.group(0), command=" ".join(cmd + ["--"] + args), miriflags=flags))
        else:
            self.notes.append(f"stage {name} inconclusive (rc {rc}): {text[-600:]}")

    def run_stage(self, st):
        kind = st.get("kind", "native")
        name = st.get("name", kind)
        if kind == "native":
            self.native(st, name, self.build(st))
        elif kind == "checked":
            self.native(st, name, self.build(st, profile="checked"))
        elif kind == "tsan":
            exe = self.build(st, toolchain="nightly", target="x86_64-unknown-linux-gnu", tdir="tsan", profile="release", build_std=True,
                             rustflags="--cap-lints allow -Zsanitizer=thread --cfg crossbeam_sanitize_thread -Ctarget-feature=+avx2,+fma")
            sup = os.path.join(HARNESS, "tsan.supp")
            self.native(st, name, exe, {"TSAN_OPTIONS": f"halt_on_error=1 exitcode=66 suppressions={sup}"}, sanitizer="tsan")
        elif kind == "asan":
            exe = self.build(st, toolchain="nightly", target="x86_64-unknown-linux-gnu", tdir="asan", profile="release",
                             rustflags="--cap-lints allow -Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer -Ctarget-feature=+avx2,+fma")
            self.native(st, name, exe, {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1"}, sanitizer="asan")
        elif kind == "miri":
            self.miri(st, name)
        else:
            raise Inconclusive("unknown stage kind " + kind)

    def main(self, only_stage=None):
        t0 = time.time()
        primary_ok = False
        for st in self.cfg["stages"]:
            if self.tier == "quick" and st.get("thorough_only"):
                continue
            nm = st.get("name", st.get("kind", "native"))
            if only_stage and nm != only_stage:
                continue
            try:
                self.run_stage(st)
                if not st.get("extra") or only_stage:
                    primary_ok = True
            except Inconclusive as e:
                if st.get("extra"):
                    self.notes.append(f"stage {nm} inconclusive: {e}"[:1500])
                else:
                    log("INCONCLUSIVE:", e)
                    if not self.violated:
                        self.evidence(t0)
                        return 2
            if self.violated:
                break
        seen = set()
        for s in self.stages:
            seen |= set(s.get("known_seen", {}))
        self.evidence(t0)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for n in self.notes:
            log("note:", n[:400])
        if self.violated:
            return 1
        ev = sum(s.get("evaluations", 0) for s in self.stages)
        if not primary_ok or ev == 0:
            log("INCONCLUSIVE: nothing observed")
            return 2
        log(f"{self.pid} held: {sum(s.get('cases', 0) for s in self.stages)} cases, {ev} oracle evaluations, {time.time() - t0:.0f} s")
        return 0

    def evidence(self, t0):
        viol = sum(len(s.get("violations", [])) for s in self.stages)
        if self.violated and not viol:
            viol = 1
        samples = [x for s in self.stages for x in s.get("samples", [])][:40]
        cov = dict(
            evaluations=sum(s.get("evaluations", 0) for s in self.stages),
            distinct_nontrivial=sum(s.get("distinct", 0) for s in self.stages),
            rule=self.cfg["rule"],
            samples=samples,
            cases=sum(s.get("cases", 0) for s in self.stages),
            stages=[{k: s.get(k) for k in ("kind", "cases", "evaluations", "distinct", "sections", "wall_s", "incomplete")} for s in self.stages],
            incomplete=[x for s in self.stages for x in s.get("incomplete", [])],
            notes=self.notes,
        )
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                 assumptions=self.cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=viol)
        tmp = os.path.join(self.ev, f".{self.pid}.tmp")
        json.dump(d, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(self.ev, f"{self.pid}.json"))


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = a[1] if len(a) > 1 and a[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(pid, tier, seed)
    stage = a[a.index("--stage") + 1] if "--stage" in a else None
    if "--replay" in a:
        r = json.load(open(a[a.index("--replay") + 1]))
        c.seed, c.tier, stage = r["seed"], r["tier"], r["stage"]
        if "section" in r:
            for st in c.cfg["stages"]:
                if st.get("name", st.get("kind", "native")) == stage:
                    st["args"] = ["--section", r["section"], "--case", str(r["case"])]
    try:
        rc = c.main(stage)
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
