#!/usr/bin/env python3
"""check.py ID             decide one property on /repo's working tree
check.py replay FILE      run a recorded failure again
check.py setup            build every configuration

The environment has VERIF_SEED and VERIF_TIER (quick or thorough).
"""
import hashlib, json, os, re, resource, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")

CONFIGS = {
    "default": [],
    "none": ["--no-default-features"],
    "mime": ["--no-default-features", "--features", "mime"],
    "lang": ["--no-default-features", "--features", "lang"],
    "full": ["--no-default-features", "--features", "full"],
}
# Configurations that are searched in the quick tier, all others in the default one
QUICK = {
    **{p: ["default", "full"] for p in ["C01", "C04", "C06", "C07", "C12", "C17", "C24"]},
    "C22": ["full"],
    "C23": ["default", "full"],
    "C29": ["full"],
    "C30": ["default", "full"],
    "C31": ["default", "full"],
    "C36": ["full"],
}
THOROUGH = {"C22": ["full"], "C32": ["default", "full"], "C36": ["full"], "C23": ["default", "full"], "C29": ["full"]}
# Builds that are asked by the one that searches
PEERS = {"C29": list(CONFIGS)}
ASSUMPTIONS = [
    "the generators reach the kinds of input on which the property can fail (classes and samples are reported)",
    "the reference model, renderer and reader in /verif/harness/src (model, render, reader, dates) are right",
    "rustc, the standard library and the dependencies of vcard4 behave as documented",
]


def fail(msg):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(2)


def tree_stamp():
    """Content of the sources, so that a build never uses those of another tree."""
    h = hashlib.sha256()
    files = [os.path.join(REPO, n) for n in ("Cargo.toml", "build.rs")]
    for base, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(base, n) for n in sorted(names)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as r:
                h.update(r.read() + b"\0")
    return h.hexdigest()


def cargo(args, target, cwd):
    env = {**os.environ, "CARGO_TARGET_DIR": target, "CARGO_NET_OFFLINE": "true"}
    env.pop("RUSTFLAGS", None)
    return subprocess.run(["cargo", *args], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace")


def build(config):
    """Build the harness (or the probe that is not optimised) against /repo, and return the program."""
    target = os.path.join(BUILD, config)
    os.makedirs(target, exist_ok=True)
    cwd = os.path.join(HARNESS, "probe0") if config == "probe0" else HARNESS
    profile = [] if config == "probe0" else ["--profile", "pbt"]
    program = os.path.join(target, "debug/probe0" if config == "probe0" else "pbt/harness")
    stamp_file, stamp = os.path.join(target, "stamp"), tree_stamp()
    old = open(stamp_file).read() if os.path.exists(stamp_file) else None
    if old not in (None, stamp):
        cargo(["clean", "--offline", *profile, "-p", "vcard4"], target, cwd)
    if old != stamp and os.path.exists(stamp_file):
        os.remove(stamp_file)
    r = cargo(["build", "--offline", "--locked", *profile, *CONFIGS.get(config, [])], target, cwd)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        fail(f"the {config} configuration does not build")
    with open(stamp_file, "w") as f:
        f.write(stamp)
    return program


def build_all(configs):
    with ThreadPoolExecutor(3) as ex:
        return dict(zip(configs, ex.map(build, configs)))


def limits():
    # An allocation that never ends fails in the process, it does not take the machine
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def call(cmd, timeout, env=None):
    """(exit code, output); the code is None when the time is over."""
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, env=env, preexec_fn=limits)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def known_findings(prop):
    """Entries of KNOWN_FINDINGS.txt: 'known: property=ID key=... what fails'."""
    found = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m[1] == prop:
                found[m[2]] = m[3].strip()
    return found


class Check:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.violations, self.reports, self.known = [], [], []
        self.env = dict(os.environ)

    def record(self, data, name):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{self.prop}-{name}.json")
        with open(path, "w") as f:
            json.dump(data, f, indent=1, ensure_ascii=False)
        self.violations.append((path, data))

    def search(self, config, program):
        work = os.path.join(BUILD, f"run-{self.prop}-{os.getpid()}")
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        try:
            self.search_in(work, config, program)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def search_in(self, work, config, program):
        out = os.path.join(work, "out.json")
        cmd = [program, "run", self.prop, "--seed", str(self.seed), "--tier", self.tier, "--out", out, "--trace", work]
        if os.environ.get("HARNESS_SCALE"):
            cmd += ["--scale", os.environ["HARNESS_SCALE"]]
        rc, text = call(cmd, 20 * 3600 if self.tier == "thorough" else 700, self.env)
        if rc == 0 or rc == 1 and os.path.exists(out):
            report = json.load(open(out))
            report["config"] = config
            self.reports.append(report)
            v = report["violation"]
            if v:
                v["config"] = config
                self.record(v, f"{config}-{self.seed}-{v['index']}")
            return
        if rc in (2, 3, 5, 6):
            print(text[-3000:])
            fail(f"harness ends with {rc} ({config})")
        # Died, or a case does not end: find the case, alone in a process
        cases = []
        for n in sorted(os.listdir(work)):
            if n.isdigit():
                b = open(os.path.join(work, n), "rb").read()
                if len(b) == 8:
                    cases.append(struct.unpack("<Q", b)[0])
        for index in sorted(cases):
            file = os.path.join(work, "input")
            codes = []
            for _ in range(2):
                c, t = call([program, "one", self.prop, "--seed", str(self.seed), "--index", str(index), "--input",
                             file], 90, self.env)
                codes.append(c)
                if c == 0:
                    break
            if all(c is None or c < 0 for c in codes) or all(c == 1 for c in codes):
                what = "does not end" if codes[0] is None else f"ends the process (signal {-codes[0]})"
                if codes[0] == 1:
                    what = t.strip()
                text = open(file, errors="replace").read() if os.path.exists(file) else ""
                self.reports.append({"config": config, "cases": min(cases) + 1, "distinct_nontrivial": 0,
                                     "rule": "ended by a case that ends the process", "samples": [text[:600]],
                                     "classes": {}})
                self.record({"id": self.prop, "config": config, "seed": self.seed, "index": index, "tape": None,
                             "message": f"case {index} {what}", "input": text}, f"{config}-{self.seed}-{index}")
                return
        print(text[-3000:])
        fail(f"harness ends with {rc} ({config}) and no case of {cases} does so alone")

    def probe(self, program):
        """C12: long elements in a build that is not optimised, where recursion shows."""
        total = 6000 if self.tier == "thorough" else 600
        step = 25
        known = known_findings("C12")

        def part(lo):
            i, dead, lines, done = lo, [], [], 0
            while i < lo + step:
                rc, text = call([program, str(self.seed), str(i), str(lo + step)], 300)
                cases = [l for l in text.splitlines() if l.startswith("CASE ")]
                lines += cases
                done += sum(int(l.split()[1]) for l in text.splitlines() if l.startswith("DONE "))
                if rc == 0:
                    break
                if not cases:
                    fail(f"probe0 ends with {rc}: {text[-800:]}")
                dead.append((cases[-1], rc, text[-400:]))
                i = int(cases[-1].split()[1]) + 1
            return dead, lines, done

        with ThreadPoolExecutor(8) as ex:
            parts = list(ex.map(part, range(0, total, step)))
        lines = [l for p in parts for l in p[1]]
        for line, rc, text in [d for p in parts for d in p[0]]:
            m = re.match(r"CASE (\d+) (.*?): .*run (\d+)$", line)
            key = "opt0-long-name"
            if key in known and rc == -6 and "overflowed its stack" in text and int(m[3]) >= 10000 \
                    and m[2] in ("name", "group", "parameter name", "between"):
                self.known.append(key)
                continue
            self.record({"id": "C12", "config": "probe0", "seed": self.seed, "index": int(m[1]), "tape": None,
                         "message": f"{line}: unoptimised build ends with {rc}: {text}", "input": line},
                        f"probe0-{self.seed}-{m[1]}")
        for key in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property=C12 {known[key]} ({self.known.count(key)} of {len(lines)} cases)")
        self.reports.append({
            "config": "probe0 (not optimised)", "cases": len(lines), "distinct_nontrivial": len(set(lines)),
            "rule": "texts with one element of 1,000 to 256,000 bytes in every place of a card, parsed, printed and "
                    "iterated by a build that is not optimised with the 8 MB stack of a main thread",
            "samples": lines[:3], "classes": {"parsed cards": sum(p[2] for p in parts)},
        })

    def run(self):
        start = time.time()
        configs = QUICK.get(self.prop, ["default"])
        if self.tier == "thorough":
            configs = THOROUGH.get(self.prop, list(c for c in CONFIGS))
        wanted = list(dict.fromkeys(configs + PEERS.get(self.prop, []) + (["probe0"] if self.prop == "C12" else [])))
        programs = build_all(wanted)
        if self.prop in PEERS:
            self.env["HARNESS_PEERS"] = ";".join(f"{c}={programs[c]}" for c in PEERS[self.prop])
        built = time.time() - start
        for config in configs:
            self.search(config, programs[config])
            if self.violations:
                break
        if self.prop == "C12" and not self.violations:
            self.probe(programs["probe0"])
        self.evidence(time.time() - start, built)
        for path, data in self.violations:
            print(f"{data.get('message', '')}"[:3000])
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        if self.violations:
            return 1
        n = sum(r["cases"] for r in self.reports)
        print(f"{self.prop}: held on {n} cases, {time.time() - start:.0f} s ({built:.0f} s of them building)")
        return 0

    def evidence(self, wall, built):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rs = self.reports
        data = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(r["cases"] for r in rs),
                "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in rs),
                "rule": " | ".join(dict.fromkeys(r["rule"] for r in rs)),
                "samples": [s for r in rs for s in r["samples"]][:12],
                "configurations": [
                    {"features": r.get("features", []), "name": r["config"], "cases": r["cases"],
                     "distinct_nontrivial": r["distinct_nontrivial"],
                     **({"results_examined": r["evaluations"]} if r.get("evaluations", r["cases"]) != r["cases"] else {}),
                     "cases_by_class": r["classes"]} for r in rs],
                "build_s": round(built, 1),
                "known_findings_seen": len(self.known),
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(data, f, indent=1, ensure_ascii=False)
        os.replace(path + ".tmp", path)


def replay(path):
    data = json.load(open(path))
    config = data["config"]
    program = build(config)
    if config == "probe0":
        i = data["index"]
        rc, text = call([program, str(data["seed"]), str(i), str(i + 1)], 300)
    else:
        env = dict(os.environ)
        if data["id"] in PEERS:
            programs = build_all(PEERS[data["id"]])
            env["HARNESS_PEERS"] = ";".join(f"{c}={p}" for c, p in programs.items())
        rc, text = call([program, "replay", path], 120, env)
    print(text)
    if rc == 0:
        print("not reproduced: the property holds for the recorded case")
        return 0
    print(f"VIOLATION property={data['id']} replay={path}")
    return 1


def main():
    if sys.argv[1:] == ["setup"]:
        build_all([*CONFIGS, "probe0"])
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(os.path.abspath(sys.argv[2]))
    if len(sys.argv) != 2 or not re.fullmatch(r"C\d\d", sys.argv[1]):
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    # Any seed is a number of 64 bits
    seed = os.environ.get("VERIF_SEED", "1")
    seed = int(seed) % (1 << 63) if re.fullmatch(r"-?\d+", seed) else \
        int.from_bytes(hashlib.sha256(seed.encode()).digest()[:7], "big")
    return Check(sys.argv[1], seed, "thorough" if tier == "thorough" else "quick").run()


sys.exit(main())
