#!/usr/bin/env python3
"""drive.py ID OUT [--replay FILE | --build]: random cases of property ID inside Miri.

Adds to OUT/evidence/ID.json what it ran. Exit 1 and a VIOLATION line if a case failed; what Miri cannot
decide (not installed, an unsupported operation, out of time) is a NOTE.
"""
import concurrent.futures as cf, json, os, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.realpath(__file__))
# property: engine, cases (quick, thorough), cases per process, bits that make a case non-trivial
PLAN = {
    "C12": ("buffer", (1600, 40_000), 10, 1),
    "C15": ("text", (3000, 60_000), 30, 4),
    "C16": ("writer", (2000, 40_000), 20, 4),
    "C17": ("notify", (1600, 40_000), 10, 1),
    "C18": ("stream", (2000, 50_000), 10, 1),
    "C19": ("vector", (5000, 100_000), 50, 4),
    "C22": ("parse", (1600, 40_000), 10, 1),
    "C23": ("leave", (1600, 40_000), 10, 1),
}
RULE = {
    "buffer": "a thread loads and commits, another looks and skips, both brought to chosen steps of each other; looked at before everything was there",
    "leave": "reads, skips and parses given up after some polls while another thread loads, commits and signals; a poll was pending",
    "text": "valid and invalid text in pieces through the validator; more than two pieces",
    "writer": "a source writing, taking back and overwriting items through the loader's writer, refused or kept; at least two loads",
    "notify": "threads that create, poll and await waits while others send; a wait was pending",
    "stream": "a thread loads, commits and signals, another reads and skips, both brought to chosen steps of each other; the reader had to wait",
    "parse": "a thread loads, commits and signals, another parses; the reader had to wait",
    "vector": "histories of a small vector; more than five operations",
}
FLAGS = "-Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-preemption-rate=0.05"
M = (1 << 64) - 1


def choices(state, n):
    """the list the program drew (its generator, again)"""
    out = []
    for _ in range(n):
        state ^= state << 13 & M
        state ^= state >> 7
        state ^= state << 17 & M
        out.append(((state * 0x2545F4914F6CDD1D & M) >> 20 & 0xFFFFFFFF) % 60)
    return out


def run(seed, args, limit):
    env = dict(os.environ, MIRIFLAGS=f"{FLAGS} -Zmiri-seed={seed}")
    # a process group, since cargo starts the interpreter
    p = subprocess.Popen(
        ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", *args],
        cwd=HERE, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True,
    )
    try:
        err = p.communicate(timeout=limit)[1]
        return p.returncode, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        return None, p.communicate()[1]


def judge(rc, err):
    """None: passed; (True, what): failed; (False, why): undecided"""
    if rc == 0:
        return None
    if rc is None:
        return False, "out of time"
    for line in err.splitlines():
        if "unsupported operation" in line or "resource exhaustion" in line or "can't call foreign function" in line:
            return False, line.strip()
    lines = err.splitlines()
    for i, line in enumerate(lines):
        if "error: Undefined Behavior" in line or "deadlock" in line or "error: memory leaked" in line:
            inside = [x.strip() for x in lines if "/repo/crates/" in x][:1]
            return True, " ".join([x.strip() for x in lines[i : i + 2]] + inside)
        if line.startswith("thread ") and " panicked at " in line:
            return True, " ".join(x.strip() for x in lines[i : i + 4] if not x.startswith("note:"))
    return False, (lines or ["no output"])[-1]


def cases_of(err):
    """(list, bits or None) of each case that was begun"""
    out = []
    for line in err.splitlines():
        w = line.split()
        if w[:1] == ["CASE"] and len(w) == 3:
            out.append([choices(int(w[1]), int(w[2])), None])
        elif w[:1] == ["DONE"] and out and len(w) == 2:
            out[-1][1] = int(w[1])
    return out


def fails(pool, engine, case, seeds, deadline):
    """the first of the seeds under which the case fails"""
    arg = ",".join(map(str, case)) or ","
    fs = {s: pool.submit(run, s, [engine, "case", arg], 60) for s in seeds if time.time() < deadline}
    found = None
    for s, f in fs.items():
        if found:
            f.cancel()
        elif (j := judge(*f.result())) and j[0]:
            found = s, j[1]
    return found


def shrink(pool, engine, case, limit):
    deadline = time.time() + limit
    best = fails(pool, engine, case, range(48), deadline)
    if not best:
        return None
    def attempt(c):
        nonlocal case, best
        while c and c[-1] == 0:
            c = c[:-1]
        if c == case or time.time() > deadline:
            return False
        f = fails(pool, engine, c, [best[0], *range(1000, 1023)], deadline)
        if f:
            case, best = c, f
        return bool(f)
    k = len(case) // 2
    while k >= 1 and time.time() < deadline:
        if not attempt(case[:-k]):
            k //= 2
    for i in range(len(case)):
        for v in (0, 1, case[i] // 2 if i < len(case) else 0):
            if i < len(case) and v < case[i] and attempt(case[:i] + [v] + case[i + 1 :]):
                break
    return case, best


def main():
    ident, out = sys.argv[1], sys.argv[2]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    started = time.time()
    if sys.argv[3:4] == ["--replay"]:
        r = json.load(open(sys.argv[4]))
        args = [r["engine"], "case", ",".join(map(str, r["case"])) or ","] if "case" in r else [r["engine"], str(r["cases"])]
        j = judge(*run(r["miri_seed"], args, 600))
        if j and j[0]:
            print(j[1])
            print(f"VIOLATION property={ident} replay={sys.argv[4]}")
            return 1
        print(f"replay passes: {sys.argv[4]}" + (f" (undecided: {j[1]})" if j else ""))
        return 0
    engine, counts, per, bits = PLAN[ident]
    try:
        rc, err = run(0, [engine, "0"], 600)
    except OSError as e:
        rc, err = 1, str(e)
    if rc != 0:
        print(f"NOTE: not run in the interpreter: {(err.strip().splitlines() or ['no output'])[-1]}")
        return 0
    if sys.argv[3:4] == ["--build"]:
        return 0
    total = counts[tier == "thorough"]
    budget = 5000 if tier == "thorough" else 360
    ran, distinct, undecided, failure, meanwhile = 0, set(), {}, None, 0
    samples = []
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        def one(k):
            if failure or time.time() - started > budget:
                return None
            s = (seed * 1_000_003 + k) & 0xFFFFFFFF
            return s, *run(s, [engine, str(per)], 240)
        for r in pool.map(one, range(total // per)):
            if r is None:
                continue
            s, rc, err = r
            done = cases_of(err)
            for c, b in done:
                ran += 1
                if b is not None and b & bits:
                    distinct.add(tuple(c))
                    meanwhile += bool(b & 2)
                    if len(samples) < 2:
                        samples.append(f"interpreter seed {s}, choices {c}")
            j = judge(rc, err)
            if j and j[0] and not failure:
                failure = s, j[1], done[-1][0] if done else []
            elif j and not j[0]:
                undecided[j[1]] = undecided.get(j[1], 0) + 1
        replay = None
        if failure:
            s, what, case = failure
            replay = {"property": ident, "engine": engine, "miri_seed": s, "cases": per, "message": what}
            small = shrink(pool, engine, case, 90)
            if small:
                del replay["cases"]
                replay.update(case=small[0], miri_seed=small[1][0], message=small[1][1])
    for why, n in undecided.items():
        print(f"NOTE: {n} of the interpreter's runs decided nothing: {why}")
    if time.time() - started > budget and not failure:
        print(f"NOTE: the interpreter's runs were cut short after {budget} s")
    path = os.path.join(out, "evidence", f"{ident}.json")
    try:
        e = json.load(open(path))
        cov = e["coverage"]
        cov["interpreted"] = {
            "interpreter": "Miri: random thread schedules, weak memory, invalid accesses, data races, deadlocks",
            "evaluations": ran,
            "distinct_nontrivial": len(distinct),
            "rule": RULE[engine],
            "undecided": sum(undecided.values()),
            "samples": samples,
        }
        if meanwhile:
            cov["interpreted"]["the producer went on inside a poll of the reader"] = meanwhile
        cov["evaluations"] += ran
        cov["distinct_nontrivial"] += len(distinct)
        cov["rule"] += ". In the interpreter: " + RULE[engine]
        e["wall_s"] += time.time() - started
        if failure:
            e["violations"] = e.get("violations", 0) + 1
        json.dump(e, open(path, "w"), indent=1, sort_keys=True, ensure_ascii=False)
    except (OSError, KeyError, ValueError) as x:
        print(f"NOTE: evidence not extended: {x}")
    print(f"interpreted: {ran} cases, {len(distinct)} distinct non-trivial, {time.time() - started:.0f} s")
    if failure:
        os.makedirs(os.path.join(out, "replays"), exist_ok=True)
        f = os.path.join(out, "replays", f"{ident}-interpreted-{replay['miri_seed']}.json")
        json.dump(replay, open(f, "w"), indent=1)
        print(replay["message"])
        print(f"VIOLATION property={ident} replay={f}")
        return 1
    return 0


sys.exit(main())
