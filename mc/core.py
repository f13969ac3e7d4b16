"""Explicit-state / stateless exploration core.

A *space* is a bounded, finite set of executions.  It is described either by a
scenario (a function making nondeterministic choices through ``Chooser.pick``;
the explorer drives it depth first through every choice sequence) or by an
explicit generator of cases.  Every complete choice sequence ("trace") is
replayed against the real code by ``space.run`` which returns a short outcome
string, or raises Violation.

Nothing here is random: the order of exploration is a function of the code of
the space only, VERIF_SEED is recorded in the evidence and otherwise unused.
"""

import hashlib
import json
import logging
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "60"))
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The property does not hold on this execution."""


class CaseTimeout(BaseException):
    """Exceeded the CPU bound of one execution."""


class Divergence(Exception):
    """A replayed prefix met another choice point: harness error."""


class Chooser:
    """Resolves the choices of one run of a scenario."""

    def __init__(self, prefix, budget=None):
        self.prefix = prefix
        self.points = []  # (label, number of options, chosen index, cost)
        self.labels = []
        self.budget = budget

    def pick(self, label, options, free=True):
        """All options are explored.  When ``free`` is False, every option but
        the first is a deviation, and the number of deviations is bounded."""
        options = list(options)
        idx = len(self.points)
        choice = self.prefix[idx] if idx < len(self.prefix) else 0
        if choice >= len(options):
            raise Divergence("%s: %r" % (label, self.prefix))
        self.points.append((len(options), choice, not free))
        value = options[choice]
        self.labels.append("%s=%s" % (label, short(value)))
        return value

    def flag(self, label):
        return self.pick(label, [False, True])


def short(value, size=60):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= size else text[: size - 3] + "..."


class Skip(Exception):
    """This choice sequence is not a member of the space."""


def explore(scenario, bound=None):
    """Depth-first over all choice sequences with at most ``bound`` deviations.

    Yields (labels, payload) of each complete sequence.  ``explore.stats`` like
    counters are kept in the yielded generator's ``stats`` dict argument.
    """
    prefix = []
    while True:
        chooser = Chooser(prefix)
        try:
            payload = scenario(chooser)
            yield chooser, payload
        except Skip:
            yield chooser, None
        # next sequence in lexicographic order
        points = chooser.points
        k = len(points) - 1
        nxt = None
        while k >= 0:
            count, choice, dev = points[k]
            if choice + 1 < count:
                used = sum(1 for (c, ch, d) in points[:k] if d and ch)
                if not dev or bound is None or used + 1 <= bound:
                    nxt = [p[1] for p in points[:k]] + [choice + 1]
                    break
            k -= 1
        if nxt is None:
            return
        prefix = nxt


class Space:
    """A scenario-based space: cases are derived from choices only."""

    bound = None
    rule = ""

    def __init__(self, name, scenario, run, bound=None, rule="", setup=None):
        self.name = name
        self.scenario = scenario
        self.run = run
        self.bound = bound
        self.rule = rule
        self.setup = setup

    def cases(self):
        """Yields (case id, labels, payload, new states, new transitions)"""
        previous = []
        seen = set()
        number = 0
        for chooser, payload in explore(self.scenario, self.bound):
            path = [p[1] for p in chooser.points]
            common = 0
            while (
                common < len(previous)
                and common < len(path)
                and previous[common] == path[common]
            ):
                common += 1
            # nodes of the choice tree first reached on this sequence
            new = len(path) - common + (1 if not number else 0)
            previous = path
            number += 1
            if payload is None:
                yield None, None, None, new, new
                continue
            key = hashlib.blake2b(
                json.dumps(payload, sort_keys=True, default=repr).encode(
                    "utf-8", "surrogatepass"
                ),
                digest_size=12,
            ).digest()
            if key in seen:
                yield None, None, None, new, new
                continue
            seen.add(key)
            yield path, chooser.labels, payload, new, new

    def payload_for(self, path):
        chooser = Chooser(list(path))
        return self.scenario(chooser), chooser.labels


class ListSpace(Space):
    """An explicit finite list of cases (for tables such as the shipped KBs)"""

    def __init__(self, name, items, run, rule="", setup=None):
        self.name = name
        self.items = items
        self.run = run
        self.rule = rule
        self.setup = setup

    def cases(self):
        items = self.items() if callable(self.items) else self.items
        for idx, payload in enumerate(items):
            yield [idx], ["case=%d" % idx], payload, 1, 1

    def payload_for(self, path):
        items = self.items() if callable(self.items) else self.items
        for idx, payload in enumerate(items):
            if idx == path[0]:
                return payload, ["case=%d" % idx]
        raise Divergence("no case %r" % path)


class SelfDriven:
    """A space whose exploration is driven by itself (threads, faults).

    ``parts`` returns independent sub-explorations; ``explore_part(part,
    report)`` runs one and calls report(path, labels, payload, outcome,
    violation message or None, new states, new transitions).
    """

    def __init__(self, name, parts, explore_part, replay, rule="", setup=None):
        self.name = name
        self.parts = parts
        self.explore_part = explore_part
        self.replay = replay
        self.rule = rule
        self.setup = setup


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(space, payload):
    """(outcome, violation message or None)"""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        try:
            return space.run(payload), None
        except Violation as exc:
            return "violation", str(exc)
        except CaseTimeout:
            return "timeout", "no answer within %g s of CPU time" % CASE_CPU_LIMIT
        except Exception as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            where = "; ".join(
                "%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-3:]
            )
            return (
                "exception",
                "unexpected %s: %s (%s)" % (type(exc).__name__, exc, where),
            )
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except CaseTimeout:  # raced with the return
        return "timeout", "no answer within %g s of CPU time" % CASE_CPU_LIMIT


MAX_VIOLATIONS = int(os.environ.get("VERIF_MAX", "5"))


def _empty():
    return {
        "states": 0,
        "transitions": 0,
        "traces": 0,
        "outcomes": set(),
        "samples": [],
        "violations": [],
        "capped": False,
    }


def _work(space, worker, workers, deadline):
    res = _empty()

    def record(path, labels, payload, outcome, message):
        res["traces"] += 1
        if len(res["outcomes"]) < 200000:
            res["outcomes"].add(
                hashlib.blake2b(
                    str(outcome).encode("utf-8", "surrogatepass"), digest_size=8
                ).digest()
            )
        if len(res["samples"]) < 2:
            res["samples"].append(
                {
                    "space": space.name,
                    "trace": labels,
                    "input": short(json.dumps(payload, default=repr), 400),
                    "outcome": short(str(outcome), 300),
                }
            )
        if message is not None:
            res["violations"].append(
                {
                    "space": space.name,
                    "path": path,
                    "trace": labels,
                    "payload": payload,
                    "message": message,
                }
            )
        return len(res["violations"]) < MAX_VIOLATIONS * 20

    if isinstance(space, SelfDriven):
        for idx, part in enumerate(space.parts):
            if idx % workers != worker:
                continue
            st = {"stop": False}

            def report(path, labels, payload, outcome, message, states, trans):
                res["states"] += states
                res["transitions"] += trans
                if not record(path, labels, payload, outcome, message):
                    st["stop"] = True
                return not st["stop"]

            space.explore_part(part, report)
            if st["stop"]:
                break
        return res

    number = 0
    for path, labels, payload, states, trans in space.cases():
        if worker == 0:
            res["states"] += states
            res["transitions"] += trans
        if path is None:
            continue
        number += 1
        if number % workers != worker:
            continue
        if deadline and time.time() > deadline:
            res["capped"] = True
            break
        outcome, message = run_case(space, payload)
        if not record(path, labels, payload, outcome, message):
            break
    return res


def _worker(space, worker, workers, conn, deadline):
    try:
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(devnull, 2)
            result = _work(space, worker, workers, deadline)
        except BaseException as exc:
            result = {"error": "".join(traceback.format_exception(exc))}
        conn.send(result)
        conn.close()
    finally:
        os._exit(0)


def run_space(space, workers=None, deadline=None):
    workers = workers or WORKERS
    if isinstance(space, SelfDriven):
        workers = max(1, min(workers, len(space.parts)))
    if space.setup:
        space.setup()
    ctx = multiprocessing.get_context("fork")
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for worker in range(workers):
        parent, child = ctx.Pipe(False)
        proc = ctx.Process(
            target=_worker, args=(space, worker, workers, child, deadline)
        )
        proc.start()
        child.close()
        procs.append((proc, parent))
    total = _empty()
    for proc, conn in procs:
        try:
            res = conn.recv()
        except EOFError:
            res = {"error": "worker process died (exit %s)" % proc.exitcode}
        proc.join()
        if "error" in res:
            total["violations"].append(
                {
                    "space": space.name,
                    "path": None,
                    "trace": [],
                    "payload": None,
                    "message": "exploration aborted: " + res["error"],
                }
            )
            continue
        for key in ("states", "transitions", "traces"):
            total[key] += res[key]
        total["outcomes"] |= res["outcomes"]
        total["samples"].extend(res["samples"])
        total["violations"].extend(res["violations"])
        total["capped"] |= res["capped"]
    return total


def known_findings(prop):
    found = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("{"):
                    entry = json.loads(line)
                    if entry.get("property") == prop and entry.get("status") == "open":
                        found.append(entry)
    return found


def is_known(entry, violation):
    return entry["space"] == violation["space"] and entry["payload"] == json.loads(
        json.dumps(violation["payload"], default=repr)
    )


def run_check(module, tier):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    start = time.time()
    prop = module.PROPERTY
    known = known_findings(prop)
    total = _empty()
    per_space = {}
    only = os.environ.get("VERIF_SPACE")
    for space in module.spaces(tier):
        if only and space.name != only:
            continue
        t0 = time.time()
        res = run_space(space, getattr(module, "WORKERS", None))
        per_space[space.name] = {
            "rule": space.rule,
            "states": res["states"],
            "transitions": res["transitions"],
            "traces": res["traces"],
            "distinct_outcomes": len(res["outcomes"]),
            "wall_s": round(time.time() - t0, 2),
        }
        for key in ("states", "transitions", "traces"):
            total[key] += res[key]
        total["outcomes"] |= {space.name.encode() + o for o in res["outcomes"]}
        total["samples"].extend(res["samples"][:3])
        total["violations"].extend(res["violations"])
        if len(total["violations"]) >= MAX_VIOLATIONS * 4:
            break
    seen_known = []
    new = []
    for violation in total["violations"]:
        for entry in known:
            if is_known(entry, violation):
                if entry not in seen_known:
                    seen_known.append(entry)
                break
        else:
            new.append(violation)
    level = module.LEVEL
    coverage = {
        "samples": total["samples"][:12],
        "exhaustive": not new,
        "distinct_outcomes": len(total["outcomes"]),
        "spaces": per_space,
        "bounds": getattr(module, "BOUNDS", {}).get(tier, ""),
    }
    if level == "model_checking":
        coverage.update(
            states=total["states"],
            transitions=total["transitions"],
            traces_validated_against_impl=total["traces"],
        )
    else:
        coverage.update(
            evaluations=total["traces"],
            distinct_nontrivial=len(total["outcomes"]),
            rule=getattr(module, "RULE", "; ".join(s["rule"] for s in per_space.values())),
            states=total["states"],
            transitions=total["transitions"],
        )
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=repr)
    for name, info in per_space.items():
        print(
            "%s %s: states=%d transitions=%d traces=%d outcomes=%d (%.1fs)"
            % (
                prop,
                name,
                info["states"],
                info["transitions"],
                info["traces"],
                info["distinct_outcomes"],
                info["wall_s"],
            )
        )
    for entry in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, entry["what"]))
    if new:
        directory = os.path.join(VERIF, "replays")
        os.makedirs(directory, exist_ok=True)
        new.sort(key=lambda v: (len(json.dumps(v["payload"], default=repr)), v["space"]))
        path = os.path.join(directory, "%s.json" % prop)
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": prop,
                    "tier": tier,
                    "violations": new[:MAX_VIOLATIONS],
                    "total": len(new),
                    "how": "cd /verif && ./check replay replays/%s.json" % prop,
                },
                fh,
                indent=1,
                default=repr,
            )
        for violation in new[:MAX_VIOLATIONS]:
            print("  [%s] %s" % (violation["space"], " ".join(violation["trace"])))
            print("     payload: %s" % short(json.dumps(violation["payload"], default=repr), 600))
            print("     %s" % short(violation["message"], 1500))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if total["traces"] == 0:
        print("VIOLATION property=%s replay=none (nothing was explored)" % prop)
        return 1
    print("OK property=%s traces=%d wall=%.1fs" % (prop, total["traces"], time.time() - start))
    return 0


def replay(module, violation):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    for tier in ("quick", "thorough"):
        for space in module.spaces(tier):
            if space.name != violation["space"]:
                continue
            if space.setup:
                space.setup()
            if isinstance(space, SelfDriven):
                return space.replay(violation)
            return run_case(space, violation["payload"])
    raise SystemExit("no space %s" % violation["space"])
