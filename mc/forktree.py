"""Exhaustive exploration of operation histories where the state is the state
of a process: every node of the history tree is a forked copy of its parent, so
each operation runs on exactly the state its history produced."""

import json
import os
import signal

from mc.core import CASE_CPU_LIMIT, CaseTimeout, Violation, _alarm


def in_child(function):
    """Run function in a fork, return its JSON-able result."""
    return _collect(_start(function))


def in_children(functions):
    """The same for several functions at once."""
    return [_collect(child) for child in [_start(f) for f in functions]]


def _start(function):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(rfd)
            signal.signal(signal.SIGPROF, _alarm)
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
            try:
                data = {"ok": function()}
            except CaseTimeout:
                data = {"error": "no answer within the CPU bound"}
            except BaseException as exc:
                data = {"error": "%s: %s" % (type(exc).__name__, exc)}
            signal.setitimer(signal.ITIMER_PROF, 0)
            with os.fdopen(wfd, "w") as fh:
                json.dump(data, fh)
        finally:
            os._exit(0)
    os.close(wfd)
    return pid, rfd


def _collect(child):
    pid, rfd = child
    with os.fdopen(rfd) as fh:
        text = fh.read()
    os.waitpid(pid, 0)
    if not text:
        return {"error": "process died"}
    return json.loads(text)


def explore(history, names, depth, perform, limit=20):
    """Performs history's last operation (all earlier ones already happened in
    this process), then explores all extensions up to ``depth``.  Returns
    [nodes, violations, outcomes]."""
    nodes, violations, outcomes = 0, [], []
    if history:
        nodes = 1
        try:
            outcomes.append(perform(history[-1]))
        except Violation as exc:
            violations.append([history, str(exc)])
            return [nodes, violations, outcomes]
    if len(history) < depth:
        for name in names:
            res = in_child(
                lambda name=name: explore(history + [name], names, depth, perform)
            )
            if "error" in res:
                violations.append([history + [name], res["error"]])
                nodes += 1
            else:
                nodes += res["ok"][0]
                violations.extend(res["ok"][1])
                outcomes.extend(o for o in res["ok"][2] if o not in outcomes)
            if len(violations) >= limit:
                break
    return [nodes, violations, outcomes]
