"""
A controlled scheduler for real threads.

Every thread runs the real code with ``sys.monitoring`` events on the functions
of petrofit; inside these it stops before each operation that can touch shared state (or before
each line) and goes on only when the scheduler says so.  A schedule is a list
of segments ``(thread, steps)``; after the last segment the remaining threads
run to completion one after the other.  Enumerating the segments enumerates
every interleaving with that number of preemptions.
"""
import dis
import gc
import os
import sys
import threading
import types

import petrofit

PKG = os.path.dirname(os.path.abspath(petrofit.__file__))
SHARED = {
    "LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "BINARY_SUBSCR", "STORE_SLICE", "LOAD_GLOBAL",
    "STORE_GLOBAL", "DELETE_GLOBAL", "CALL", "CALL_FUNCTION_EX", "BINARY_OP", "LOAD_SUPER_ATTR", "LOAD_DEREF", "STORE_DEREF", "FOR_ITER",
}
BLOCKED_S = 0.5  # a thread that makes no progress for this long waits for a lock of another thread

_points = {}


def points(code, grain):
    """Where to stop: "opcode" everything that can touch shared objects, "state" what does in Python: attributes of the object, items, in-place operations."""
    if (code, grain) not in _points:
        ins = [i for i in dis.get_instructions(code) if i.opname not in ("CACHE", "RESUME", "NOP", "EXTENDED_ARG")]
        hit = set()
        for k, i in enumerate(ins):
            if grain == "opcode":
                ok = i.opname in SHARED
            elif i.opname == "LOAD_ATTR":
                ok = k > 0 and ins[k - 1].argval in ("self", "cls")
            elif i.opname == "BINARY_OP":
                ok = i.argrepr.endswith("=")
            else:
                ok = i.opname in ("STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "BINARY_SUBSCR", "STORE_SLICE", "STORE_GLOBAL", "DELETE_GLOBAL", "LOAD_SUPER_ATTR", "STORE_DEREF")
            if ok:
                hit.add(i.offset)
        _points[(code, grain)] = hit
    return _points[(code, grain)]


class Sched:
    def __init__(self, tasks, segments, grain):
        self.tasks = tasks
        self.segments = list(segments)
        self.grain = grain
        self.cv = threading.Condition()
        self.turn = None
        self.left = 0
        self.state = ["new"] * len(tasks)  # new, paused, running, done
        self.steps = [0] * len(tasks)
        self.results = [None] * len(tasks)
        self.errors = [None] * len(tasks)
        self.used = []
        self.overran = False

    # -- in the threads
    def stop_here(self, k):
        if self.turn == k and self.left != 0:
            self.steps[k] += 1
            if self.left is not None:
                self.left -= 1
            return
        with self.cv:
            self.steps[k] += 1
            if self.turn == k:
                if self.left is None:
                    return
                if self.left > 0:
                    self.left -= 1
                    return
                self.turn = None
            self.state[k] = "paused"
            self.cv.notify_all()
            while self.turn != k:
                self.cv.wait()
            self.state[k] = "running"
            if self.left is not None:
                self.left -= 1

    def body(self, k):
        with self.cv:
            while self.turn != k:
                self.cv.wait()
            self.state[k] = "running"
        _current.who = (self, k)
        try:
            self.results[k] = self.tasks[k]()
        except BaseException as e:  # noqa
            self.errors[k] = e
        finally:
            _current.who = None
            with self.cv:
                self.state[k] = "done"
                if self.turn == k:
                    self.turn = None
                self.cv.notify_all()

    # -- in the controller
    def segment(self, k, steps):
        """Give the processor to thread k for some steps (None: until it ends)."""
        with self.cv:
            if self.state[k] == "done":
                return False
            self.left = steps
            self.turn = k
            self.cv.notify_all()
            seen = -1
            while self.turn == k and self.state[k] != "done":
                if not self.cv.wait(BLOCKED_S):
                    if self.steps[k] == seen:  # waits for somebody else
                        self.turn = None
                        return None
                    seen = self.steps[k]
            self.turn = None
            return self.state[k] != "done"

    def run(self):
        threads = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.tasks))]
        for th in threads:
            th.start()
        for k, n in self.segments:
            before = self.steps[k]
            if n != 0 and self.segment(k, n) is False and n is not None:
                self.overran = True  # the thread ended within its segment: not a new schedule
            self.used.append(self.steps[k] - before)
        for attempt in range(20):
            for k in range(len(self.tasks)):
                self.segment(k, None)
            if all(s == "done" for s in self.state):
                break
        else:
            raise TimeoutError("threads do not end: {}".format(self.state))
        for th in threads:
            th.join()
        return self


TOOL = sys.monitoring.DEBUGGER_ID
_current = threading.local()
_grain = None


def _at_instruction(code, offset):
    if offset not in points(code, _grain):
        return sys.monitoring.DISABLE
    who = getattr(_current, "who", None)
    if who is not None:
        who[0].stop_here(who[1])


def _at_line(code, line):
    who = getattr(_current, "who", None)
    if who is not None:
        who[0].stop_here(who[1])


def _codes():
    """Code of every function of petrofit, wherever it is referenced from."""
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(PKG)]
    seen = set()
    while todo:
        c = todo.pop()
        if c not in seen:
            seen.add(c)
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return seen


def _watch(grain):
    global _grain
    if grain == _grain:
        return
    mon = sys.monitoring
    if _grain is None:
        mon.use_tool_id(TOOL, "petrofit schedules")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _at_instruction)
        mon.register_callback(TOOL, mon.events.LINE, _at_line)
    _grain = grain
    for c in _codes():
        mon.set_local_events(TOOL, c, mon.events.LINE if grain == "line" else mon.events.INSTRUCTION)
    mon.restart_events()


def run(tasks, segments, grain="opcode"):
    _watch(grain)
    return Sched(tasks, segments, grain).run()
