"""Controlled scheduler for the real code: two Python threads, one running at a time, switched only at traced lines of
the package's own source files.  A schedule is (first thread, list of switch points): the running thread executes that
many traced events and then hands over; without a further switch point a thread runs to completion and the other one
continues.  Blocking on a real lock held by the paused thread is detected by lack of progress and hands control back
(so correct locking is not reported); if neither progresses it is a deadlock."""
import ast, os, sys, threading, time
from . import core

STALL = 1.5
HANG = 40.0


class Deadlock(Exception):
    pass


_stmts = {}


def statements(fn):
    """first lines of the statements of a source file"""
    r = _stmts.get(fn)
    if r is None:
        with open(fn, "rb") as fh:
            r = _stmts[fn] = {n.lineno for n in ast.walk(ast.parse(fh.read())) if isinstance(n, ast.stmt)}
    return r


def run(fs, first, switches, opcodes=False, log=None):
    """fs: two callables. -> ([result or exception] * 2, events per thread, switched as asked?)"""
    src = os.path.realpath(core.SRC) + os.sep
    sem = [threading.Semaphore(0), threading.Semaphore(0)]
    done = [False, False]
    count = [0, 0]
    res = [None, None]
    plan = list(switches)
    quota = [None, None]
    state = {"left": plan.pop(0) if plan else None, "taken": 0}
    inside = {}

    def ours(fn):
        r = inside.get(fn)
        if r is None:
            r = inside[fn] = os.path.realpath(fn).startswith(src)
        return r

    def hand_over(me):
        other = 1 - me
        if done[other]:
            return
        state["taken"] += 1
        state["left"] = plan.pop(0) if plan else None
        before = count[other]
        sem[other].release()
        t0 = time.time()
        while not sem[me].acquire(timeout=STALL):
            if done[other]:
                return
            if count[other] == before and time.time() - t0 >= STALL:
                return  # the other thread is blocked (on a lock we hold, say): go on
            before = count[other]

    def tracer_for(me):
        def local(frame, event, arg):
            if event == "opcode" or (event == "line" and frame.f_lineno in statements(frame.f_code.co_filename)):
                count[me] += 1
                if log is not None:
                    log[me].append((frame.f_code.co_filename, frame.f_lineno, frame.f_lasti if opcodes else 0))
                if state["left"] is not None and not done[1 - me]:
                    state["left"] -= 1
                    if state["left"] < 0:
                        hand_over(me)
            return local

        def glob(frame, event, arg):
            if event == "call" and ours(frame.f_code.co_filename):
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return glob

    def body(me):
        sem[me].acquire()
        sys.settrace(tracer_for(me))
        try:
            res[me] = ("ok", fs[me]())
        except BaseException as e:
            res[me] = ("error", f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
            done[me] = True
            sem[1 - me].release()

    th = [threading.Thread(target=body, args=(i,), daemon=True) for i in (0, 1)]
    for t in th:
        t.start()
    sem[first].release()
    end = time.time() + HANG
    for t in th:
        t.join(max(0.01, end - time.time()))
        if t.is_alive():
            raise Deadlock("the threads do not finish")
    return res, count, state["taken"]
