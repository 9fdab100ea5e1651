"""Threads that take turns as a case says, and computations interrupted on the way.

Both count the lines (or the bytecode instructions) of the code under test that run,
so that what happens depends on the case only.
"""
import os
import sys
import threading

from pbt import env
from pbt.core import Violation

CODE = os.path.join(os.path.realpath(env.REPO), 'fca') + os.sep
ALSO = os.path.join(env.REPO, 'fca') + os.sep
STUCK = 1.0             # seconds without a step until another thread may go on
LONGEST = 60.0


def tracer(step, fine):
    def local(frame, event, arg):
        if event == ('opcode' if fine else 'line'):
            step()
        return local

    def start(frame, event, arg):
        if frame.f_code.co_filename.startswith((CODE, ALSO)):
            if fine:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return None
    return start


class Stopped(BaseException):
    pass


class Turns:
    def __init__(self, n, schedule):
        self.cond = threading.Condition()
        self.alive = list(range(n))
        self.turn = 0
        self.schedule = schedule
        self.at = 0
        self.left = schedule[0]
        self.steps = 0
        self.switches = 0
        self.stop = False

    def hand_on(self, i):
        """The next thread's turn (the lock is held)."""
        later = [j for j in self.alive if j > i] or self.alive
        if later:
            self.switches += later[0] != self.turn
            self.turn = later[0]
        self.at = (self.at + 1) % len(self.schedule)
        self.left = self.schedule[self.at]
        self.cond.notify_all()

    def wait(self, i):
        while self.turn != i:
            seen = self.steps
            if self.stop:
                raise Stopped()
            # a thread that has the turn may wait for a lock that another one holds
            if not self.cond.wait(STUCK) and seen == self.steps:
                self.turn = i

    def step(self, i):
        self.steps += 1
        if self.turn == i:
            self.left -= 1
            if self.left > 0:
                return
        with self.cond:
            if self.stop:
                raise Stopped()
            if self.turn == i:
                self.hand_on(i)
            self.wait(i)


def interleave(jobs, schedule, fine):
    """Results of the jobs, each in a thread, and the number of switches."""
    turns = Turns(len(jobs), schedule)
    results, errors = [None] * len(jobs), []

    def body(i):
        try:
            with turns.cond:
                turns.wait(i)
            sys.settrace(tracer(lambda: turns.step(i), fine))
            try:
                results[i] = jobs[i]()
            finally:
                sys.settrace(None)
        except Stopped:
            pass
        except BaseException as e:
            errors.append((i, e))
        finally:
            with turns.cond:
                turns.alive.remove(i)
                if turns.turn == i:
                    turns.hand_on(i)

    threads = [threading.Thread(target=body, args=(i,), daemon=True)
               for i in range(len(jobs))]
    for t in threads:
        t.start()
    try:
        for t in threads:
            t.join(LONGEST)
            if t.is_alive():
                raise Violation('the threads do not end')
    finally:
        with turns.cond:
            turns.stop = True
            turns.cond.notify_all()
        for t in threads:
            t.join(2)
    if errors:
        i, e = errors[0]
        if isinstance(e, Exception):
            raise e
        raise Violation('thread {}: {!r}'.format(i, e))
    return results, turns.switches


class Interrupted(BaseException):
    pass


def interrupt(job, at, fine):
    """Run the job until it made that many steps; was it interrupted?"""
    left = [at]

    def step():
        left[0] -= 1
        if left[0] == 0:
            raise Interrupted()
    sys.settrace(tracer(step, fine))
    try:
        job()
    except Interrupted:
        pass
    finally:
        sys.settrace(None)
    return left[0] <= 0


def length(job, fine):
    """The number of steps the job makes."""
    count = [0]

    def step():
        count[0] += 1
    sys.settrace(tracer(step, fine))
    try:
        job()
    finally:
        sys.settrace(None)
    return count[0]
