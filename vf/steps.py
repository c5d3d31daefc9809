"""Steps of the code under test (lines or byte code instructions it executes), observed by sys.settrace: used to
interleave threads deterministically and to inject an interruption at a chosen step."""
import sys
import threading

from vf.core import AGE_SRC


def tracer(step, opcodes=False, where=None):
    """trace function calling step() at every step of the code under test (after where(frame))"""
    def local(frame, event, arg):
        if event == ("opcode" if opcodes else "line"):
            if where:
                where(frame)
            step()
        return local

    def glob(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(AGE_SRC):
            if opcodes:
                frame.f_trace_opcodes = True
            else:
                if where:
                    where(frame)
                step()
            return local
        return None
    return glob


class Scheduler:
    """Runs functions in threads of which only one executes at a time; at every step of the code under test a generator
    decides whether another one continues.  If the running thread blocks (on a lock of another one), all are let go."""

    def __init__(self, rnd, every, opcodes):
        self.rnd, self.every, self.opcodes = rnd, every, opcodes
        self.steps = self.switches = 0
        self.free = False
        self.idle = threading.Event()

    def _step(self, i):
        if self.free:
            return
        self.steps += 1
        if self.rnd.randrange(self.every) == 0 and len(self.alive) > 1:
            others = [j for j in self.alive if j != i]
            j = others[self.rnd.randrange(len(others))]
            self.switches += 1
            self.turn[j].release()
            self.turn[i].acquire()

    def _thread(self, i, fn):
        self.turn[i].acquire()
        sys.settrace(tracer(lambda: self._step(i), self.opcodes))
        try:
            self.results[i] = ("ok", fn())
        except BaseException as e:
            self.results[i] = ("err", e)
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            if not self.alive:
                self.idle.set()
            elif not self.free:
                self.turn[self.alive[self.rnd.randrange(len(self.alive))]].release()

    def run(self, fns):
        n = len(fns)
        self.alive = list(range(n))
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.results = [None] * n
        threads = [threading.Thread(target=self._thread, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in threads:
            t.start()
        self.turn[self.rnd.randrange(n)].release()
        last = -1
        while not self.idle.wait(2.0):
            if self.steps == last and not self.free:
                self.free = True
                for s in self.turn:
                    s.release()
            elif self.free and self.steps == last and self.waited > 20:
                break
            self.waited = getattr(self, "waited", 0) + 1 if self.free else 0
            last = self.steps
        for t in threads:
            t.join(5)
        return self.results
