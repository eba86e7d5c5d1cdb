"""Deterministic thread schedules: several functions run in threads of their own, one at a time, and control changes
hands in the middle of the code under test after the numbers of executed lines given by the schedule."""
import os
import sys
import threading


class Baton:
    def __init__(self, count, slices, limit=600):
        self.sem = [threading.Semaphore(0) for _ in range(count)]
        self.live = [True] * count
        self.slices, self.pos, self.limit = list(slices) or [1 << 60], 0, limit
        self.left = 0
        self.switches = 0
        self.me = 0
        self.done = threading.Event()

    def slice(self):
        if self.switches >= self.limit:
            return 1 << 60
        n = self.slices[self.pos % len(self.slices)]
        self.pos += 1
        return max(1, int(n))

    def next_of(self, i):
        c = len(self.live)
        for k in range(1, c + 1):
            j = (i + k) % c
            if self.live[j]:
                return j
        return None

    def tick(self, i):
        """one line executed by thread i; may hand over"""
        self.left -= 1
        if self.left > 0:
            return
        self.left = self.slice()
        j = self.next_of(i)
        if j is None or j == i:
            return
        self.switches += 1
        self.sem[j].release()
        self.sem[i].acquire()

    def finish(self, i):
        self.live[i] = False
        j = self.next_of(i)
        if j is None:
            self.done.set()
        else:
            self.left = self.slice()
            self.sem[j].release()


def run(funcs, slices, root):
    """Run the functions under the schedule; returns (results, number of switches). A function's exception is its result
    as ('error', exception)."""
    b = Baton(len(funcs), slices)
    out = [None] * len(funcs)
    root = os.path.join(os.path.realpath(root), "")

    def body(i):
        def local(frame, event, arg):
            if event == "line":
                b.tick(i)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(root) else None

        b.sem[i].acquire()
        try:
            sys.settrace(glob)
            out[i] = ("ok", funcs[i]())
        except BaseException as e:  # handed to the caller
            out[i] = ("error", e)
        finally:
            sys.settrace(None)
            b.finish(i)

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(funcs))]
    for t in ts:
        t.start()
    b.left = b.slice()
    b.sem[0].release()
    b.done.wait()
    for t in ts:
        t.join()
    return out, b.switches
