"""Real threads under the control of the simulator: only the thread holding the baton runs.

A thread started during a run is stopped before its first instruction and from then on runs only for slices the
simulator decides on. It gives the baton back when it blocks in one of the fakes (pause), when it ends, or
when the line budget of the slice is used up (a trace function counts lines of the watched files), which puts a switch
between any two lines of the code under test."""
import sys
import threading

_orig_start = threading.Thread.start
WAIT = 2.0  # real seconds after which a thread is taken to be blocked somewhere outside of the fakes


class Killed(BaseException):
    """Ends a thread at the end of the run."""


class Rec:
    """One controlled thread."""

    def __init__(self, thread, name):
        self.thread, self.name = thread, name
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.state = "new"  # runnable, blocked, ended
        self.blocked_on = None
        self.budget = None
        self.frame = None
        self.killed = self.free = False
        self.error = None
        self.tries = 0
        self.pending = False  # a slice is scheduled


class Threads:
    def __init__(self, sim, watched, cut=False, chooser_key=lambda rec: "slice:" + rec.name):
        self.sim = sim
        self.watched = watched
        self.main = threading.get_ident()
        self.recs = []
        self.by_ident = {}
        self.key = chooser_key
        self.saved = None
        self.cut = cut  # threads also run between two lines of the watched files on the simulator's thread
        self.cutting = False

    # --- set up and tear down ---
    def __enter__(self):
        ctl = self
        self.saved = (threading.gettrace(), threading.excepthook)

        def start(thread):
            if threading.get_ident() != ctl.main:
                return _orig_start(thread)
            rec = Rec(thread, "t%d" % len(ctl.recs))
            ctl.recs.append(rec)
            thread._vp_rec = rec
            _orig_start(thread)
            ctl.wait(rec)
            if ctl.sim.chooser.pick("ahead:" + rec.name, lambda rng: 1 if rng.chance(0.3) else None):
                rec.pending = True  # the thread runs before start() returns
                ctl.run_slice(rec)
            else:
                ctl.schedule(rec, 0)
            return None

        def hook(args):
            rec = getattr(args.thread, "_vp_rec", None)
            if rec is not None and args.exc_type is not Killed:
                rec.error = args.exc_value

        threading.Thread.start = start
        threading.settrace(self.trace)
        threading.excepthook = hook
        if self.cut:
            sys.settrace(self.main_trace)
        return self

    def __exit__(self, *_exc):
        threading.Thread.start = _orig_start
        if self.cut:
            sys.settrace(None)
        for rec in self.recs:
            if rec.state != "ended":
                rec.killed = True
                rec.go.release()
                rec.thread.join(5)
            del rec.thread._vp_rec
        threading.settrace(self.saved[0])
        threading.excepthook = self.saved[1]

    # --- on the controlled threads ---
    def current(self):
        return getattr(threading.current_thread(), "_vp_rec", None)

    def trace(self, frame, event, arg):
        rec = self.current()
        if rec is None:
            return None
        if rec.frame is None:
            rec.frame = frame
            rec.state = "runnable"
            self.pause(rec)
            return self.outer
        if frame.f_code.co_filename.endswith(self.watched) and not rec.killed:
            return self.local
        return None

    def outer(self, frame, event, arg):
        rec = self.current()
        if event == "return":
            rec.state = "ended"
            sys.settrace(None)
            rec.back.release()
            return None
        if frame.f_code.co_filename.endswith(self.watched):
            self.local(frame, event, arg)
        return self.outer

    def local(self, frame, event, arg):
        rec = self.current()
        if event == "line" and rec.budget is not None and not rec.killed:
            rec.budget -= 1
            if rec.budget < 0:
                self.pause(rec)
        return self.local

    def pause(self, rec):
        """Give the baton back (on the controlled thread)."""
        rec.back.release()
        rec.go.acquire()
        if rec.killed:
            raise Killed()

    def block(self, what):
        """Called by a fake on a controlled thread: wait until unblocked."""
        rec = self.current()
        rec.state, rec.blocked_on = "blocked", what
        self.pause(rec)
        rec.state, rec.blocked_on = "runnable", None

    # --- on the simulator's thread ---
    def main_trace(self, frame, event, arg):
        return self.main_local if frame.f_code.co_filename.endswith(self.watched) else None

    def main_local(self, frame, event, arg):
        if event == "line" and not self.cutting:
            self.cutting = True
            try:
                for rec in list(self.recs):
                    if rec.state == "runnable" and rec.pending and not rec.free and self.sim.chooser.pick("cut:" + rec.name, lambda rng: 1 if rng.chance(0.3) else None):
                        self.sim.fault_count["loop-preempted"] += 1
                        self.run_slice(rec, True)
            finally:
                self.cutting = False
        return self.main_local

    def unblock(self, what, ticks=0):
        for rec in self.recs:
            if rec.state == "blocked" and rec.blocked_on is what:
                rec.state = "runnable"
                self.schedule(rec, ticks)

    def schedule(self, rec, ticks):
        if not rec.pending:
            rec.pending = True
            self.sim.after(ticks, lambda: self.run_slice(rec))

    def wait(self, rec):
        if not rec.back.acquire(timeout=WAIT):
            rec.free = True
            rec.tries += 1
            return False
        rec.free = False
        if rec.state == "ended":
            rec.thread.join(5)
        return True

    def run_slice(self, rec, keep=False):
        """keep: the scheduled slice is still to come."""
        rec.pending = keep
        if rec.state == "ended":
            return
        if not rec.free:
            if rec.state != "runnable":
                return
            d = self.sim.chooser.pick(self.key(rec), self.gen)
            rec.budget = d[0] if d else None
            rec.go.release()
        else:
            d = None
        if not self.wait(rec):
            if rec.tries > 40:
                self.sim.fail("stuck", "thread %s neither reads nor ends" % rec.name)
                return
            self.schedule(rec, 1)
            return
        self.sim.log("slice", rec.name, rec.state)
        if rec.state == "runnable":
            self.sim.fault_count["preempted"] += 1
            self.schedule(rec, d[1] if d else 0)

    @staticmethod
    def gen(rng):
        if rng.chance(0.45):
            return None
        return [rng.randint(1, 14), rng.choice([0, 0, 1, 2, rng.randint(0, 40)])]
