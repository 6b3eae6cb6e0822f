"""
Stand-ins for multiprocessing.Process and multiprocessing.Queue which run
helpers as threads of which exactly one runs at a time; which one runs next
is decided at every operation on a queue or process by a given word of
actors (0: the parent, k: the k-th helper, 10 + k: kill the k-th helper),
so that a schedule of the specification can be followed.

What processes do not share, the stand-ins do not share either: arguments
are copied when a helper starts, what is put to a queue is pickled.
"""
import copy
import pickle
import queue
import threading
import traceback


class Stuck(Exception):
    """nobody is left who could run"""


class Gone(BaseException):
    """ends a helper's thread"""


class Actor:
    def __init__(self, no):
        self.no = no
        self.sem = threading.Semaphore(0)
        self.ready = None        # None: may run; otherwise what it waits for
        self.timed = False
        self.over = False
        self.killed = False


class Sched:
    LIMIT = 20000

    def __init__(self, word, rnd):
        self.word = list(word)
        self.r = rnd
        self.actors = [Actor(0)]
        self.local = threading.local()
        self.local.me = self.actors[0]
        self.steps = 0
        self.ending = False
        self.stuck = None
        self.deaths = 0
        self.used = 0
        self.processes = []

    def me(self):
        return getattr(self.local, "me", None)

    # -------------------------------------------------- choosing
    def runnable(self):
        return [a for a in self.actors if not a.over and (a.killed or a.ready is None or a.ready())]

    def choose(self):
        while True:
            can = self.runnable()
            timed = [a for a in self.actors if not a.over and a.timed and a not in can]
            if self.word and not self.ending:
                w = self.word.pop(0)
                if w >= 10:
                    k = w - 10
                    if k < len(self.actors) and not self.actors[k].over and not self.actors[k].killed:
                        self.actors[k].killed = True
                        self.deaths += 1
                        return self.actors[k]
                    continue
                hit = [a for a in can + timed if a.no == w]
                if hit:
                    return hit[0]
            if can:
                return self.r.choice(can)
            return timed[0] if timed else None

    def switch(self, ready=None, timed=False):
        """let somebody run; True when what was waited for is the case"""
        me = self.me()
        if me is None:
            raise RuntimeError("queue used by an unknown thread")
        if me.over:
            # cleaning up after the end
            return ready is None or ready()
        self.steps += 1
        self.used += 1
        if self.steps > self.LIMIT:
            self.stuck = "goes on and on"
        me.ready, me.timed = ready, timed
        nxt = None if self.stuck else self.choose()
        if nxt is None:
            self.stuck = self.stuck or "everybody waits"
            nxt = self.actors[0]
        if nxt is not me:
            nxt.sem.release()
            me.sem.acquire()
        if me.killed:
            raise Gone()
        if self.stuck:
            if me.no == 0:
                raise Stuck(self.stuck)
            raise Gone()
        me.ready, me.timed = None, False
        return ready is None or ready()

    # -------------------------------------------------- helpers
    def spawn(self, fn):
        a = Actor(len(self.actors))
        self.actors.append(a)

        def body():
            a.sem.acquire()
            self.local.me = a
            try:
                if not (a.killed or self.stuck):
                    fn(a)
            except Gone:
                pass
            finally:
                a.over = True
                nxt = None if self.stuck else self.choose()
                (nxt or self.actors[0]).sem.release()
                if nxt is None and not self.stuck and any(not x.over for x in self.actors):
                    self.stuck = "everybody waits"
        t = threading.Thread(target=body, daemon=True)
        a.thread = t
        t.start()
        return a

    def finish(self):
        """the parent ends: helpers which are not daemons are waited for.
        True when they all ended"""
        self.ending = True
        me = self.actors[0]
        ok = True
        try:
            for p in self.processes:
                if p.daemon:
                    p.terminate()
            if not self.stuck:
                self.switch(lambda: all(a.over for a in self.actors[1:]))
        except Stuck:
            ok = False
        if self.stuck:
            ok = False
            for a in self.actors[1:]:
                if not a.over:
                    a.killed = True
                    a.sem.release()
                    a.thread.join(10)
        return ok


class Context:
    def __init__(self, word, rnd):
        self.s = Sched(word, rnd)
        s = self.s

        class Queue:
            def __init__(self, maxsize=0):
                self.items = []

            def __deepcopy__(self, memo):
                return self

            def put(self, obj, block=True, timeout=None):
                try:
                    data = pickle.dumps(obj)
                except Exception:
                    # lost in the feeder thread
                    traceback.print_exc()
                    return
                s.switch()
                self.items.append(data)

            def put_nowait(self, obj):
                self.put(obj)

            def get(self, block=True, timeout=None):
                if not block:
                    s.switch()
                    if not self.items:
                        raise queue.Empty()
                elif not s.switch(lambda: bool(self.items), timed=timeout is not None):
                    raise queue.Empty()
                return pickle.loads(self.items.pop(0))

            def get_nowait(self):
                return self.get(False)

            def empty(self):
                s.switch()
                return not self.items

            def qsize(self):
                s.switch()
                return len(self.items)

            def full(self):
                return False

            def close(self):
                pass

            join_thread = cancel_join_thread = close

        class Process:
            daemon = False

            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.name = name or "Process"
                if daemon is not None:
                    self.daemon = daemon
                self.actor = None
                self.code = None
                self.pid = None
                s.processes.append(self)

            def __deepcopy__(self, memo):
                return self

            def run(self):
                self.target(*self.args, **self.kwargs)

            def start(self):
                target, args, kwargs = copy.deepcopy((self.target, self.args, self.kwargs))

                def fn(a):
                    try:
                        target(*args, **kwargs)
                        self.code = 0
                    except Gone:
                        self.code = -9
                        raise
                    except SystemExit as e:
                        self.code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                    except BaseException:
                        self.code = 1
                self.actor = s.spawn(fn)
                self.pid = 100000 + self.actor.no
                s.switch()

            def ended(self):
                return self.actor is not None and self.actor.over

            @property
            def exitcode(self):
                if self.actor is None or not self.actor.over:
                    return None
                return -9 if self.code is None else self.code

            def is_alive(self):
                s.switch()
                return self.actor is not None and not self.actor.over

            def join(self, timeout=None):
                s.switch(self.ended, timed=timeout is not None)

            def terminate(self):
                if self.actor is not None and not self.actor.over:
                    self.actor.killed = True

            kill = terminate

            def close(self):
                pass

        self.Queue, self.Process = Queue, Process
