"""Deterministic execution of the real library: virtual time, simulated sockets,
and one running thread at a time, chosen by a seeded scheduler.

install() makes `import threading` (time, socket, select, os, ...) inside the
library yield stand-ins.  A Sim then runs application threads and the library's
own listening thread; they switch at synchronization operations, socket calls
and, on request, between any two lines of library code.
"""
import _thread, builtins, dis, errno, gc, heapq, os as _os, random, select as _select, socket as _socket
import sys, threading as _threading, time as _time, traceback, types

ACTIVE = None           # the running Sim
STAGE = None

class SimAbort(BaseException):
    """Ends a leftover thread when a case is over."""
class SimFailure(BaseException):
    """Raised into the main thread: deadlock, livelock, ..."""
    def __init__(self, key, message, **detail):
        super().__init__(message)
        self.key, self.message, self.detail = key, message, detail

_breakable = {}
def breakable(code):
    """Offsets of the instructions before which CPython may switch threads: those after calls and backward jumps."""
    out = _breakable.get(code)
    if out is None:
        out, last = set(), None
        for ins in dis.get_instructions(code):
            if last is not None and (last.startswith("CALL") or last == "RESUME") or ins.opname.startswith("JUMP_BACKWARD"):
                out.add(ins.offset)
            last = ins.opname
        _breakable[code] = out
    return out

class TCB:
    def __init__(self, sim, name, fn):
        self.sim, self.name, self.fn = sim, name, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.pred = None        # blocked until this is true ...
        self.deadline = None    # ... or this time has come
        self.what = "starting"
        self.done = False
        self.started = False
        self.exc = None
        self.aborting = False
        self.library = False
        self.ident = None
        self.prio = 0
        self.after = 0

class Sim:
    MAXSTEPS = 400000
    def __init__(self, rng, switch=None, line=None, jitter=None, tick=None, stall=None, horizon=3600.0, early=None, quantum=0, opcodes=None):
        self.rng = rng
        self.seed = rng.getrandbits(64)
        self.srng = random.Random(self.seed)
        r = self.srng
        self.switch = r.choice([0.0, 0.05, 0.2, 0.5, 1.0]) if switch is None else switch
        self.line = r.choice([0, 0, 0, 0.01, 0.05, 0.2]) if line is None else line
        self.jitter = r.choice([0.0, 0.0, 1e-4, 2e-3]) if jitter is None else jitter
        self.tick = r.choice([1e-6, 1e-6, 2e-5, 2e-4]) if tick is None else tick
        # time() may run behind the clock that timeouts are measured with
        self.early = r.choice([0, 0, 0, 1e-5, 1e-4]) if early is None else early
        self.quantum = quantum  # resolution of time()
        # preempt inside lines, too, wherever the interpreter itself may do so
        if self.line:
            self.MAXSTEPS *= 10
        self.opcodes = bool(self.line) and (random.Random(self.seed + 1).random() < .12 if opcodes is None else opcodes)
        self.on_line = None     # called at such places, in the running thread
        self.stall = stall      # (probability, longest) or None
        self.start = self.now = 1.7e9 + r.randrange(10**6) + r.choice([0, r.random()])
        self.horizon = self.now + horizon
        self.events = []
        self.seq = 0
        self.threads = []
        self.current = None
        self.aborted = False
        self.failure = None
        self.steps = self.switches = self.preemptions = 0
        self.path = 0           # running hash of scheduling decisions
        self.thread_errors = []
        self.harness_error = None
        self.contended = 0
        self.open_fds = {}
        self.next_fd = 1000000
        self.net = Net(self)
        self.urandom = random.Random(r.getrandbits(64))
        self.force_urandom = None
        self.holders = {}

    # ------------------------------------------------------------- running
    def run(self, main):
        global ACTIVE
        assert ACTIVE is None
        ACTIVE = self
        t = TCB(self, "main", None)
        t.started = True
        t.ident = _thread.get_ident()
        self.main = self.current = t
        self.threads.append(t)
        gcwas = gc.isenabled()
        gc.disable()
        old = sys.gettrace()
        try:
            if self.line:
                sys.settrace(self._trace)
            try:
                return main()
            finally:
                sys.settrace(old)
                self.finish()
        finally:
            ACTIVE = None
            self.events.clear()
            if gcwas:
                gc.enable()

    def finish(self):
        """Ends every other thread."""
        self.aborted = True
        t = self.main
        assert self.current is t
        for x in list(self.threads):
            if x is not t and not x.done:
                x.aborting = True
                self.current = x
                if not x.started:
                    x.started = True
                x.sem.release()
                t.sem.acquire()
                assert x.done

    def spawn(self, fn, *args, name=None, library=False):
        t = TCB(self, name or f"app{len(self.threads)}", lambda: fn(*args))
        t.library = library
        t.prio = self.srng.random()
        t.result = None
        self.threads.append(t)
        if len(self.threads) > 400:
            self.fail("too-many-threads", "hundreds of threads were started")
        def body():
            t.sem.acquire()
            t.ident = _thread.get_ident()
            try:
                if not t.aborting:
                    if self.line:
                        sys.settrace(self._trace)
                    t.result = t.fn()
            except SimAbort:
                pass
            except SimFailure as f:
                self.failure = self.failure or f
            except BaseException as e:
                t.exc = e
                self.thread_errors.append((t, e, "".join(traceback.format_exception(e))))
            finally:
                sys.settrace(None)
                t.fn = None
                t.done = True
                if self.aborted:
                    self.current = self.main
                    self.main.sem.release()
                else:
                    self._leave()
        _thread.start_new_thread(body, ())
        t.started = True
        t.what = "ready"
        self.point("spawn")
        return t

    def _leave(self):
        """The current thread is done: hand the token on."""
        t = self._pick()
        self.current = t
        t.sem.release()

    def join(self, t, timeout=None):
        self.block(lambda: t.done, timeout, f"join {t.name}")
        return t.done

    def wait_all(self, threads):
        for t in threads:
            self.join(t)

    # ---------------------------------------------------------- scheduling
    def at(self, when, fn, *args):
        self.seq += 1
        heapq.heappush(self.events, (when, self.seq, fn, args))

    def guarded(self, fn, *args):
        """Calls harness code from inside the library: its errors are not the library's."""
        try:
            return fn(*args)
        except Exception:
            self.harness_error = self.harness_error or traceback.format_exc()

    def _fire(self):
        while self.events and self.events[0][0] <= self.now:
            _, _, fn, args = heapq.heappop(self.events)
            self.guarded(fn, *args)

    def _runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.pred is None or (t.deadline is not None and t.deadline <= self.now) or t.pred():
                out.append(t)
        return out

    def _pick(self):
        while True:
            self._fire()
            run = self._runnable()
            if run:
                break
            nxt = self.events[0][0] if self.events else None
            for t in self.threads:
                if not t.done and t.deadline is not None and (nxt is None or t.deadline < nxt):
                    nxt = t.deadline
            if nxt is None:
                self.failure = SimFailure("deadlock", "every thread is blocked for ever", threads=self.dump())
                self.aborted = True
                return self.main
            if nxt > self.horizon:
                self.failure = SimFailure("endless", "the application is still waiting after a very long time", threads=self.dump())
                self.aborted = True
                return self.main
            self.now = max(self.now, nxt)
        if len(run) == 1:
            return run[0]
        t = run[self.srng.randrange(len(run))]
        self.path = hash((self.path, t.name, len(run)))
        return t

    def _switch(self):
        me = self.current
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            self.failure = SimFailure("livelock", f"no end after {self.steps} scheduling steps", threads=self.dump())
            self.aborted = True
            t = self.main
        else:
            t = self._pick()
        if t is not me:
            self.switches += 1
            self.current = t
            t.sem.release()
            me.sem.acquire()
        if me.aborting:
            raise SimAbort()
        if self.aborted and me is self.main and self.failure:
            f, self.raised = self.failure, self.failure
            raise f
        return

    def fail(self, key, message, **detail):
        self.failure = self.failure or SimFailure(key, message, **detail)
        raise self.failure

    def mine(self):
        return self.current is not None and self.current.ident == _thread.get_ident()

    def point(self, what="", p=None):
        """A place where another thread may run."""
        if self.aborted or not self.mine():
            return
        if self.stall is not None and self.srng.random() < self.stall[0]:
            me = self.current
            me.pred, me.deadline, me.what = (lambda: False), self.now + self.srng.random() * self.stall[1], "stalled"
            try:
                self._switch()
            finally:
                me.pred = me.deadline = None
            return
        if self.srng.random() < (self.switch if p is None else p):
            self.preemptions += 1
            self._switch()

    def block(self, pred, timeout=None, what=""):
        """Blocks until pred() or timeout; True if pred() held."""
        if self.aborted or not self.mine():
            if self.aborted:
                self.over()
            return pred()
        self.point(what)
        me = self.current
        if pred():
            return True
        if timeout is not None and timeout <= 0:
            self.now += self.tick
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                self._switch()
            return pred()
        self.contended += 1
        me.what = what
        me.pred = pred
        if timeout is not None:
            me.deadline = self.now + timeout + (self.srng.random() * self.jitter if self.jitter else 0.0)
            if self.early and timeout > 2 * self.early:
                me.deadline -= self.srng.random() * self.early
        try:
            while True:
                self._switch()
                if self.aborted or pred():
                    return True
                if me.deadline is not None and me.deadline <= self.now:
                    return False
        finally:
            me.pred = me.deadline = None

    def sleep(self, dt):
        self.block(lambda: False, dt, "sleep")

    def clock(self):
        if self.mine() and not self.aborted:
            self.now += self.tick
        elif self.aborted:
            self.over()
        return self.now

    def over(self):
        """A thread that has swallowed its end (in a finalizer, say) must not go on for ever."""
        t = self.current
        if t is not None and t.ident == _thread.get_ident():
            t.after += 1
            if t is self.main:
                if self.failure and t.after > 20:
                    raise self.failure
            elif t.after > 200:
                raise SimAbort()

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(STAGE) and frame.f_code.co_name != "<module>":
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "opcode" and frame.f_lasti not in breakable(frame.f_code):
            return self._line
        if self.on_line is not None and event in ("line", "opcode") and not self.aborted and self.mine():
            self.on_line()
        if event in ("line", "opcode") and not self.aborted and self.srng.random() < self.line and self.mine():
            self.preemptions += 1
            self._switch()
        return self._line

    def dump(self):
        frames = sys._current_frames()
        out = []
        for t in self.threads:
            if not t.done and t.ident in frames:
                stack = [f for f in traceback.extract_stack(frames[t.ident]) if "/vlib/sim.py" not in f.filename]
                out.append(f"{t.name} ({t.what}): " + " < ".join(f"{f.filename.split('/')[-1]}:{f.lineno} {f.name}" for f in reversed(stack[-8:])))
            elif not t.done:
                out.append(f"{t.name} ({t.what})")
        return "\n".join(out)

    # ----------------------------------------------------------------- fds
    def new_fd(self, obj):
        self.next_fd += 1
        self.open_fds[self.next_fd] = obj
        return self.next_fd

def sim():
    return ACTIVE

def _badf():
    return OSError(errno.EBADF, "Bad file descriptor")

# ------------------------------------------------------------ the network

class Net:
    def __init__(self, s):
        self.sim = s
        self.bound = {}
        self.agents = {}
        self.sent = []          # (time, source, destination, data, thread name)
        self.delivered = []     # (time, destination, source, data)
        self.dropped = 0
        self.port = 40000
        self.filter = None      # fn(direction, data, src, dst) -> list of delays
        self.taps = []          # fn(time, src, dst, data, sock) on every sent datagram
        self.send_error = None  # fn(sock, data, dst) -> exception or None

    def delays(self, direction, data, src, dst):
        if self.filter is None:
            return [1e-3]
        return self.filter(direction, data, src, dst)

    def transmit(self, sock, data, dst):
        s = self.sim
        src = sock.source(dst)
        if self.send_error:
            e = self.send_error(sock, data, dst)
            if e is not None:
                raise e
        self.sent.append((s.now, src, dst, data, s.current.name if s.current else None))
        for tap in self.taps:
            s.guarded(tap, s.now, src, dst, data, sock)
        if dst in self.agents:
            ds = self.delays("out", data, src, dst)
            if not ds:
                self.dropped += 1
            for d in ds:
                s.at(s.now + d, self._to_agent, data, src, dst)
        else:
            s.at(s.now + 1e-5, self._to_socket, data, src, dst)

    def _to_agent(self, data, src, dst):
        a = self.agents.get(dst)
        if a is None:
            return
        for reply in self.sim.guarded(a, data, src, self.sim.now) or ():
            rdata, rsrc, extra = reply if isinstance(reply, tuple) else (reply, dst, 0.0)
            self.reply(rdata, rsrc, src, extra)

    def reply(self, data, src, dst, extra=0.0):
        """An agent (or anybody) sends a datagram to a library socket."""
        ds = self.delays("in", data, src, dst)
        if not ds:
            self.dropped += 1
        for d in ds:
            self.sim.at(self.sim.now + d + extra, self._to_socket, data, src, dst)

    def inject(self, data, src, dst, delay=0.0):
        self.sim.at(self.sim.now + delay, self._to_socket, data, src, dst)

    def find(self, dst):
        k = self.bound.get(dst)
        if k is None:
            any_ = "::" if ":" in dst[0] else "0.0.0.0"
            k = self.bound.get((any_, dst[1]))
        return k

    def _to_socket(self, data, src, dst):
        k = self.find(dst)
        if k is not None:
            k.queue.append((data, src))
            self.delivered.append((self.sim.now, dst, src, data))

class SimSocket:
    def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        s = ACTIVE
        if s is None:
            raise RuntimeError("simulated socket outside a simulation")
        self.sim, self.family, self.type = s, family, type
        self.fd = s.new_fd(self)
        self.queue = []
        self.errors = []
        self.addr = None
        self.blocking = None
        self.spurious = 0
    def fileno(self):
        return self.fd
    def setblocking(self, flag):
        self.blocking = None if flag else 0.0
    def settimeout(self, v):
        self.blocking = v
    def gettimeout(self):
        return self.blocking
    def setsockopt(self, *a):
        pass
    def bind(self, addr):
        self._check()
        host, port = addr[0], addr[1]
        if host == "":
            host = "::" if self.family == _socket.AF_INET6 else "0.0.0.0"
        if port == 0:
            self.sim.net.port += 1
            port = self.sim.net.port
        if (host, port) in self.sim.net.bound:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self.addr = (host, port)
        self.sim.net.bound[self.addr] = self
    def getsockname(self):
        self._check()
        a = self.addr or ("::" if self.family == _socket.AF_INET6 else "0.0.0.0", 0)
        return a if self.family != _socket.AF_INET6 else a + (0, 0)
    def source(self, dst):
        h, p = self.addr or ("", 0)
        if h in ("", "0.0.0.0"):
            h = "10.0.0.1"
        elif h == "::":
            h = "fd00::1"
        return (h, p)
    def _check(self):
        if self.fd < 0:
            raise _badf()
    def sendto(self, data, addr):
        self._check()
        if self.sim.aborted:
            return len(data)
        self.sim.point("sendto")
        self._check()
        if self.addr is None:
            self.bind(("", 0))
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("a bytes-like object is required")
        self.sim.net.transmit(self, bytes(data), (addr[0], addr[1]))
        return len(data)
    def readable(self):
        return bool(self.queue or self.errors or self.spurious)
    def recvfrom(self, size, flags=0):
        self._check()
        if self.sim.aborted:
            raise SimAbort() if self.sim.current is not self.sim.main else BlockingIOError(errno.EAGAIN, "")
        self.sim.point("recvfrom")
        if not self.queue and not self.errors and self.blocking != 0.0:
            if not self.sim.block(self.readable, self.blocking, "recvfrom"):
                raise TimeoutError("timed out")
        if self.spurious:
            self.spurious -= 1
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        if self.errors:
            raise self.errors.pop(0)
        if not self.queue:
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        data, src = self.queue.pop(0)
        if self.family == _socket.AF_INET6:
            src = src[:2] + (0, 0)
        return data[:size], src
    def recv(self, size, flags=0):
        return self.recvfrom(size)[0]
    def recvfrom_into(self, buf, n=0):
        d, a = self.recvfrom(n or len(buf))
        buf[:len(d)] = d
        return len(d), a
    def close(self):
        if self.fd >= 0:
            self.sim.open_fds.pop(self.fd, None)
            if self.addr and self.sim.net.bound.get(self.addr) is self:
                del self.sim.net.bound[self.addr]
            self.fd = -1
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()

class PipeEnd:
    def __init__(self, buf, writer):
        self.buf, self.writer = buf, writer
    def readable(self):
        return not self.writer and bool(self.buf)

def os_pipe():
    s = ACTIVE
    if s is None:
        return _os.pipe()
    buf = bytearray()
    return s.new_fd(PipeEnd(buf, False)), s.new_fd(PipeEnd(buf, True))

def _pipe(fd, writer):
    s = ACTIVE
    p = s.open_fds.get(fd) if s else None
    if not isinstance(p, PipeEnd) or p.writer != writer:
        raise _badf()
    return p

def os_read(fd, n):
    if fd < 1000000:
        return _os.read(fd, n)
    p = _pipe(fd, False)
    ACTIVE.block(p.readable, None, "read from pipe")
    out = bytes(p.buf[:n])
    del p.buf[:n]
    return out

def os_write(fd, data):
    if fd < 1000000:
        return _os.write(fd, data)
    p = _pipe(fd, True)
    ACTIVE.point("write to pipe")
    p.buf += data
    return len(data)

def os_close(fd):
    if fd < 1000000:
        return _os.close(fd)
    if ACTIVE is None or fd not in ACTIVE.open_fds:
        raise _badf()
    p = ACTIVE.open_fds[fd]
    if isinstance(p, SimSocket):
        p.close()
    else:
        del ACTIVE.open_fds[fd]

def os_urandom(n):
    s = ACTIVE
    if s is None:
        return _os.urandom(n)
    if s.force_urandom is not None:
        return s.force_urandom(n)
    return s.urandom.randbytes(n)

class SimPoll:
    def __init__(self):
        self.fds = {}
    def register(self, fd, mask=None):
        fd = fd if isinstance(fd, int) else fd.fileno()
        self.fds[fd] = mask
    modify = register
    def unregister(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        del self.fds[fd]
    def ready(self):
        out = []
        s = ACTIVE
        for fd, mask in self.fds.items():
            o = s.open_fds.get(fd)
            if o is None:
                out.append((fd, _select.POLLNVAL))
            elif o.readable():
                out.append((fd, _select.POLLIN))
        return out
    def poll(self, timeout=None):
        s = ACTIVE
        if timeout is not None and timeout < 0:
            timeout = None
        s.block(lambda: bool(self.ready()), None if timeout is None else timeout / 1000.0, "poll")
        if s.aborted and s.current is not s.main:
            raise SimAbort()
        return self.ready()

def sim_select(r, w, x, timeout=None):
    s = ACTIVE
    num = lambda f: f if isinstance(f, int) else f.fileno()
    def ready():
        out = []
        for f in r:
            o = s.open_fds.get(num(f))
            if o is None:
                raise _badf()
            if o.readable():
                out.append(f)
        return out
    s.block(lambda: bool(ready()), timeout, "select")
    if s.aborted and s.current is not s.main:
        raise SimAbort()
    return ready(), list(w), []

class SimSelector:
    def __init__(self):
        self.map = {}
    def register(self, f, events, data=None):
        fd = f if isinstance(f, int) else f.fileno()
        import selectors
        k = selectors.SelectorKey(f, fd, events, data)
        self.map[fd] = k
        return k
    def unregister(self, f):
        return self.map.pop(f if isinstance(f, int) else f.fileno())
    def get_map(self):
        return self.map
    def select(self, timeout=None):
        got = sim_select(list(self.map), [], [], timeout)[0]
        return [(self.map[fd], 1) for fd in got]
    def close(self):
        self.map.clear()
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()

# ----------------------------------------------------------- threading

class Lock:
    """Not reentrant; usable (without blocking) outside a simulation too."""
    def __init__(self):
        self.owner = None
    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if s is None or not s.mine():
            if self.owner is not None and s is None:
                return True if blocking else False
            self.owner = "outside"
            return True
        if s.aborted:
            return True
        if not blocking:
            s.point("acquire")
            if self.owner is not None:
                return False
        else:
            if not s.block(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout, "lock"):
                return False
        self.owner = s.current
        return True
    def release(self):
        s = ACTIVE
        if self.owner is None and not (s and s.aborted):
            raise RuntimeError("release unlocked lock")
        self.owner = None
        if s is not None and not s.aborted:
            s.point("release")
    def locked(self):
        return self.owner is not None
    def __enter__(self):
        self.acquire()
        return True
    def __exit__(self, *a):
        self.release()

class RLock(Lock):
    def __init__(self):
        super().__init__()
        self.count = 0
    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = s.current if s is not None and s.mine() else "outside"
        if self.owner is not None and self.owner is me:
            self.count += 1
            return True
        if super().acquire(blocking, timeout):
            self.count = 1
            return True
        return False
    def release(self):
        self.count -= 1
        if self.count <= 0:
            super().release()

class Condition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []
    def __enter__(self):
        return self.lock.__enter__()
    def __exit__(self, *a):
        return self.lock.__exit__(*a)
    def wait(self, timeout=None):
        token = [False]
        self.waiters.append(token)
        count = getattr(self.lock, "count", 1)
        for _ in range(count):
            self.lock.release()
        s = ACTIVE
        try:
            return s.block(lambda: token[0], timeout, "condition") if s is not None else token[0]
        finally:
            if token in self.waiters:
                self.waiters.remove(token)
            for _ in range(count):
                self.lock.acquire()
    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else ACTIVE.now + timeout
        while not predicate():
            left = None if end is None else end - ACTIVE.now
            if left is not None and left <= 0:
                break
            self.wait(left)
        return predicate()
    def notify(self, n=1):
        for _ in range(min(n, len(self.waiters))):
            self.waiters.pop(0)[0] = True
    def notify_all(self):
        self.notify(len(self.waiters))
    notifyAll = notify_all

class Event:
    def __init__(self):
        self.flag = False
    def is_set(self):
        return self.flag
    isSet = is_set
    def set(self):
        s = ACTIVE
        if s is not None and s.mine():
            s.point("set")
        self.flag = True
        if s is not None and s.mine():
            s.point("set")
    def clear(self):
        self.flag = False
    def wait(self, timeout=None):
        s = ACTIVE
        if s is None or not s.mine():
            return self.flag
        s.block(lambda: self.flag, timeout, "event")
        return self.flag

class Semaphore:
    def __init__(self, value=1):
        self.value = value
    def acquire(self, blocking=True, timeout=None):
        s = ACTIVE
        if s is not None and s.mine() and blocking:
            if not s.block(lambda: self.value > 0, timeout, "semaphore"):
                return False
        elif self.value <= 0:
            return False
        self.value -= 1
        return True
    def release(self, n=1):
        self.value += n
        s = ACTIVE
        if s is not None and s.mine():
            s.point("release")
    __enter__ = acquire
    def __exit__(self, *a):
        self.release()

class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "library"
        self.daemon = bool(daemon)
        self._tcb = None
    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)
    def start(self):
        if self._tcb is not None:
            raise RuntimeError("threads can only be started once")
        s = ACTIVE
        n = sum(1 for t in s.threads if t.library)
        self._tcb = True
        def go():
            self.run()
        self._tcb = s.spawn(go, name=f"listener{n}", library=True)
    def join(self, timeout=None):
        if self._tcb is None:
            raise RuntimeError("cannot join thread before it is started")
        s = ACTIVE
        if s is None or s.aborted:
            return
        if self._tcb is s.current:
            raise RuntimeError("cannot join current thread")
        s.join(self._tcb, timeout)
    def is_alive(self):
        return self._tcb is not None and not self._tcb.done
    @property
    def ident(self):
        return self._tcb.ident if self._tcb else None

class _Current:
    def __init__(self, t):
        self.name, self.ident, self.daemon = t.name, id(t), False
    def is_alive(self):
        return True

def current_thread():
    s = ACTIVE
    if s is None or not s.mine():
        return _threading.current_thread()
    return _Current(s.current)

class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.finished = Event()
        self.interval, self.function, self.a, self.k = interval, function, args or (), kwargs or {}
    def cancel(self):
        self.finished.set()
    def run(self):
        if not self.finished.wait(self.interval):
            self.function(*self.a, **self.k)

# ------------------------------------------------------------- stand-ins

def _module(real, **over):
    m = types.ModuleType(real.__name__)
    for k, v in vars(real).items():
        if k not in ("__name__", "__loader__", "__spec__"):
            setattr(m, k, v)
    for k, v in over.items():
        setattr(m, k, v)
    return m

def _now():
    s = ACTIVE
    if s is None:
        return _time.time()
    t = s.clock()
    return t if not s.quantum else t // s.quantum * s.quantum

def _mono():
    s = ACTIVE
    return s.clock() - 1.6e9 if s is not None else _time.monotonic()

def _sleep(dt):
    s = ACTIVE
    if s is None:
        _time.sleep(dt)
    else:
        s.sleep(dt)

def install(stage, osname=None):
    global STAGE
    STAGE = _os.path.join(_os.path.realpath(stage), "snmp")
    import selectors, queue
    th = _module(_threading, Lock=Lock, RLock=RLock, Condition=Condition, Event=Event, Semaphore=Semaphore,
                 BoundedSemaphore=Semaphore, Thread=Thread, Timer=Timer, current_thread=current_thread,
                 currentThread=current_thread, main_thread=current_thread)
    def get_ident():
        s = ACTIVE
        return id(s.current) if s is not None and s.mine() else _thread.get_ident()
    th.get_ident = get_ident
    tm = _module(_time, time=_now, monotonic=_mono, perf_counter=_mono, sleep=_sleep,
                 time_ns=lambda: int(_now() * 1e9), monotonic_ns=lambda: int(_mono() * 1e9))
    so = _module(_socket, socket=SimSocket)
    se = _module(_select, poll=SimPoll, select=sim_select)
    for k in ("epoll", "kqueue", "devpoll"):
        if hasattr(se, k):
            delattr(se, k)
    sl = _module(selectors, DefaultSelector=SimSelector, PollSelector=SimSelector, SelectSelector=SimSelector)
    oo = _module(_os, pipe=os_pipe, read=os_read, write=os_write, close=os_close, urandom=os_urandom)
    osname = osname or _os.environ.get("VERIF_OSNAME")
    if osname:
        oo.name = osname
    # the standard library's queue on top of the simulated locks
    qm = types.ModuleType("queue")
    src = open(queue.__file__).read()
    qm.__dict__["__name__"] = "snmp.__simqueue"
    swap = {"threading": th, "time": tm, "socket": so, "select": se, "selectors": sl, "os": oo, "queue": qm}
    real = builtins.__import__
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and globals is not None and name in swap and str(globals.get("__name__", "")).split(".")[0] == "snmp":
            return swap[name]
        return real(name, globals, locals, fromlist, level)
    builtins.__import__ = imp
    exec(compile(src, queue.__file__, "exec"), qm.__dict__)
    qm.SimpleQueue = getattr(qm, "_PySimpleQueue", None) or qm.Queue

