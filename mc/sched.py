"""A controlled scheduler for the real library: every thread runs under sys.settrace, exactly one holds the baton, and it is handed on
only at the points a schedule names (or when a thread ends or blocks on a lock of the library's own).

Import this module before the library: locks that library code makes are then cooperative."""
import os
import sys
import threading

REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
import _thread  # noqa: E402


class Deadlock(BaseException):
    pass


CURRENT = [None]       # the running Run, if any


class CoopLock:
    """a lock whose blocking is visible to the scheduler"""

    def __init__(self, reentrant=False):
        self._owner, self._count, self._re = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            if self._owner is None or (self._re and self._owner == me):
                self._owner, self._count = me, self._count + 1
                return True
            if not blocking:
                return False
            run = CURRENT[0]
            if run is None or me not in run.index:
                raise Deadlock("a lock is held for ever")
            if timeout is not None and timeout >= 0 and all(run.done[i] or run.blocked[i] for i in range(run.n) if i != run.index[me]):
                return False
            run.block(run.index[me])

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if CURRENT[0] is not None:
                CURRENT[0].unblock()

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == threading.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install():
    """library code imported from now on gets cooperative locks"""
    threading.Lock = lambda: CoopLock()
    threading.RLock = lambda: CoopLock(True)
    _thread_alloc = _thread.allocate_lock
    _thread.allocate_lock = lambda: CoopLock()
    return _thread_alloc


def uninstall(alloc):
    threading.Lock, threading.RLock = REAL_LOCK, REAL_RLOCK
    _thread.allocate_lock = alloc


class Run:
    """one execution: jobs = callables; plan = [(thread, key, next thread)]: when `thread` is about to execute point `key`, the baton goes to `next`.
    key = (file:function, line, occurrence).  After the plan, threads run to completion in order of `order`."""

    def __init__(self, jobs, plan, root, record=False, order=None, timeout=20, only=None):
        self.n = len(jobs)
        self.jobs, self.plan, self.root, self.record = jobs, list(plan), root, record
        self.sem = [threading.Semaphore(0) for _ in jobs]
        self.done = [False] * self.n
        self.blocked = [False] * self.n
        self.results = [None] * self.n
        self.index = {}
        self.order = list(order or range(self.n))
        self.only = None if only is None else set(only)
        self.counts = [dict() for _ in jobs]
        self.trace = [[] for _ in jobs]
        self.met = 0
        self.timeout = timeout
        self.finished = threading.Semaphore(0)
        self.dead = None
        self.points = 0

    # ---- baton
    def _next(self, me):
        for i in self.order:
            if i != me and not self.done[i] and not self.blocked[i]:
                return i
        return None

    def hand(self, me, to):
        if to is None or to == me or self.done[to]:
            return
        if self.blocked[to]:
            return
        self.sem[to].release()
        if not self.sem[me].acquire(timeout=self.timeout):
            raise Deadlock("no progress")

    def block(self, me):
        self.blocked[me] = True
        to = self._next(me)
        if to is None:
            self.dead = "all threads wait for locks"
            self.blocked[me] = False
            raise Deadlock(self.dead)
        self.sem[to].release()
        if not self.sem[me].acquire(timeout=self.timeout):
            raise Deadlock("no progress")
        if self.dead:
            raise Deadlock(self.dead)
        self.blocked[me] = False

    def unblock(self):
        for i in range(self.n):
            self.blocked[i] = False

    # ---- tracing
    def _point(self, me, code, where):
        k = (code.co_filename[len(self.root):] + ":" + code.co_qualname, where)
        c = self.counts[me]
        occ = c.get(k, 0) + 1
        c[k] = occ
        self.points += 1
        if self.record:
            self.trace[me].append((k[0], where, occ))
        if self.met < len(self.plan):
            t, key, to = self.plan[self.met]
            if t == me and key[0] == k[0] and key[1] == where and key[2] == occ:
                self.met += 1
                self.hand(me, to)

    def _tracer(self, me):
        root, only = self.root, self.only

        def local(frame, event, arg):
            if event == "line":
                self._point(me, frame.f_code, frame.f_lineno)
            return local

        def glob(frame, event, arg):
            co = frame.f_code
            if not co.co_filename.startswith(root) or only is not None and co.co_filename[len(root):] + ":" + co.co_qualname not in only:
                return None
            return local
        return glob

    def _body(self, me):
        self.index[threading.get_ident()] = me
        self.sem[me].acquire()
        if not self.dead:
            sys.settrace(self._tracer(me))
            try:
                self.results[me] = ("ok", self.jobs[me]())
            except BaseException as e:  # noqa: BLE001
                sys.settrace(None)
                self.results[me] = ("raise", type(e).__name__, str(e)[:300])
            finally:
                sys.settrace(None)
        self.done[me] = True
        self.unblock_waiting()
        to = self._next(me)
        if to is not None:
            self.sem[to].release()
        else:
            self.finished.release()

    def unblock_waiting(self):
        # a thread that ended cannot release anything any more; waiting threads look again
        self.unblock()

    def go(self):
        CURRENT[0] = self
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        # order of start: all threads register before the first moves
        while len(self.index) < self.n:
            pass
        self.sem[self.order[0]].release()
        ok = self.finished.acquire(timeout=self.timeout * 2)
        CURRENT[0] = None
        if not ok:
            return [r or ("raise", "Hang", "thread made no progress") for r in self.results]
        return self.results


def library_root():
    import pysolar
    return os.path.dirname(pysolar.__file__) + os.sep


# ---- bytecode granularity ----------------------------------------------------------------------------------------------
# (opcode tracing of several threads crashes CPython 3.12.3; line tracing does not.  So the functions to be looked at closely are given
# a line table in which every instruction is a line of its own: same instructions, finer events.)
FINE = 1000000


def _varint(n):
    res = bytearray()
    while n >= 64:
        res.append(64 | n & 63)
        n >>= 6
    res.append(n)
    return bytes(res)


def every_instruction(code):
    """the same code object, each instruction on line FINE + its offset; nested code objects likewise"""
    import dis
    ins = [i for i in dis.get_instructions(code)]
    starts, join = [], False
    for i in ins:
        if not join:
            starts.append(i.offset)
        join = i.opname == "EXTENDED_ARG"
    table = bytearray()
    line = code.co_firstlineno
    for a, b in zip(starts, starts[1:] + [len(code.co_code)]):
        units = (b - a) // 2
        delta = FINE + a - line
        line = FINE + a
        while units > 0:
            n = min(8, units)
            table.append(0x80 | 13 << 3 | n - 1)
            table += _varint(delta << 1 if delta >= 0 else -delta << 1 | 1)
            delta = 0
            units -= n
    consts = tuple(every_instruction(c) if hasattr(c, "co_code") else c for c in code.co_consts)
    return code.replace(co_linetable=bytes(table), co_consts=consts)


def refine(root, keys):
    """give the library functions whose key is in keys their fine line tables"""
    done = set()

    def visit(f):
        while f is not None:
            co = getattr(f, "__code__", None)
            if co is not None and id(f) not in done and co.co_filename.startswith(root) and co.co_filename[len(root):] + ":" + co.co_qualname in keys:
                done.add(id(f))
                f.__code__ = every_instruction(co)
            f = getattr(f, "__wrapped__", None)
    for n in list(sys.modules):
        if n == "pysolar" or n.startswith("pysolar."):
            for v in list(vars(sys.modules[n]).values()):
                visit(v)
                if isinstance(v, type) and v.__module__.split(".")[0] == "pysolar":
                    for m in vars(v).values():
                        visit(getattr(m, "__func__", m))


LOCAL_OPS = {"LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "STORE_FAST", "DELETE_FAST", "LOAD_CONST", "MAKE_FUNCTION", "BUILD_TUPLE", "BUILD_LIST", "BUILD_MAP",
             "BUILD_SET", "BUILD_CONST_KEY_MAP", "BUILD_STRING", "BUILD_SLICE", "POP_TOP", "COPY", "SWAP", "NOP", "RESUME", "CACHE", "PUSH_NULL", "IS_OP", "KW_NAMES",
             "LOAD_CLOSURE", "COPY_FREE_VARS", "MAKE_CELL", "RETURN_VALUE", "RETURN_CONST", "RETURN_GENERATOR", "FORMAT_VALUE", "UNARY_NOT", "UNARY_NEGATIVE", "END_FOR",
             "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "POP_JUMP_IF_TRUE", "POP_JUMP_IF_FALSE", "GET_ITER",
             "EXTENDED_ARG", "PUSH_EXC_INFO", "POP_EXCEPT", "RERAISE", "CHECK_EXC_MATCH"}


def visible(codes, words):
    """{key: set of lines} of the instructions that may touch state other threads see, in the finely traced code objects; `words` are the
    names of the globals that change.  Moving a preemption across an instruction that is not listed does not change any result."""
    import dis
    stored = {i.argval for co in codes.values() for i in dis.get_instructions(co) if i.opname in ("STORE_DEREF", "DELETE_DEREF")}
    res = {}
    for key, co in codes.items():
        lines = set()
        start = None
        for i in dis.get_instructions(co):
            if start is None:
                start = i.offset
            if i.opname == "EXTENDED_ARG":
                continue
            vis = i.opname not in LOCAL_OPS
            if i.opname == "LOAD_GLOBAL" and i.argval not in words:
                vis = False
            if i.opname in ("LOAD_DEREF", "LOAD_CLASSDEREF", "LOAD_FROM_DICT_OR_DEREF") and i.argval not in stored:
                vis = False
            if i.opname == "BINARY_OP" and not i.argrepr.endswith("="):
                vis = False
            if i.opname in ("UNPACK_SEQUENCE",):
                vis = False
            if vis:
                lines.add(FINE + start)
            start = None
        res[key] = lines
    return res
