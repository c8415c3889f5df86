"""Picture of everything process-wide that a library could touch (check C39); imports nothing of the library under check."""
import atexit
import builtins
import calendar
import copyreg
import datetime
import decimal
import faulthandler
import functools
import gc
import itertools
import json
import locale
import logging
import math
import os
import random
import resource
import signal
import sys
import threading
import time
import tracemalloc
import warnings

import numpy as np


def picture():
    """process-wide settings"""
    return dict(environ=dict(os.environ), cwd=os.getcwd(), path=list(sys.path), filters=list(warnings.filters), showwarning=warnings.showwarning, errstate=np.geterr(),
                errcall=np.geterrcall(), print=repr(np.get_printoptions()), random=random.getstate(), nprandom=repr(np.random.get_state()[1][:8]) + repr(np.random.get_state()[2:]),
                locale=locale.setlocale(locale.LC_ALL), tz=time.tzname, decimal=repr(decimal.getcontext()), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(),
                threads=[t.name for t in threading.enumerate()], signals=[signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
                streams=(sys.stdout, sys.stderr, sys.stdin), hooks=(sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile()), logging=(logging.root.level, list(logging.root.handlers)),
                fds=sorted(os.listdir("/proc/self/fd")), gc=(gc.isenabled(), gc.get_threshold()), builtins=sorted(vars(builtins)), children=core_children(), exit=atexit._ncallbacks(), loggers=sorted(logging.root.manager.loggerDict), warn=(warnings.warn, warnings.formatwarning),
                more=(sys.unraisablehook, threading.excepthook, list(gc.callbacks), list(sys.meta_path), list(sys.path_hooks), len(copyreg.dispatch_table)),
                modules=[sorted((k, id(v)) for k, v in vars(m).items()) for m in (math, time, datetime, calendar, random, functools, itertools, json)] + [sorted((k, id(vars(np)[k])) for k in np.__all__ if k in vars(np) and not isinstance(vars(np)[k], type(np)))], limits=[resource.getrlimit(getattr(resource, r)) for r in sorted(dir(resource)) if r.startswith("RLIMIT_")], nice=os.getpriority(os.PRIO_PROCESS, 0), digits=sys.get_int_max_str_digits(),
                switches=(faulthandler.is_enabled(), tracemalloc.is_tracing(), sys.dont_write_bytecode, list(sys.argv), list(sys.warnoptions), np.getbufsize(), umask(), sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
                          signal.getitimer(signal.ITIMER_REAL)[0] > 0, signal.getsignal(signal.SIGHUP), threading.gettrace(), threading.getprofile(), sys.getdlopenflags(), threading.stack_size(), sorted(os.sched_getaffinity(0))))


def umask():
    v = os.umask(0)
    os.umask(v)
    return v


def core_children():
    try:
        with open("/proc/self/task/%d/children" % os.getpid()) as f:
            return f.read()
    except OSError:
        return ""


def settings():
    """what can be compared before and after the library is there"""
    gc.collect()
    p = picture()
    return {k: repr(v) for k, v in p.items() if k not in ("fds", "loggers")}


