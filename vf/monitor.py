"""The monitor: wrappers around the public functions of meshless.

Every call made while the monitor is installed (by a workload, by the repository's own
tests, or by one library module calling another) becomes an Event that is handed to the
subscribed oracles.  The wrappers only observe: arguments, results and exceptions pass
through unchanged.
"""
import collections, functools, inspect, itertools, sys, threading, time
import numpy as np
from . import env

# event name -> (module, attribute); optional ones are private-ish and may disappear
TARGETS = {
    'read_mesh': ('meshless.espim.read_mesh', 'read_mesh'),
    'read_delaunay': ('meshless.espim.read_mesh', 'read_delaunay'),
    'calc_k0': ('meshless.espim.plate2d_calc_k0', 'calc_k0'),
    'add_k0s': ('meshless.espim.plate2d_add_k0s', 'add_k0s'),
    'calc_kG': ('meshless.espim.plate2d_calc_kG', 'calc_kG'),
    'interp2': ('meshless.interpolate', 'interpolate_lagrange_2D'),
    'interp3': ('meshless.interpolate', 'interpolate_lagrange_3D'),
    'pow2mul': ('meshless.dev.sympytools', 'pow2mul'),
    'sparse': ('meshless.dev.sympytools', 'mprint_as_sparse'),
    'dense': ('meshless.dev.sympytools', 'mprint_as_dense'),
    'array': ('meshless.dev.sympytools', 'mprint_as_array'),
    'area_of_polygon': ('meshless.utils', 'area_of_polygon'),
    'unitvec': ('meshless.utils', 'unitvec'),
    'getMid': ('meshless.utils', 'getMid'),
}
HELPERS = ('area_of_polygon', 'unitvec', 'getMid')

class Event(object):
    __slots__ = ('name', 'args', 'ret', 'exc', 'pre', 'fp', 'tid', 'seq', 'depth')

class Monitor(object):
    def __init__(self):
        self.pre = collections.defaultdict(list)    # name -> fn(args)-> state kept for post
        self.post = collections.defaultdict(list)   # name -> fn(event)
        self.counts = collections.Counter()
        self.excs = collections.Counter()
        self.fpcounts = collections.Counter()
        self.trap_fp = False
        self.delay = None                           # fn(name) called before/after each call
        self.trace = None                           # list of (seq, tid, name) when recording
        self._seq = itertools.count()
        self._local = threading.local()
        self._undo = []

    # -- installation -------------------------------------------------------
    def install(self, helpers=False):
        env.load()
        for name, (modname, attr) in TARGETS.items():
            if name in HELPERS and not helpers:
                continue
            m = env.mod(modname)
            orig = getattr(m, attr, None) if name in HELPERS else getattr(m, attr)
            if orig is None:
                continue
            if getattr(orig, '_vf_orig', None) is not None:
                continue
            w = self._wrap(name, orig)
            for mm in list(sys.modules.values()):
                mn = getattr(mm, '__name__', '')
                if not (mn == 'meshless' or mn.startswith('meshless.')):
                    continue
                for k, v in list(vars(mm).items()):
                    if v is orig:
                        setattr(mm, k, w)
                        self._undo.append((mm, k, orig))
        return self

    def uninstall(self):
        for mm, k, orig in reversed(self._undo):
            setattr(mm, k, orig)
        self._undo = []

    def _wrap(self, name, orig):
        sig = inspect.signature(orig)
        mon = self
        @functools.wraps(orig)
        def call(*a, **kw):
            if getattr(mon._local, 'off', False):
                return orig(*a, **kw)
            ev = Event()
            ev.name, ev.exc, ev.ret, ev.fp = name, None, None, []
            ev.tid = threading.get_ident()
            ev.seq = next(mon._seq)
            ev.pre = {}
            ev.depth = getattr(mon._local, 'depth', 0)
            try:
                b = sig.bind(*a, **kw)
                b.apply_defaults()
                ev.args = dict(b.arguments)
            except TypeError:
                ev.args = None
            mon.counts[name] += 1
            if mon.trace is not None:
                mon.trace.append((ev.seq, ev.tid, 'call', name))
            if ev.args is not None:
                for i, fn in enumerate(mon.pre[name]):
                    with mon.off():
                        ev.pre[getattr(fn, 'key', fn)] = fn(ev.args)
            if mon.delay:
                mon.delay(name)
            mon._local.depth = ev.depth + 1
            try:
                if mon.trap_fp:
                    def flag(kind, _):
                        ev.fp.append(kind)
                    with np.errstate(divide='call', invalid='call', over='call', under='ignore', call=flag):
                        ev.ret = orig(*a, **kw)
                else:
                    ev.ret = orig(*a, **kw)
                return ev.ret
            except BaseException as e:
                ev.exc = e
                mon.excs[type(e).__name__] += 1
                raise
            finally:
                mon._local.depth = ev.depth
                if mon.delay:
                    mon.delay(name)
                for k in ev.fp:
                    mon.fpcounts[k] += 1
                if mon.trace is not None:
                    mon.trace.append((ev.seq, ev.tid, 'ret', name))
                for fn in mon.post[name]:
                    with mon.off():
                        fn(ev)
        call._vf_orig = orig
        return call

    def off(self):
        return _Off(self._local)

    def subscribe(self, name, post=None, pre=None):
        if pre:
            self.pre[name].append(pre)
        if post:
            self.post[name].append(post)

    def reset_subscribers(self):
        self.pre.clear()
        self.post.clear()

class _Off(object):
    def __init__(self, local):
        self.local = local
    def __enter__(self):
        self.old = getattr(self.local, 'off', False)
        self.local.off = True
    def __exit__(self, *a):
        self.local.off = self.old
