"""Build and drive the LD_PRELOAD seam (iofault.c)."""
import ctypes
import errno
import mmap
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OPS = ['', 'openw', 'openr', 'write', 'read', 'close', 'rename', 'mkdir', 'unlink',
       'rmdir', 'fsync', 'trunc', 'link']
OP = {n: i for i, n in enumerate(OPS) if n}
ACTS = ['none', 'err', 'short', 'crash_before', 'crash_after', 'torn', 'eof']
ACT = {n: i for i, n in enumerate(ACTS)}
ALL_OPS = sum(1 << i for i in range(1, len(OPS)))
MUTATING = sum(1 << OP[n] for n in ('openw', 'write', 'close', 'rename', 'mkdir', 'unlink',
                                    'rmdir', 'trunc', 'link', 'fsync'))


def build():
    d = tempfile.mkdtemp(prefix='amatshim-')
    so = os.path.join(d, 'iofault.so')
    r = subprocess.run(['gcc', '-O2', '-w', '-fPIC', '-shared', '-o', so,
                        os.path.join(HERE, 'iofault.c'), '-ldl'],
                       capture_output=True, text=True)
    if r.returncode:
        raise SystemExit('cannot build the I/O seam: ' + r.stderr)
    return so


def cleanup():
    so = os.environ.get('SIM_SHIM')
    if so and os.path.basename(os.path.dirname(so)).startswith('amatshim-'):
        shutil.rmtree(os.path.dirname(so), ignore_errors=True)


class Rec(ctypes.Structure):
    _fields_ = [('op', ctypes.c_int32), ('act', ctypes.c_int32), ('result', ctypes.c_int32),
                ('tracked', ctypes.c_int32), ('size', ctypes.c_int64), ('path', ctypes.c_char * 232)]


HEAD = 32


class Log:
    """Operation log in shared memory: readable after the process has died."""

    def __init__(self, cap=6000):
        self.cap = cap
        self.mm = mmap.mmap(-1, HEAD + cap * ctypes.sizeof(Rec))
        self.head = (ctypes.c_int64 * 4).from_buffer(self.mm)
        self.head[1] = cap

    @property
    def addr(self):
        return ctypes.addressof(self.head)

    @property
    def n(self):
        return self.head[0]

    @property
    def dead(self):
        return bool(self.head[2])

    def records(self):
        arr = (Rec * self.cap).from_buffer(self.mm, HEAD)
        out = []
        for i in range(min(self.n, self.cap)):
            r = arr[i]
            out.append({'op': OPS[r.op], 'act': ACTS[r.act], 'result': r.result,
                        'tracked': bool(r.tracked), 'size': r.size,
                        'path': r.path.decode('utf-8', 'replace')})
        return out

    def reset(self):
        self.head[0] = 0
        self.head[2] = 0


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['SIM_SHIM'])
        _lib.sim_arm.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int]
        _lib.sim_plan.argtypes = [ctypes.c_int64, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        _lib.sim_fired.restype = ctypes.c_int64
        _lib.sim_count.restype = ctypes.c_int64
        _lib.sim_clock_reads.restype = ctypes.c_int64
        _lib.sim_clock.argtypes = [ctypes.c_int64] * 4
        _lib.sim_entropy.argtypes = [ctypes.c_uint64]
    return _lib


def arm(log, prefix, plan=(), log_all=False, entropy=0x5eed):
    """plan: [{'at': k, 'ops': mask or list, 'act': name, 'arg': n}]"""
    L = lib()
    L.sim_entropy(entropy)
    L.sim_arm(log.addr if log else None, prefix.encode(), b'', 1 if log_all else 0)
    for p in plan:
        ops = p.get('ops', ALL_OPS)
        if not isinstance(ops, int):
            ops = sum(1 << OP[o] for o in ops)
        arg = p.get('arg', 0)
        if isinstance(arg, str):
            arg = getattr(errno, arg)
        L.sim_plan(p['at'], ops, ACT[p['act']], arg)


def disarm():
    lib().sim_disarm()
