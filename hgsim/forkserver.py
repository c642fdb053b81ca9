"""Pristine interpreter that runs every world in a fork of itself.

The server imports the library once and never draws: each world (or reference
draw) starts from the state of a fresh process.  Requests and replies are
length-prefixed pickles over stdin/stdout.
"""
import gc
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time

WALL = 150.0


def _read_exact(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, min(1 << 20, n - len(out)))
        if not b:
            raise EOFError
        out += b
    return out


def read_message(fd):
    n, = struct.unpack('>Q', _read_exact(fd, 8))
    return pickle.loads(_read_exact(fd, n))


def send(fd, b):
    while b:
        b = b[os.write(fd, b):]


def write_message(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    send(fd, struct.pack('>Q', len(b)) + b)


def preload():
    import warnings
    warnings.simplefilter('ignore')
    from . import kernel
    import hypothesis  # noqa: F401
    import hypothesis.strategies  # noqa: F401
    import hypothesis.internal.conjecture.engine  # noqa: F401
    import hypothesis.internal.conjecture.providers  # noqa: F401
    import hypothesis.internal.observability  # noqa: F401
    import hypothesis.strategies._internal.utils  # noqa: F401
    import bentley_ottmann.planar  # noqa: F401
    import decision.partition  # noqa: F401
    import dendroid.red_black  # noqa: F401
    import ground.context  # noqa: F401
    import locus.segmental  # noqa: F401
    kernel.install_lock_seam()
    import hypothesis_geometry.planar  # noqa: F401
    kernel.make_data_class()
    from . import conflict
    conflict.prepare(kernel.PACKAGE)
    # no constants harvested from the source files lying around
    from hypothesis.internal.conjecture import providers
    none = type(providers._local_constants)()
    providers._get_local_constants = lambda: none
    from . import provider, session  # noqa: F401


def run_job(job):
    from . import kernel
    kind = job['kind']
    if kind == 'world':
        return kernel.execute(job['world'])
    if kind == 'session':
        from . import session
        return session.execute(job['session'])
    if kind == 'many':
        from . import kernel as k
        return [k.execute(w) for w in job['worlds']]
    raise ValueError(kind)


def serve():
    """Parent: forks and waits, and does nothing else.

    Jobs are read and answered by the forks, so that the state every world
    starts from is the same whatever ran before it.
    """
    rfd, wfd = os.dup(0), os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(2, 1)
    preload()
    gc.collect()
    gc.freeze()
    write_message(wfd, {'ready': True})
    while True:
        select.select([rfd], [], [])
        pid = os.fork()
        if pid == 0:
            child(rfd, wfd)
        _, status = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(status)
        if code == CLOSED:
            return
        if code != 0:
            write_message(wfd, {'error': f'world process died, status {code}',
                                'died': code})


CLOSED = 77


def child(rfd, wfd):
    code = 3
    try:
        import traceback
        try:
            job = read_message(rfd)
        except EOFError:
            os._exit(CLOSED)
        try:
            out = run_job(job)
            if job.get('cpu'):
                import resource
                out['cpu'] = resource.getrusage(resource.RUSAGE_SELF).ru_utime
        except BaseException:
            out = {'error': traceback.format_exc()}
        raw = pickle.dumps(out, protocol=4)
        send(wfd, struct.pack('>Q', len(raw)) + raw)
        code = 0
    except BaseException:
        pass
    os._exit(code)


def can_fix_addresses():
    """Whether processes can be started with a fixed address space layout."""
    global _FIXED
    if _FIXED is None:
        try:
            _FIXED = subprocess.run(
                ['setarch', '-R', 'true'], stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            ).returncode == 0
        except OSError:
            _FIXED = False
    return _FIXED


_FIXED = None
REPO = os.environ.get('HGSIM_REPO', '/repo')


class Server:
    """Client side of a fork server living in its own interpreter."""

    def __init__(self, hashseed=0):
        self.hashseed = hashseed
        self.proc = None
        self.restarts = 0

    def start(self):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = {'PYTHONHASHSEED': str(self.hashseed), 'LC_ALL': 'C.UTF-8',
               'PYTHONDONTWRITEBYTECODE': '1', 'PATH': os.defpath,
               'HYPOTHESIS_STORAGE_DIRECTORY': '/nonexistent/hgsim',
               'MALLOC_MMAP_THRESHOLD_': '262144',
               'PYTHONPATH': here + os.pathsep + REPO}
        prefix = ['setarch', '-R'] if can_fix_addresses() else []
        self.proc = subprocess.Popen(
            prefix + [sys.executable, '-W', 'ignore', '-m',
                      'hgsim.forkserver'],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=here,
            start_new_session=True)
        self.rfd, self.wfd = self.proc.stdout.fileno(), self.proc.stdin.fileno()
        self.receive(time.monotonic() + 120)

    def receive(self, deadline):
        def exact(n):
            out = b''
            while len(out) < n:
                left = deadline - time.monotonic()
                ready = select.select([self.rfd], [], [], max(0, left))[0]
                if not ready:
                    raise TimeoutError
                b = os.read(self.rfd, min(1 << 20, n - len(out)))
                if not b:
                    raise EOFError('fork server ended')
                out += b
            return out
        n, = struct.unpack('>Q', exact(8))
        return pickle.loads(exact(n))

    def run(self, job):
        if self.proc is None:
            self.start()
        write_message(self.wfd, job)
        try:
            return self.receive(time.monotonic() + job.get('wall', WALL))
        except TimeoutError:
            self.kill()
            return {'error': 'wall clock limit', 'wall': True}

    def world(self, w, wall=WALL):
        return self.run({'kind': 'world', 'world': w, 'wall': wall})

    def kill(self):
        if self.proc is None:
            return
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        self.proc.stdin.close()
        self.proc.stdout.close()
        self.proc = None

    close = kill


if __name__ == '__main__':
    serve()
