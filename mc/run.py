"""Runs WLA DX tools on small closed worlds (a set of files plus a command list) and reads back what they made."""
import os, signal, shutil, sys, time, tempfile, resource

SCRATCH_BASE = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
TOOLS = {}          # name -> path, filled by the driver
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent", "TZ": "UTC",
       "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:handle_abort=0",
       "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=97"}

class Timeout(Exception):
    pass

def _alarm(sig, frm):
    raise Timeout()

class Res:
    """rcs: exit code per step (negative: signal; -999: timeout); outs: stdout+stderr per step; files: {name: bytes or None}"""
    __slots__ = ("rcs", "outs", "files")
    def __init__(self):
        self.rcs = []; self.outs = []; self.files = {}
    @property
    def ok(self):
        return all(r == 0 for r in self.rcs)

class World:
    """One scratch directory, reused for many runs by one worker."""
    def __init__(self, tag="w"):
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % tag, dir=SCRATCH_BASE)
        self.n = 0
        os.chdir(self.dir)
        self.limit = 10.0
        signal.signal(signal.SIGALRM, _alarm)
        self.out_path = os.path.join(self.dir, ".out")

    @classmethod
    def here(cls, limit=10.0):
        """The world of this worker process (the current directory), for modules that run programs while they make cases."""
        w = cls.__new__(cls)
        w.dir = os.getcwd(); w.n = 0; w.limit = limit; w.out_path = os.path.join(w.dir, ".out")
        w.guard()
        return w

    def guard(self):
        """Files are only ever written and removed in a scratch directory made by World() that is the current directory."""
        d = os.path.realpath(self.dir)
        if os.path.dirname(d) != os.path.realpath(SCRATCH_BASE) or not os.path.basename(d).startswith("vf-") or os.path.realpath(os.getcwd()) != d:
            raise RuntimeError("not a scratch directory of this framework, nothing is run or removed here: %r (in %r)" % (d, os.getcwd()))

    def close(self):
        self.guard()
        os.chdir("/")
        shutil.rmtree(self.dir, ignore_errors=True)

    def spawn(self, argv, env=None, stdin=None, limit=None):
        fa = [(os.POSIX_SPAWN_OPEN, 0, stdin or "/dev/null", os.O_RDONLY, 0),
              (os.POSIX_SPAWN_OPEN, 1, self.out_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600),
              (os.POSIX_SPAWN_DUP2, 1, 2)]
        pid = os.posix_spawn(argv[0], argv, env or ENV, file_actions=fa)
        st = None
        try:
            signal.setitimer(signal.ITIMER_REAL, limit or self.limit)
            try:
                _, st = os.waitpid(pid, 0)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Timeout:
            if st is None:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                try:
                    os.waitpid(pid, 0)
                except ChildProcessError:
                    pass
                return -999
        return os.waitstatus_to_exitcode(st)

    def clean(self):
        self.guard()
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.unlink(p)
                except OSError:
                    pass

    def run(self, prog, limit=None):
        """prog: dict(files={name: str|bytes}, steps=[(tool, [args])], reads=[names], env, keep_going)"""
        self.clean()
        for n, data in prog["files"].items():
            if "/" in n:
                os.makedirs(os.path.dirname(n), exist_ok=True)
            if isinstance(data, str):
                data = data.encode("utf-8", "surrogateescape")
            fd = os.open(n, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.write(fd, data) if len(data) < 65536 else _write_all(fd, data)
            os.close(fd)
        r = Res()
        for step in prog["steps"]:
            tool, args = step[0], step[1]
            exe = TOOLS.get(tool, tool)
            env = step[2] if len(step) > 2 else prog.get("env")      # a step may have an environment of its own
            rc = self.spawn([exe] + list(args), env=env, stdin=prog.get("stdin"), limit=limit)
            if rc == -999 and limit is None:
                # a slow machine is not a hang: run the same step again, alone, with a long limit
                rc = self.spawn([exe] + list(args), env=env, stdin=prog.get("stdin"), limit=90.0)
            r.rcs.append(rc)
            with open(self.out_path, "rb") as f:
                r.outs.append(f.read(200000))
            if rc != 0 and not prog.get("keep_going"):
                break
        for n in prog.get("reads", ()):
            try:
                with open(n, "rb") as f:
                    r.files[n] = f.read()
            except OSError:
                r.files[n] = None
        return r

def _write_all(fd, data):
    mv = memoryview(data)
    while mv:
        k = os.write(fd, mv)
        mv = mv[k:]

# ---------------------------------------------------------------- common little programs
def memmap(slotsize=0x100, banks=1, extra="", start=0):
    return (".MEMORYMAP\nDEFAULTSLOT 0\nSLOTSIZE $%x\nSLOT 0 $%x\n.ENDME\n.ROMBANKSIZE $%x\n.ROMBANKS %d\n%s"
            % (slotsize, start, slotsize, banks, extra))

def one(cpu, src, asm_args=(), link_args=("-r",), files=None, reads=("o.bin",), link="[objects]\na.o\n"):
    f = {"a.s": src, "l": link}
    if files:
        f.update(files)
    return {"files": f, "steps": [(cpu, list(asm_args) + ["-o", "a.o", "a.s"]), ("wlalink", list(link_args) + ["l", "o.bin"])],
            "reads": list(reads)}

def asm_only(cpu, src, asm_args=(), files=None, reads=()):
    f = {"a.s": src}
    if files:
        f.update(files)
    return {"files": f, "steps": [(cpu, list(asm_args) + ["-o", "a.o", "a.s"])], "reads": list(reads)}

def multi(cpus_srcs, link_args=("-r",), link=None, files=None, reads=("o.bin",), asm_args=()):
    """cpus_srcs: [(cpu, name, src, 'o' or 'l')]"""
    f, steps, objs = dict(files or {}), [], []
    for cpu, name, src, kind in cpus_srcs:
        f[name + ".s"] = src
        steps.append((cpu, list(asm_args) + ["-" + kind, name + ".o", name + ".s"]))
        objs.append(name + ".o")
    f["l"] = link if link is not None else "[objects]\n" + "\n".join(objs) + "\n"
    steps.append(("wlalink", list(link_args) + ["l", "o.bin"]))
    return {"files": f, "steps": steps, "reads": list(reads)}
