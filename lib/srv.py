"""Client for the jpsrv fork server."""
import os, struct, subprocess, tempfile, shutil, atexit

NULL = 0xFFFFFFFF
NOPP = 0xFFFFFFFE

class Reply:
    __slots__ = ("status", "data", "log")
    def __init__(self, status, data, log):
        self.status, self.data, self.log = status, data, log
    @property
    def ok(self): return self.status == 0
    def why(self):
        s = self.status
        if s == 0: return "ok"
        if s == 0x20000: return "wall timeout"
        if s & 0x10000:
            n = s & 0xffff
            return "hang (CPU limit)" if n in (24, 9) else "signal %d" % n
        if "AddressSanitizer" in self.log:
            for line in self.log.splitlines():
                if line.startswith("SUMMARY:"):
                    return "memory error: " + line[9:].strip()
            return "AddressSanitizer report"
        if "runtime error:" in self.log:
            return "memory error: " + self.log[self.log.index("runtime error:"):].splitlines()[0]
        if "ThreadSanitizer" in self.log:
            for line in self.log.splitlines():
                if line.startswith("SUMMARY:"):
                    return "race: " + line[9:].strip()
        return "exit %d" % s

class Reader:
    def __init__(self, b): self.b, self.o = b, 0
    def more(self): return self.o < len(self.b)
    def u32(self):
        v, = struct.unpack_from("<I", self.b, self.o); self.o += 4; return v
    def i32(self):
        v, = struct.unpack_from("<i", self.b, self.o); self.o += 4; return v
    def i64(self):
        v, = struct.unpack_from("<q", self.b, self.o); self.o += 8; return v
    def f64(self):
        v, = struct.unpack_from("<d", self.b, self.o); self.o += 8; return v
    def s(self):
        n = self.u32()
        if n == NULL: return None
        v = self.b[self.o:self.o + n]; self.o += n
        if len(v) != n: raise struct.error("short")
        return v

VARIANT_ENV = {"pat": {"MALLOC_PERTURB_": "165"}, "zero": {"MALLOC_PERTURB_": "0"},
    "leak": {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.arena_max=1"}}     # contents of fresh and freed heap memory
def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.access(d, os.W_OK): return d
    return None

class Server:
    def __init__(self, bindir, cpu=20, env=None):
        self.dir = tempfile.mkdtemp(prefix="jpsrv.", dir=scratch_root())
        self.bin = os.path.join(bindir, "jpsrv")
        self.cpu = cpu
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=1048576:malloc_fill_byte=190"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0"
        e["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1"
        e.update(env or {})
        self.env = e
        self.p = None
        atexit.register(self.close)
    def start(self):
        self.p = subprocess.Popen([self.bin, self.dir, str(self.cpu)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env)
    def close(self):
        if self.p:
            try: self.p.stdin.close()
            except Exception: pass
            self.p.kill(); self.p.wait(); self.p.stdout.close(); self.p = None
        shutil.rmtree(self.dir, ignore_errors=True)
    def call(self, *fields):
        if self.p is None: self.start()
        b = bytearray()
        for f in fields:
            if isinstance(f, str): f = f.encode("latin-1")
            elif isinstance(f, int): f = str(f).encode()
            b += struct.pack("<I", len(f)) + f
        self.p.stdin.write(struct.pack("<I", len(b)) + bytes(b)); self.p.stdin.flush()
        h = self._read(8)
        st, n = struct.unpack("<II", h)
        data = self._read(n)
        log = ""
        if st != 0:
            try: log = open(os.path.join(self.dir, "stderr.log"), errors="replace").read(20000)
            except OSError: pass
        return Reply(st, data, log)
    def _read(self, n):
        d = self.p.stdout.read(n) if n else b""
        if len(d) != n: raise RuntimeError("jpsrv died")
        return d

def outputs(reply, nops=None):
    """Outputs of a 'run' request: list of None | list of bytes; short list if the child died."""
    r = Reader(reply.data); res = []
    try:
        while r.more():
            n = r.u32()
            if n == NULL: res.append(None); continue
            if n == NOPP: res.append("NOPP"); continue
            res.append([r.s() for _ in range(n)])
    except struct.error:
        pass
    return res
