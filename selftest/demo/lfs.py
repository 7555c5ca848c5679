"""Drives the lazyfs binary built in /repo without mounting: this process plays the kernel on a socket that lazyfs takes for /dev/fuse.

Everything happens in a scratch directory made here (with the backing root in it) and removed at the end.
"""
import errno
import os
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time

BIN = os.path.join(os.getcwd(), "lazyfs/build/lazyfs")
LOOKUP, FORGET, GETATTR, SETATTR, READLINK, SYMLINK, MKNOD, MKDIR, UNLINK, RMDIR, RENAME, LINK, OPEN, READ, WRITE = \
    1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16
RELEASE, FSYNC, FLUSH, INIT, OPENDIR, READDIR, RELEASEDIR, ACCESS, CREATE, RENAME2 = 18, 20, 25, 26, 27, 28, 29, 34, 35, 45
FLAGS = 0x7F | 1 << 10 | 1 << 12 | 1 << 18 | 1 << 19


class Dead(Exception):
    pass


class Attr:
    def __init__(self, b):
        (self.ino, self.size, self.blocks, self.atime, self.mtime, self.ctime, self.atimensec, self.mtimensec, self.ctimensec,
         self.mode, self.nlink, self.uid, self.gid, self.rdev, self.blksize, self.flags) = struct.unpack("<QQQQQQIIIIIIIIII", b[:88])


class H:
    def __init__(self, node, fh, path, flags=0):
        self.node = node; self.fh = fh; self.path = path; self.flags = flags


class FS:
    def __init__(self, inject="", size="10MB", eviction=False, completed=True, extra="", binary=None, wrapper=None, env=None, manual=None,
                 logfile=False):
        """inject: toml text, in which ROOT stands for the backing directory"""
        self.work = tempfile.mkdtemp(prefix="lfsdemo_")
        self.root = os.path.join(self.work, "root")
        os.mkdir(self.root)
        self.fifo = os.path.join(self.work, "f.fifo")
        self.done = os.path.join(self.work, "d.fifo")
        cfg = os.path.join(self.work, "c.toml")
        with open(cfg, "w") as f:
            f.write('[faults]\nfifo_path="%s"\n' % self.fifo)
            if completed:
                f.write('fifo_path_completed="%s"\n' % self.done)
            f.write('[cache]\napply_eviction=%s\n' % ("true" if eviction else "false"))
            if manual:
                f.write("[cache.manual]\n" + manual + "\n")
            else:
                f.write('[cache.simple]\ncustom_size="%s"\nblocks_per_page=1\n' % size)
            f.write('[filesystem]\nlog_all_operations=false\n')
            if logfile:
                f.write('logfile="%s"\n' % os.path.join(self.work, "lfs.log"))
            f.write(extra + "\n" + inject.replace("ROOT", self.root) + "\n")
        self.cfg = cfg
        self.client, server = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for s in (self.client, server):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        self.out = open(os.path.join(self.work, "out.log"), "w+")
        argv = (wrapper or []) + [binary or BIN, "/dev/fd/%d" % server.fileno(), "--config-path", cfg, "-o", "modules=subdir", "-o", "subdir=" + self.root, "-f"]
        self.proc = subprocess.Popen(argv, cwd=self.work, stdin=subprocess.DEVNULL, stdout=self.out, stderr=subprocess.STDOUT, pass_fds=[server.fileno()],
                                     env=dict(os.environ, **(env or {})))
        server.close()
        self.uniq = 1
        self.lock = threading.Lock()
        self.wait = {}
        self.dead = False
        self.rd = threading.Thread(target=self._reader, daemon=True)
        self.rd.start()
        self.req(INIT, 0, struct.pack("<IIII", 7, 31, 131072, FLAGS), timeout=30)
        end = time.time() + 10
        while not os.path.exists(self.fifo) and time.time() < end:
            time.sleep(0.01)
        self.dfd = None
        if completed:
            while not os.path.exists(self.done) and time.time() < end:
                time.sleep(0.01)
            self.dfd = os.open(self.done, os.O_RDONLY | os.O_NONBLOCK)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()

    def stop(self):
        try:
            self.proc.send_signal(signal.SIGTERM)
            self.client.close()
            self.proc.wait(3)
        except Exception:
            self.proc.kill()
            self.proc.wait()
        if self.dfd is not None:
            os.close(self.dfd)
        self.out.close()
        shutil.rmtree(self.work, ignore_errors=True)

    def _reader(self):
        while True:
            try:
                b = self.client.recv(1 << 20)
            except OSError:
                b = b""
            if not b:
                with self.lock:
                    self.dead = True
                    for e in self.wait.values():
                        e[0].set()
                return
            _, err, u = struct.unpack_from("<IiQ", b)
            with self.lock:
                e = self.wait.pop(u, None)
            if e:
                e[1] = (err, b[16:])
                e[0].set()

    def req(self, op, node, body=b"", timeout=20, wait=True):
        with self.lock:
            if self.dead:
                raise Dead()
            u = self.uniq
            self.uniq += 1
            e = [threading.Event(), None]
            if wait:
                self.wait[u] = e
            try:
                self.client.send(struct.pack("<IIQQIIII", 40 + len(body), op, u, node, os.getuid(), os.getgid(), os.getpid(), 0) + body)
            except OSError:
                raise Dead()
        if not wait:
            return None
        if not e[0].wait(timeout):
            raise TimeoutError("no reply to request %d" % op)
        if e[1] is None:
            raise Dead()
        err, b = e[1]
        if err:
            raise OSError(-err, os.strerror(-err))
        return b

    # -- names
    def node(self, path):
        n = 1
        for c in [c for c in path.split("/") if c]:
            b = self.req(LOOKUP, n, c.encode() + b"\0")
            n = struct.unpack_from("<Q", b)[0]
            if n == 0:
                raise OSError(errno.ENOENT, path)
        return n

    def parent(self, path):
        d, b = os.path.split(path)
        return self.node(d), b.encode() + b"\0"

    def create(self, path, flags=os.O_RDWR, mode=0o644):
        p, n = self.parent(path)
        b = self.req(CREATE, p, struct.pack("<IIII", flags | os.O_CREAT, mode, 0o022, 0) + n)
        return H(struct.unpack_from("<Q", b)[0], struct.unpack_from("<Q", b, 128)[0], path, flags)

    def open(self, path, flags=os.O_RDWR):
        n = self.node(path)
        b = self.req(OPEN, n, struct.pack("<II", flags, 0))
        return H(n, struct.unpack_from("<Q", b)[0], path, flags)

    def read(self, h, off, n):
        return self.req(READ, h.node, struct.pack("<QQIIQII", h.fh, off, n, 0, 0, 0, 0))

    def write(self, h, off, data):
        b = self.req(WRITE, h.node, struct.pack("<QQIIQII", h.fh, off, len(data), 0, 0, 0, 0) + data)
        return struct.unpack_from("<I", b)[0]

    def fsync(self, h, data=False):
        self.req(FSYNC, h.node, struct.pack("<QII", h.fh, 1 if data else 0, 0))

    def flush(self, h):
        self.req(FLUSH, h.node, struct.pack("<QIIQ", h.fh, 0, 0, 0))

    def release(self, h):
        self.req(RELEASE, h.node, struct.pack("<QIIQ", h.fh, h.flags, 0, 0))

    def close(self, h):
        try:
            self.flush(h)
        except OSError:
            pass
        self.release(h)

    def setattr(self, node, valid, fh=0, size=0, mode=0, uid=0, gid=0, atime=(0, 0), mtime=(0, 0)):
        b = self.req(SETATTR, node, struct.pack("<IIQQQQQQIIIIIIII", valid, 0, fh, size, 0, atime[0], mtime[0], 0, atime[1], mtime[1], 0, mode, 0, uid, gid, 0))
        return Attr(b[16:])

    def truncate(self, path, size, h=None):
        return self.setattr(self.node(path), 8 | (64 if h else 0), fh=h.fh if h else 0, size=size)

    def chmod(self, path, mode):
        return self.setattr(self.node(path), 1, mode=mode)

    def chown(self, path, uid, gid):
        return self.setattr(self.node(path), 6, uid=uid, gid=gid)

    def utimens(self, path, atime, mtime):
        return self.setattr(self.node(path), 16 | 32, atime=atime, mtime=mtime)

    def getattr(self, path, h=None):
        b = self.req(GETATTR, self.node(path), struct.pack("<IIQ", 1 if h else 0, 0, h.fh if h else 0))
        return Attr(b[16:])

    def unlink(self, path):
        p, n = self.parent(path)
        self.req(UNLINK, p, n)

    def mkdir(self, path, mode=0o755):
        p, n = self.parent(path)
        self.req(MKDIR, p, struct.pack("<II", mode, 0) + n)

    def rmdir(self, path):
        p, n = self.parent(path)
        self.req(RMDIR, p, n)

    def rename(self, a, b):
        p, n = self.parent(a)
        q, o = self.parent(b)
        self.req(RENAME, p, struct.pack("<Q", q) + n + o)

    def link(self, a, b):
        n = self.node(a)
        q, o = self.parent(b)
        self.req(LINK, q, struct.pack("<Q", n) + o)

    def symlink(self, target, path):
        p, n = self.parent(path)
        self.req(SYMLINK, p, n + target.encode() + b"\0")

    def readlink(self, path):
        return self.req(READLINK, self.node(path)).decode()

    def access(self, path, mask):
        self.req(ACCESS, self.node(path), struct.pack("<II", mask, 0))

    def listdir(self, path):
        n = self.node(path)
        fh = struct.unpack_from("<Q", self.req(OPENDIR, n, struct.pack("<II", 0, 0)))[0]
        r, off = [], 0
        while True:
            b = self.req(READDIR, n, struct.pack("<QQIIQII", fh, off, 4096, 0, 0, 0, 0))
            if not b:
                break
            i = 0
            while i < len(b):
                _, off, ln, _ = struct.unpack_from("<QQII", b, i)
                r.append(b[i + 24:i + 24 + ln].decode())
                i += (24 + ln + 7) // 8 * 8
        self.req(RELEASEDIR, n, struct.pack("<QIIQ", fh, 0, 0, 0))
        return sorted(x for x in r if x not in (".", ".."))

    # -- convenience
    def put(self, path, data, sync=False):
        h = self.create(path)
        if data:
            assert self.write(h, 0, data) == len(data)
        if sync:
            self.fsync(h)
        self.close(h)

    def get(self, path, n=1 << 16):
        h = self.open(path, os.O_RDONLY)
        size = self.getattr(path).size
        r = b""
        while len(r) < min(size, n):
            x = self.read(h, len(r), min(size, n) - len(r))
            if not x:
                break
            r += x
        self.close(h)
        return r

    def backing(self, path):
        with open(os.path.join(self.root, path.lstrip("/")), "rb") as f:
            return f.read()

    def alive(self):
        return self.proc.poll() is None and not self.dead

    def cmd(self, text):
        f = os.open(self.fifo, os.O_WRONLY)
        os.write(f, (text + "\n").encode())
        os.close(f)

    def log(self):
        self.out.flush()
        with open(os.path.join(self.work, "out.log"), errors="replace") as f:
            return f.read()

    def logwait(self, text, timeout=5, count=1):
        end = time.time() + timeout
        while time.time() < end:
            if self.log().count(text) >= count:
                return True
            if not self.alive():
                return self.log().count(text) >= count
            time.sleep(0.02)
        return False

    def completions(self, timeout=0.3):
        end = time.time() + timeout
        b = b""
        while time.time() < end:
            try:
                x = os.read(self.dfd, 4096)
                b += x
            except BlockingIOError:
                pass
            time.sleep(0.01)
        return b

    def clear(self):
        """the clear-cache command, waiting until it has finished"""
        self.cmd("lazyfs::clear-cache")
        end = time.time() + 5
        b = b""
        while time.time() < end and b"finished::clear-cache" not in b:
            try:
                b += os.read(self.dfd, 4096)
            except BlockingIOError:
                pass
            time.sleep(0.01)
        if b"finished::clear-cache" not in b:
            raise TimeoutError("clear-cache")

    def barrier(self):
        """returns once all FIFO commands sent so far have been handled (a pause first: commands sent at once arrive as one)"""
        time.sleep(0.3)
        n = self.log().count("cache usage")
        self.cmd("lazyfs::display-cache-usage")
        self.logwait("cache usage", 5, n + 1)


def errno_of(f, *a, **k):
    try:
        f(*a, **k)
        return 0
    except OSError as e:
        return e.errno


def main(*tests):
    """each test raises (assert) when the property is broken"""
    bad = 0
    for t in tests:
        try:
            t()
            print("ok  ", t.__name__)
        except Exception as e:
            import traceback
            traceback.print_exc()
            print("FAIL", t.__name__, repr(e))
            bad = 1
    sys.exit(bad)
