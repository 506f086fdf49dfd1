"""A file layer the simulator owns: every operation on watched paths is a numbered event that can fail,
be short, be interrupted, or be the last thing the process does.

Bytes live in real files inside a scratch directory (C13) or are the repository's own, read-only (C09).
"""
import _io
import builtins
import errno
import io
import os

E = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "ENOENT": errno.ENOENT, "EMFILE": errno.EMFILE, "EACCES": errno.EACCES, "EINTR": errno.EINTR, "ENOMEM": errno.ENOMEM,
     "EDQUOT": errno.EDQUOT, "EROFS": errno.EROFS, "EBUSY": errno.EBUSY}

real = {n: getattr(os, n) for n in ("open", "read", "write", "pread", "pwrite", "close", "fsync", "fdatasync", "replace", "rename", "unlink", "remove", "truncate",
                                    "ftruncate", "link", "symlink", "sendfile", "copy_file_range", "writev", "readv", "lseek", "rmdir", "mkdir") if hasattr(os, n)}
real_open = builtins.open


class Killed(BaseException):
    """Used only where the process cannot really be killed (never raised in C13: it exits)."""


class SimFS:
    """watch(path) -> None | "watched"; the plan is {event number: fault}."""

    def __init__(self, watch, faults, short=0, on_event=None, deny=None):
        self.watch = watch
        self.faults = faults  # list of [event, kind]
        self.short = short  # longest piece a read or write transfers; 0: everything
        self.n = 0
        self.log = []
        self.fired = []
        self.fds = {}
        self.enabled = True
        self.on_event = on_event
        self.deny = deny

    # ---- events ---------------------------------------------------------------------------------
    def event(self, op, path):
        """Returns the fault to apply, if any."""
        if not self.enabled:
            return None
        k = self.n
        self.n += 1
        self.log.append(op)
        if self.on_event is not None:
            self.on_event(op)
        for f in self.faults:
            if f[0] == k or (len(f) > 2 and f[2] == "from" and k >= f[0] and self._same(f, op)):
                self.fired.append([k, op, f[1]])
                return f[1]
        return None

    def _same(self, f, op):
        """A persistent fault strikes operations that need the same resource."""
        return {"ENOSPC": op in ("write", "ftruncate", "fsync"), "EDQUOT": op in ("write", "fsync"), "EIO": True, "EMFILE": op == "open", "EROFS": op in ("write", "rename", "unlink")}.get(f[1], False)

    def raise_for(self, kind, path=None):
        if kind in E:
            raise OSError(E[kind], os.strerror(E[kind]) + " (simulated)", path)
        if kind == "KeyboardInterrupt":
            raise KeyboardInterrupt("simulated")
        if kind == "MemoryError":
            raise MemoryError("simulated")

    def kill(self):
        os._exit(77)

    def guard(self, op, path):
        """Event without payload: -> after() to call when the operation has been done."""
        k = self.event(op, path)
        if k == "kill":
            self.kill()
        if k == "kill_after":
            return self.kill
        if k is not None:
            self.raise_for(k, path)
        return None

    # ---- descriptors ------------------------------------------------------------------------------
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if dir_fd is not None or not self.watch(p):
            if self.deny and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and self.deny(p):
                raise PermissionError(errno.EACCES, "outside the scratch directory", p)
            return real["open"](path, flags, mode, dir_fd=dir_fd)
        after = self.guard("open", p)
        fd = real["open"](path, flags, mode)
        self.fds[fd] = p
        if after:
            after()
        return fd

    def os_close(self, fd):
        if fd in self.fds:
            p = self.fds.pop(fd)
            k = self.event("close", p)
            if k == "kill":
                self.kill()
            real["close"](fd)
            if k == "kill_after":
                self.kill()
            if k is not None:
                self.raise_for(k, p)
            return
        real["close"](fd)

    def os_read(self, fd, n):
        if fd in self.fds:
            after = self.guard("read", self.fds[fd])
            d = real["read"](fd, min(n, self.short) if self.short else n)
            if after:
                after()
            return d
        return real["read"](fd, n)

    def os_write(self, fd, data):
        if fd not in self.fds:
            return real["write"](fd, data)
        data = bytes(data)
        k = self.event("write", self.fds[fd])
        if k == "kill":
            self.kill()
        if k in ("kill_part", "short", "torn_EIO", "torn_ENOSPC"):
            part = data[: max(1, len(data) // 2)] if len(data) > 1 else data
            w = 0
            while w < len(part):
                w += real["write"](fd, part[w:])
            if k == "kill_part":
                self.kill()
            if k.startswith("torn_"):
                self.raise_for(k[5:], self.fds[fd])
            return len(part)
        if k == "kill_after":
            w = 0
            while w < len(data):
                w += real["write"](fd, data[w:])
            self.kill()
        if k is not None:
            self.raise_for(k, self.fds[fd])
        return real["write"](fd, data[: self.short] if self.short else data)

    def fd_op(self, name):
        fn = real[name]

        def f(fd, *a, **k):
            n = fd if isinstance(fd, int) else fd.fileno()
            if n in self.fds:
                after = self.guard(name, self.fds[n])
                r = fn(fd, *a, **k)
                if after:
                    after()
                return r
            return fn(fd, *a, **k)

        return f

    def path_op(self, name, label):
        fn = real[name]

        def f(path, *a, **k):
            if isinstance(path, int):
                return self.fd_op("ftruncate")(path, *a) if name == "truncate" else fn(path, *a, **k)
            ps = [os.fsdecode(os.fspath(path))] + [os.fsdecode(os.fspath(x)) for x in a[:1] if isinstance(x, (str, bytes, os.PathLike))]
            if any(self.watch(p) for p in ps):
                after = self.guard(label, ps[0])
                r = fn(path, *a, **k)
                if after:
                    after()
                return r
            if self.deny and any(self.deny(p) for p in ps):
                raise PermissionError(errno.EACCES, "outside the scratch directory", ps[0])
            return fn(path, *a, **k)

        return f

    def unsupported(self, name):
        fn = real[name]

        def f(a, b, *rest, **k):
            if a in self.fds or b in self.fds:
                raise OSError(errno.EINVAL, "not supported (simulated)")  # callers fall back to read and write
            return fn(a, b, *rest, **k)

        return f

    # ---- open() -----------------------------------------------------------------------------------
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file not in self.fds:
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            raw = Raw(self, file, mode, closefd)
        else:
            p = os.fsdecode(os.fspath(file))
            if not self.watch(p):
                if self.deny and any(c in mode for c in "wax+") and self.deny(p):
                    raise PermissionError(errno.EACCES, "outside the scratch directory", p)
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            base = mode.replace("b", "").replace("t", "")
            flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND, "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}
            k = base.replace("+", "")
            if len(k) != 1 or k not in flags or ("b" in mode and "t" in mode):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)  # let it complain
            fl = flags[k]
            if "+" in base:
                fl = (fl & ~(os.O_WRONLY | os.O_RDONLY)) | os.O_RDWR
            if opener is not None:
                fd = opener(file, fl | os.O_CLOEXEC)
                if fd not in self.fds:
                    self.fds[fd] = p
            else:
                fd = self.os_open(file, fl | os.O_CLOEXEC, 0o666)
            raw = Raw(self, fd, mode, True)
            raw.name = file
        if "b" in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in mode for c in "wax"):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, buffering == 1)
        t.mode = mode
        return t

    def install(self):
        builtins.open = io.open = _io.open = self.open
        os.open, os.close, os.read, os.write = self.os_open, self.os_close, self.os_read, self.os_write
        for n in ("fsync", "fdatasync", "ftruncate", "pread", "pwrite", "writev", "readv"):
            if n in real:
                setattr(os, n, self.fd_op(n))
        for n, lab in (("replace", "rename"), ("rename", "rename"), ("unlink", "unlink"), ("remove", "unlink"), ("truncate", "truncate"), ("link", "link"), ("symlink", "link"),
                       ("rmdir", "unlink"), ("mkdir", "mkdir")):
            setattr(os, n, self.path_op(n, lab))
        for n in ("sendfile", "copy_file_range"):
            if n in real:
                setattr(os, n, self.unsupported(n))

    def uninstall(self):
        builtins.open = io.open = _io.open = real_open
        for n, f in real.items():
            setattr(os, n, f)


class Raw(io.RawIOBase):
    def __init__(self, fs, fd, mode, closefd):
        self.fs, self.fd, self.closefd = fs, fd, closefd
        self._mode = mode
        self.name = fd
        self.mode = mode
        if "a" in mode:
            real["lseek"](fd, 0, 2)

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self.fd

    def readable(self):
        return "r" in self._mode or "+" in self._mode

    def writable(self):
        return any(c in self._mode for c in "wax+")

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        return real["lseek"](self.fd, off, whence)

    def tell(self):
        return real["lseek"](self.fd, 0, 1)

    def readinto(self, b):
        d = self.fs.os_read(self.fd, len(b))
        b[: len(d)] = d
        return len(d)

    def write(self, b):
        return self.fs.os_write(self.fd, bytes(b))

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self.fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self.closefd:
                    self.fs.os_close(self.fd)
