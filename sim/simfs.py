"""
In-memory disk with injected faults. While active, the code under test sees it as its working directory.

Only the raw (system call) layer is simulated; Python's own buffering and text layers run for real on top of it, so a
short or failed write meets them as it would on a real disk. The fault plan is explicit:
{"blksize": bytes per buffer, "capacity": bytes or None, "faults": [[op, n, kind, k]...]}
where op is open/write/read/close/rename, n counts the calls of that operation (0 = first), and kind is
  short   only k bytes are transferred (at least 1)
  eio, enospc  the call fails with that error (write: after a short write of k bytes)
  lost    (close) the last write is lost and the close reports an I/O error
  crash   the process dies after k bytes reached the disk
What a process wrote before it died stays; anything it does afterwards never reaches the disk.
"""
import builtins
import errno
import gc
import io
import os
import stat as stat_m

ROOT = '/simfs'
FD0 = 1000000
# files that a process can have open
HANDLES = 48


class SimCrash(BaseException):
    """The simulated process is killed"""


class Raw(io.RawIOBase):
    def __init__(self, fs, path, inode, readable, writable, append, epoch):
        super().__init__()
        self.fs, self.path, self.inode = fs, path, inode
        self._r, self._w, self._a = readable, writable, append
        self.pos = 0
        self.epoch = epoch
        self.pending = None
        self.last = None
        self.name = path
        self.fd = None
        self.life = fs.life
        fs.handles[self.life] += 1

    # the process that opened this file is dead
    def _dead(self):
        return self.epoch != self.fs.epoch or self.fs.crashed

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        base = 0 if whence == 0 else self.pos if whence == 1 else len(self.inode)
        self.pos = max(0, base + off)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        if self._dead():
            return size
        del self.inode[size:]
        if len(self.inode) < size:
            self.inode.extend(bytes(size - len(self.inode)))
        return size

    def isatty(self):
        return False

    def fileno(self):
        if self.fd is None:
            self.fd = self.fs.new_fd(self)
        return self.fd

    def readinto(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        n = min(len(b), max(0, len(self.inode) - self.pos))
        kind, k = self.fs.fault('read')
        if kind == 'short' and n > 1:
            self.fs.fired('short-read')
            n = max(1, min(k, n - 1))
        elif kind == 'eio':
            self.fs.fired('read-error')
            raise OSError(errno.EIO, 'Input/output error', self.path)
        elif kind == 'crash':
            self.fs.die('crash-in-read')
        b[:n] = self.inode[self.pos:self.pos + n]
        self.pos += n
        return n

    def write_error(self, kind):
        self.fs.fired('write-error' if kind == 'eio' else 'disk-full')
        e = getattr(errno, kind.upper())
        return OSError(e, os.strerror(e), self.path)

    def write(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        data = bytes(b)
        if self._dead():
            return len(data)
        if self._a:
            self.pos = len(self.inode)
        if not data:
            return 0
        n = len(data)
        kind, k = self.fs.fault('write')
        if self.pending:
            kind, k, self.pending = self.pending, 0, None
        err = None
        if kind == 'short' and n > 1:
            self.fs.fired('short-write')
            n = max(1, min(k, n - 1))
        elif kind in ('eio', 'enospc', 'edquot'):
            # as in a kernel: what fits is reported as a short write, the next call gets the error
            n = min(k, n - 1)
            if n:
                self.pending = kind
            else:
                err = self.write_error(kind)
        elif kind == 'crash':
            n = min(k, n)
        room = self.fs.room()
        if room is not None and n > max(0, room - 0):
            grow = self.pos + n - len(self.inode)
            if grow > room:
                n = max(0, n - (grow - room))
                if n == 0 and err is None:
                    self.fs.fired('disk-full')
                    err = OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self.path)
        old = bytes(self.inode[self.pos:self.pos + n])
        if n:
            if len(self.inode) < self.pos:
                self.inode.extend(bytes(self.pos - len(self.inode)))
            self.inode[self.pos:self.pos + n] = data[:n]
            self.last = (self.pos, n, old)
            self.pos += n
            self.fs.written += n
        if kind == 'crash':
            self.fs.die('crash-in-write')
        if err:
            raise err
        return n

    def close(self):
        if self.closed:
            return
        super().close()
        self.fs.handles[self.life] -= 1
        if self.fd is not None:
            self.fs.fds.pop(self.fd, None)
        if self._dead() or not self._w:
            return
        kind, k = self.fs.fault('close')
        if kind == 'lost':
            self.fs.fired('write-lost-on-close')
            if self.last:
                pos, n, old = self.last
                if pos + n == len(self.inode):
                    del self.inode[pos:]
                    self.inode.extend(old)
                else:
                    self.inode[pos:pos + n] = (old + bytes(n))[:n]
            raise OSError(errno.EIO, 'Input/output error', self.path)
        if kind == 'eio':
            self.fs.fired('close-error')
            raise OSError(errno.EIO, 'Input/output error', self.path)
        if kind == 'crash':
            self.fs.die('crash-in-close')


class SimFS(object):
    def __init__(self, ctx=None, plan=None):
        self.files = {}
        self.dirs = {ROOT}
        self.ctx = ctx
        self.fds = {}
        self.next_fd = FD0
        self.epoch = 0
        self.life = 0
        self.handles = [0]
        self.crashed = False
        self.written = 0
        self.hard = 0
        self.saved = None
        self.escapes = []
        self.arm(plan)

    # ------------------------------------------------------------------ faults
    def arm(self, plan):
        plan = plan or {}
        self.blksize = max(1, plan.get('blksize') or 8192)
        self.capacity = plan.get('capacity')
        self.plan = {}
        for op, n, kind, k in plan.get('faults') or []:
            self.plan[(op, n)] = (kind, k)
        self.counts = {}
        self.hard = 0
        self.soft = 0

    def restart(self):
        """The machine keeps its disk; a new process starts"""
        self.epoch += 1
        if self.crashed:
            # killed: the next process has no open files
            self.life += 1
            self.handles.append(0)
        self.crashed = False
        self.arm(None)

    def fault(self, op):
        n = self.counts.get(op, 0)
        self.counts[op] = n + 1
        return self.plan.get((op, n), (None, 0))

    def fired(self, name):
        if name.startswith('short'):
            self.soft += 1
        else:
            self.hard += 1
        if self.ctx:
            self.ctx.fault(name)
            self.ctx.log('fault', name)

    def die(self, name):
        self.fired(name)
        self.crashed = True
        raise SimCrash(name)

    def room(self):
        if self.capacity is None:
            return None
        return max(0, self.capacity - sum(len(x) for x in self.files.values()))

    # ------------------------------------------------------------------ paths
    def resolve(self, path):
        """-> virtual path or None (a real one)"""
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(p if p.startswith('/') else ROOT + '/' + p)
        if p == ROOT or p.startswith(ROOT + '/'):
            return p
        return None

    def new_fd(self, raw):
        self.next_fd += 1
        self.fds[self.next_fd] = raw
        return self.next_fd

    def raw_open(self, path, vp, readable, writable, create, excl, trunc, append):
        kind, k = self.fault('open')
        if kind in ('eio', 'enospc', 'emfile'):
            self.fired('open-error')
            e = getattr(errno, kind.upper())
            raise OSError(e, os.strerror(e), path)
        if kind == 'crash':
            self.die('crash-in-open')
        if self.handles[self.life] >= HANDLES:
            gc.collect()
            if self.handles[self.life] >= HANDLES:
                if self.ctx:
                    self.ctx.log('too many open files')
                raise OSError(errno.EMFILE, os.strerror(errno.EMFILE), path)
        if vp in self.dirs:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        if vp in self.files:
            if excl:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        else:
            if not create or os.path.dirname(vp) not in self.dirs:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            if not self.crashed:
                self.files[vp] = bytearray()
        inode = self.files.get(vp, bytearray())
        if trunc and not self.crashed:
            del inode[:]
        return Raw(self, vp, inode, readable, writable, append, self.epoch)

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            raw = self.fds.get(file)
            if raw is None:
                return self.saved['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            return self.layers(raw, mode, buffering, encoding, errors, newline)
        vp = self.resolve(file)
        if vp is None:
            if set(mode) & set('wax+'):
                self.escapes.append(str(file))
                raise PermissionError(errno.EROFS, 'the simulated machine may not write there', str(file))
            return self.saved['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = set(mode) - set('bt')
        if opener is not None:
            flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                     'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL, 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND}[
                (m - {'+'}).pop()]
            if '+' in m:
                flags = (flags & ~os.O_WRONLY) | os.O_RDWR
            raw = self.fds[opener(file, flags)]
        else:
            raw = self.raw_open(file, vp, 'r' in m or '+' in m, bool(m & set('wax+')), bool(m & set('wax')), 'x' in m,
                                'w' in m, 'a' in m)
        return self.layers(raw, mode, buffering, encoding, errors, newline)

    def layers(self, raw, mode, buffering, encoding, errors, newline):
        binary = 'b' in mode
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else self.blksize
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif raw.writable() and set(mode) & set('wax'):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    # ------------------------------------------------------------------ os functions
    def _real(self, name):
        return self.saved['os.' + name]

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        vp = self.resolve(path)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        if vp is None:
            if acc != os.O_RDONLY or flags & (os.O_CREAT | os.O_TRUNC):
                self.escapes.append(str(path))
                raise PermissionError(errno.EROFS, 'the simulated machine may not write there', str(path))
            return self._real('open')(path, flags, mode, dir_fd=dir_fd)
        if vp in self.dirs:
            return self.new_fd(None)
        raw = self.raw_open(path, vp, acc in (os.O_RDONLY, os.O_RDWR), acc in (os.O_WRONLY, os.O_RDWR),
                            bool(flags & os.O_CREAT), bool(flags & os.O_EXCL), bool(flags & os.O_TRUNC),
                            bool(flags & os.O_APPEND))
        return raw.fileno()

    def os_write(self, fd, data):
        return self.fds[fd].write(data) if fd in self.fds else self._real('write')(fd, data)

    def os_read(self, fd, n):
        if fd not in self.fds:
            return self._real('read')(fd, n)
        return self.fds[fd].read(n)

    def os_close(self, fd):
        if fd in self.fds:
            raw = self.fds.pop(fd)
            if raw is not None:
                raw.close()
            return
        return self._real('close')(fd)

    def os_fsync(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        return None if fd in self.fds else self._real('fsync')(fd)

    def os_fstat(self, fd):
        if fd in self.fds:
            raw = self.fds[fd]
            return self._stat_of(raw.inode if raw is not None else None)
        return self._real('fstat')(fd)

    def _stat_of(self, inode):
        mode = stat_m.S_IFDIR | 0o755 if inode is None else stat_m.S_IFREG | 0o644
        return os.stat_result((mode, id(inode) & 0xffff, 1, 1, 0, 0, 0 if inode is None else len(inode), 0, 0, 0))

    def os_stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self.os_fstat(path)
        vp = self.resolve(path)
        if vp is None:
            return self._real('stat')(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        if vp in self.dirs:
            return self._stat_of(None)
        if vp not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return self._stat_of(self.files[vp])

    def os_lstat(self, path, *, dir_fd=None):
        return self.os_stat(path)

    def os_access(self, path, mode, **k):
        vp = self.resolve(path)
        return self._real('access')(path, mode, **k) if vp is None else vp in self.files or vp in self.dirs

    def os_unlink(self, path, *, dir_fd=None):
        vp = self.resolve(path)
        if vp is None:
            self.escapes.append(str(path))
            raise PermissionError(errno.EROFS, 'the simulated machine may not write there', str(path))
        if vp not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        if not self.crashed:
            del self.files[vp]

    def os_rename(self, a, b, **k):
        va, vb = self.resolve(a), self.resolve(b)
        if va is None or vb is None:
            self.escapes.append(str(b))
            raise PermissionError(errno.EROFS, 'the simulated machine may not write there', str(b))
        kind, n = self.fault('rename')
        if kind == 'eio':
            self.fired('rename-error')
            raise OSError(errno.EIO, os.strerror(errno.EIO), b)
        if kind == 'crash' and not n:
            self.die('crash-in-rename')
        if va not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
        if not self.crashed:
            self.files[vb] = self.files.pop(va)
        if kind == 'crash':
            self.die('crash-in-rename')

    def os_mkdir(self, path, mode=0o777, *, dir_fd=None):
        vp = self.resolve(path)
        if vp is None:
            self.escapes.append(str(path))
            raise PermissionError(errno.EROFS, 'the simulated machine may not write there', str(path))
        if vp in self.dirs or vp in self.files:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        self.dirs.add(vp)

    def os_listdir(self, path='.'):
        vp = self.resolve(path)
        if vp is None:
            return self._real('listdir')(path)
        return sorted(os.path.basename(p) for p in list(self.files) + list(self.dirs) if os.path.dirname(p) == vp
                      and p != vp)

    def os_getcwd(self):
        return ROOT

    def os_chmod(self, path, mode, **k):
        if isinstance(path, int) and path in self.fds:
            return
        if not isinstance(path, int) and self.resolve(path) is not None:
            return
        raise PermissionError(errno.EROFS, 'the simulated machine may not write there', str(path))

    # ------------------------------------------------------------------ seam
    OS = dict(open='os_open', write='os_write', read='os_read', close='os_close', fsync='os_fsync',
              fdatasync='os_fsync', fstat='os_fstat', stat='os_stat', lstat='os_lstat', access='os_access',
              unlink='os_unlink', remove='os_unlink', rename='os_rename', replace='os_rename', mkdir='os_mkdir',
              listdir='os_listdir', getcwd='os_getcwd', chmod='os_chmod')

    def __enter__(self):
        self.saved = {'open': io.open}
        for n in self.OS:
            self.saved['os.' + n] = getattr(os, n)
        builtins.open = io.open = self.open
        for n, m in self.OS.items():
            setattr(os, n, getattr(self, m))
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.saved['open']
        for n in self.OS:
            setattr(os, n, self.saved['os.' + n])
        return False

    def get(self, name):
        vp = self.resolve(name)
        return bytes(self.files[vp]) if vp in self.files else None

    STALE = ['same-size', 'digits', 'shorter', 'longer', 'empty']

    def leave(self, files, style):
        """Leaves the outputs of an earlier run on something else"""
        for k, v in files.items():
            if style == 'same-size':
                v = bytes(b ^ 0x15 if b >= 0x20 else b for b in v)
            elif style == 'digits':
                # the same but for one character
                j = next((j for j in range(len(v) - 1, -1, -1) if 0x30 <= v[j] < 0x39), None)
                v = bytes(v) if j is None else bytes(v[:j]) + bytes([v[j] + 1]) + bytes(v[j + 1:])
            else:
                v = dict(shorter=bytes(v[:len(v) // 2]), longer=bytes(v) + bytes(v), empty=b'')[style]
            self.files[k] = bytearray(v)
            if self.ctx is not None:
                self.ctx.probe('stale-outputs')

    def put(self, name, data):
        self.files[self.resolve(name)] = bytearray(data)


def gen_faults(r, ops, kinds, most=2, calls=12, size=64):
    """[[op, n, kind, k]...]"""
    out = []
    for _ in range(r.int(1, most)):
        op = r.choice(ops)
        out.append([op, r.choice([0, 0, 1, r.below(calls), r.below(calls)]), r.choice(kinds[op]),
                    r.choice([0, 1, 2, 3, r.below(size)])])
    return out
