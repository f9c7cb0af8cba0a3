"""A disk under control of the simulator: every file operation of a simulated process below the root directory is a
scheduling point and can fail, stop half way, or be the last thing that the process (or the machine) does."""
import os, io, builtins, random, errno, shutil
import core

class Killed(BaseException):
    """The simulated process is gone: nothing it does has an effect any more"""
core.Killed = Killed

class Disk:
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep; self.real = {}; self.sched = None
        self.down = False; self.meta = []; self.synced = 0; self.dirty = {}; self.ops = 0; self.names = {}; self.nonce = 0; self.pids = []
    def mine(self, p):
        try: return os.path.abspath(os.fsdecode(p) if not isinstance(p, int) else '').startswith(self.root) if isinstance(p, (str, bytes, os.PathLike)) else False
        except Exception: return False
    # -- one file operation
    def op(self, what, path):
        """returns the fault to apply, or None"""
        s = self.sched
        if s is None: return None
        c = s.me()
        if c is None: return None
        if self.down or getattr(c, 'killed', False): raise Killed()
        if c.quiet: return None
        self.ops += 1
        if s.dead is not None: raise core.Abort()
        k = s.seam('fs')
        if s.profile: c.fslog = getattr(c, 'fslog', []); c.fslog.append((what, os.path.basename(str(path))))
        s.pause(c)
        if self.down or getattr(c, 'killed', False): raise Killed()
        return k
    def after(self, k):
        """faults that strike once the operation is done"""
        if k in ('kill', 'power'): self.strike(k)
    def strike(self, k):
        c = self.sched.me(); c.killed = True
        if k == 'power': self.down = True
        raise Killed()
    def err(self, k, path):
        n = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'emfile': errno.EMFILE, 'eacces': errno.EACCES}.get(k)
        if n: raise OSError(n, 'injected: ' + os.strerror(n), str(path))
        if k == 'interrupt': raise KeyboardInterrupt('injected')
    # -- durability
    def note(self, *m): self.meta.append(m)
    def unsync(self, p): self.dirty[os.path.abspath(p)] = True
    def fsync(self, p): self.dirty.pop(os.path.abspath(p), None); self.synced = len(self.meta)
    def moved(self, a, b):
        a, b = os.path.abspath(a), os.path.abspath(b)
        self.dirty.pop(b, None)
        if self.dirty.pop(a, None): self.dirty[b] = True
    def power_loss(self, rng):
        """what of the operations that were not forced to the disk is left after the power failed"""
        cut = rng.randint(self.synced, len(self.meta)); lost = dict(metadata=len(self.meta) - cut, damaged=0)
        for m in reversed(self.meta[cut:]):
            k = m[0]
            try:
                if k == 'create': os.path.exists(m[1]) and self.real_remove(m[1])
                elif k == 'replace':
                    if os.path.exists(m[2]): os.rename(m[2], m[1]); self.moved(m[2], m[1])
                    if m[3] is not None: self.put(m[2], m[3])
                elif k == 'remove': self.put(m[1], m[2])
                elif k == 'mkdir': shutil.rmtree(m[1], ignore_errors=True)
            except OSError: pass
        for p in sorted(self.dirty):
            if not os.path.isfile(p): continue
            how = rng.choice(['intact', 'intact', 'empty', 'torn', 'holes', 'garbage'])
            with builtins.open(p, 'rb') as f: d = bytearray(f.read())
            if how == 'intact' or not d: continue
            lost['damaged'] += 1
            if how == 'empty': d = b''
            elif how == 'torn': d = d[:rng.randrange(len(d))]
            else:
                for _ in range(rng.randint(1, 3)):
                    o = rng.randrange(0, len(d), 512); n = min(512, len(d) - o); d[o:o + n] = bytes(n) if how == 'holes' else rng.randbytes(n)
            self.put(p, bytes(d))
        self.meta = []; self.synced = 0; self.dirty = {}; self.down = False
        return lost
    def put(self, p, d):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with builtins.open(p, 'wb') as f: f.write(d)
    def real_remove(self, p): os.remove(p)
    def read(self, p):
        try:
            with self.real['open'](p, 'rb') as f: return f.read()
        except OSError: return None

    # -- interposition
    def install(self):
        import torch, uuid, tempfile, time
        R = self.real; D = self
        R['open'] = builtins.open; R['io.open'] = io.open; R['urandom'] = os.urandom; R['getpid'] = os.getpid
        def sopen(file, mode='r', *a, **k):
            fd = isinstance(file, int); opener = k.get('opener') or (a[5] if len(a) > 5 else None)
            if D.sched is None or D.sched.me() is None: return R['open'](file, mode, *a, **k)
            if fd:
                try: path = os.readlink(f'/proc/self/fd/{file}')
                except OSError: path = ''
                if not D.mine(path): return R['open'](file, mode, *a, **k)
                return SimFile(D, R['open'](file, mode, *a, **k), path, mode)
            if not D.mine(file): return R['open'](file, mode, *a, **k)
            path = os.path.abspath(os.fsdecode(file)); ft = D.op('open ' + mode, path); D.err(ft, path)
            if ft in ('torn-kill', 'torn-power', 'short'): ft = None
            new = any(c in mode for c in 'wxa') and not os.path.exists(path) and not opener
            f = R['open'](file, mode, *a, **k)
            if opener: path = os.readlink(f'/proc/self/fd/{f.fileno()}')
            if new: D.note('create', path)
            if 'w' in mode: D.unsync(path)
            D.after(ft)
            return SimFile(D, f, path, mode)
        builtins.open = io.open = sopen
        def wrap(name, do, paths):
            real = R['os.' + name] = getattr(os, name)
            def fn(*a, **k):
                ps = [x for x in a[:paths] if D.mine(x)]
                if not ps or D.sched is None or D.sched.me() is None: return real(*a, **k)
                ft = D.op(name, ps[0]); D.err(ft, ps[0])
                r = do(real, *a, **k)
                D.after(ft.split('-')[-1] if ft else None)
                return r
            fn.__name__ = name; setattr(os, name, fn)
        ab = os.path.abspath
        def replace(real, a, b, **k):
            old = D.read(b); r = real(a, b, **k); D.note('replace', ab(a), ab(b), old); D.moved(a, b); return r
        def remove(real, p, **k):
            old = D.read(p); r = real(p, **k); D.note('remove', ab(p), old or b''); D.dirty.pop(ab(p), None); return r
        def mkdir(real, p, *a, **k): r = real(p, *a, **k); D.note('mkdir', ab(p)); return r
        def link(real, a, b, **k): r = real(a, b, **k); D.note('create', ab(b)); return r
        def osopen(real, p, flags, *a, **k):
            new = not os.path.exists(p); r = real(p, flags, *a, **k)
            if new and flags & os.O_CREAT: D.note('create', ab(p))
            if flags & (os.O_WRONLY | os.O_RDWR): D.unsync(ab(p))
            return r
        wrap('replace', replace, 2); wrap('rename', replace, 2); wrap('remove', remove, 1); wrap('unlink', remove, 1); wrap('mkdir', mkdir, 1)
        wrap('link', link, 2); wrap('open', osopen, 1)
        wrap('stat', lambda real, *a, **k: real(*a, **k), 1); wrap('listdir', lambda real, *a, **k: real(*a, **k), 1); wrap('rmdir', lambda real, *a, **k: real(*a, **k), 1)
        wrap('truncate', lambda real, *a, **k: real(*a, **k), 1); wrap('scandir', lambda real, *a, **k: real(*a, **k), 1)
        for name in ('fsync', 'fdatasync', 'write'):
            real = R['os.' + name] = getattr(os, name)
            def fn(fd, *a, real=real, name=name, **k):
                n = fd if isinstance(fd, int) else fd.fileno()
                if D.sched is None or D.sched.me() is None: return real(n, *a, **k)
                try: p = os.readlink(f'/proc/self/fd/{n}')
                except OSError: return real(n, *a, **k)
                if not D.mine(p): return real(n, *a, **k)
                ft = D.op(name, p); 
                if name == 'write': return D.write_bytes(lambda b: real(n, b), a[0], ft, p, True)
                D.err(ft, p); r = real(n)
                D.fsync(p); D.after(ft.split('-')[-1] if ft else None); return r
            setattr(os, name, fn)
        real_save = R['torch.save'] = torch.save
        def save(obj, f, *a, **k):
            if not D.mine(f) or D.sched is None or D.sched.me() is None: return real_save(obj, f, *a, **k)
            with sopen(f, 'wb') as h:
                b = io.BytesIO(); real_save(obj, b, *a, **k); d = b.getvalue(); n = max(1, len(d) // 3 + 1)
                for o in range(0, len(d), n): h.write(d[o:o + n])
        torch.save = save
        def urandom(n):
            s = D.sched; c = s.me() if s is not None else None
            if c is None: return R['urandom'](n)
            D.names[c.tid] = D.names.get(c.tid, 0) + 1
            return random.Random(f'{D.nonce} {c.tid} {D.names[c.tid]}').randbytes(n)
        os.urandom = urandom
        import fcntl
        def lock(name):
            real = R[name] = getattr(fcntl, name)
            def fn(fd, flags, *a):
                s = D.sched; c = s.me() if s is not None else None
                if c is None or flags & (fcntl.LOCK_NB | fcntl.LOCK_UN): return real(fd, flags, *a)
                def ready():
                    try: real(fd, flags | fcntl.LOCK_NB, *a); return True
                    except OSError: return False
                s.block(c, ready)
            setattr(fcntl, name, fn)
        lock('flock')
        os.getpid = lambda: R['getpid']() if D.sched is None or D.sched.me() is None else D.pids[D.sched.me().tid]
    def uninstall(self):
        import torch, fcntl
        R = self.real; fcntl.flock = R['flock']
        builtins.open, io.open, os.urandom, os.getpid, torch.save = R['open'], R['io.open'], R['urandom'], R['getpid'], R['torch.save']
        for n in ('replace', 'rename', 'remove', 'unlink', 'mkdir', 'link', 'open', 'stat', 'listdir', 'rmdir', 'truncate', 'scandir', 'fsync', 'fdatasync', 'write'): setattr(os, n, R['os.' + n])
    def write_bytes(self, put, data, ft, path, raw):
        """applies a write and the fault that strikes it"""
        self.unsync(path)
        n = len(data) if not isinstance(data, memoryview) else data.nbytes
        part = bytes(memoryview(data).cast('B') if not isinstance(data, bytes) else data)[:n // 2] if not isinstance(data, str) else data[:n // 2]
        if ft in ('enospc', 'eio'): put(part); self.err(ft, path)
        self.err(ft, path)
        if ft in ('torn-kill', 'torn-power'): put(part); self.strike(ft[5:])
        if ft == 'short' and raw: return put(part)
        r = put(data); self.after(ft)
        return r

class SimFile:
    """an open file of a simulated process"""
    def __init__(self, disk, f, path, mode): self._d, self._f, self._p, self._m = disk, f, path, mode
    def __getattr__(self, k): return getattr(self._f, k)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __iter__(self): return iter(self._f)
    def __next__(self): return next(self._f)
    def write(self, data):
        ft = self._d.op('write', self._p)
        def put(b):
            r = self._f.write(b); self._f.flush(); return r
        return self._d.write_bytes(put, data, ft, self._p, False)
    def writelines(self, ls):
        for l in ls: self.write(l)
    def read(self, *a):
        ft = self._d.op('read', self._p); self._d.err(ft, self._p); self._d.after(ft.split('-')[-1] if ft else None)
        return self._f.read(*a)
    def readinto(self, b):
        ft = self._d.op('read', self._p); self._d.err(ft, self._p); self._d.after(ft.split('-')[-1] if ft else None)
        return self._f.readinto(b)
    def close(self):
        # the real descriptor is closed in any case
        try:
            if not self._f.closed:
                ft = self._d.op('close', self._p) if any(c in self._m for c in 'wxa+') else None
                self._d.err(ft if ft in ('enospc', 'eio') else None, self._p); self._d.after(ft.split('-')[-1] if ft else None)
        finally: self._f.close()
