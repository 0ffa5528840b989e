"""Files as they would be after a crash, from a log of what was written to them."""
import ctypes
import os
import struct
import subprocess
import sys
import tempfile

import vf


def ensure():
    """Starts this process again with the recorder loaded. The recorder is compiled to a scratch directory."""
    if os.environ.get('VERIF_IOLOG'):
        return
    d = tempfile.mkdtemp(prefix='verif-iolog-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    so = os.path.join(d, 'iolog.so')
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'iolog.c')
    for cc in ('gcc', 'cc', 'clang'):
        try:
            r = subprocess.run([cc, '-O1', '-shared', '-fPIC', '-o', so, src, '-ldl', '-lpthread'], capture_output=True, text=True)
        except FileNotFoundError:
            continue
        if r.returncode == 0:
            break
        raise vf.HarnessError('the recorder does not compile: %s' % r.stderr[:500])
    else:
        raise vf.HarnessError('no C compiler')
    env = dict(os.environ, LD_PRELOAD=so, VERIF_IOLOG=so)
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


_lib = None


def lib():
    global _lib
    if _lib is None:
        so = os.environ['VERIF_IOLOG']
        _lib = ctypes.CDLL(so)
        _lib.iolog_data.restype = ctypes.c_void_p
        _lib.iolog_len.restype = ctypes.c_size_t
        _lib.iolog_mark.argtypes = [ctypes.c_int64]
        _lib.iolog_watch.argtypes = [ctypes.c_char_p]
    return _lib


def release():
    """Removes the compiled recorder; it stays loaded."""
    so = os.environ.get('VERIF_IOLOG')
    if so and os.path.exists(so):
        lib()
        os.unlink(so)
        os.rmdir(os.path.dirname(so))


def watch(directory):
    """Files of this directory that are opened from now on are recorded, after start()."""
    lib().iolog_watch(directory.encode())


def start():
    lib().iolog_start()


def mark(n):
    lib().iolog_mark(n)


def stop():
    """The recorded events: (type, path, offset, data)."""
    lib().iolog_stop()
    n = lib().iolog_len()
    raw = ctypes.string_at(lib().iolog_data(), n) if n else b''
    out, pos = [], 0
    while pos < n:
        typ = chr(raw[pos])
        pl, = struct.unpack_from('<I', raw, pos + 1)
        path = raw[pos + 5:pos + 5 + pl].decode()
        pos += 5 + pl
        off, ln = struct.unpack_from('<qI', raw, pos)
        pos += 12
        data = b''
        if typ == 'W':
            data = raw[pos:pos + ln]
            pos += ln
        if not shared(path):
            out.append((typ, path, off, data))
    return out


def shared(path):
    """The shared memory of a write-ahead log: SQLite does not read it after a crash."""
    return path.endswith('-shm')


def change(content, ev):
    typ, _, off, data = ev
    if typ == 'W':
        if len(content) < off:
            content = content + b'\0' * (off - len(content))
        return content[:off] + data + content[off + len(data):]
    if typ == 'T':
        return content[:off] + b'\0' * (off - len(content))
    raise AssertionError(typ)


def image(initial, events, keep):
    """The files after the events: {path: bytes}. keep(i) tells if the i-th event took effect though it was not
    followed by a synchronisation (of the file, or of the directory for files that are created or removed).
    Creations and removals of the same name take effect in order."""
    n = len(events)
    durable = [False] * n
    inode = {path: ('initial', path) for path in initial}
    of = [None] * n         # the file that an event is about
    pending = {}            # file -> indices of its events
    names = {}              # directory -> indices of events on names
    by_name = {}            # path -> indices of events on this name
    for i, (typ, path, _, _) in enumerate(events):
        if typ == 'C':
            inode[path] = ('new', i)
        of[i] = inode.get(path)
        if typ in 'WT':
            pending.setdefault(of[i], []).append(i)
        elif typ in 'CU':
            names.setdefault(os.path.dirname(path), []).append(i)
            by_name.setdefault(path, []).append(i)
            if typ == 'C':
                pending.setdefault(of[i], []).append(i)     # synchronising a new file keeps its name too
            else:
                inode.pop(path, None)
        elif typ == 'S':
            for j in pending.pop(of[i], []) if of[i] else []:
                durable[j] = True
            for j in names.pop(path, []):
                durable[j] = True
    bound = {path: ('initial', path) for path in initial}
    for path, idx in by_name.items():
        last = [i for i in idx if durable[i] or keep(i)]
        if last:
            if events[last[-1]][0] == 'C':
                bound[path] = of[last[-1]]
            else:
                bound.pop(path, None)
    files = {}
    for path, ino in bound.items():
        content = initial[path] if ino[0] == 'initial' else b''
        for i, ev in enumerate(events):
            if ev[0] in 'WT' and of[i] == ino and (durable[i] or keep(i)):
                content = change(content, ev)
        files[path] = content
    return files


def read_files(d):
    return {os.path.join(d, n): open(os.path.join(d, n), 'rb').read() for n in os.listdir(d) if not shared(n)}


def write_files(files, src, dst):
    for path, data in files.items():
        with open(os.path.join(dst, os.path.relpath(path, src)), 'wb') as f:
            f.write(data)
