"""Calls the Java code of the repository, through lib/java/Driver.java.

The code is compiled once per run, in a scratch directory, before the shards
start. Each shard has a Java process of its own, which answers one request
after the other.
"""
import glob
import os
import select
import subprocess
from urllib.parse import quote, unquote_plus

import vf
from vf import HarnessError, Violation

SRC = os.path.join(vf.REPO, 'src', 'main', 'java')
HERE = os.path.join(vf.VERIF, 'lib', 'java')
ANSWER_S = 30       # an answer takes milliseconds

_classes = None
_proc = None
_pid = None


def build():
    """Compiles what the driver needs of the repository. Call it when the check is loaded."""
    global _classes
    if _classes is not None:
        return
    out = vf.scratch()
    cmd = ['javac', '-encoding', 'UTF-8', '-nowarn', '-proc:none', '-J-Xmx512m', '-J-XX:-UsePerfData', '-J-XX:+UseSerialGC',
           '-d', out, '-sourcepath', SRC + os.pathsep + HERE, os.path.join(HERE, 'Driver.java')]
    cmd += sorted(glob.glob(os.path.join(SRC, 'org', 'graphbrain', 'eco', '*.java')))
    try:
        res = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    except (OSError, subprocess.SubprocessError) as exc:
        raise HarnessError('javac: %s' % exc)
    if res.returncode != 0:
        raise HarnessError('javac: %s' % res.stdout.decode('utf8', 'replace')[:3000])
    _classes = out


def _start():
    global _proc, _pid
    if _proc is not None and _pid == os.getpid():
        return
    _proc = subprocess.Popen(['java', '-Xmx256m', '-Xss4m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-XX:-UsePerfData',
                              '-XX:ReservedCodeCacheSize=64m', '-XX:CompressedClassSpaceSize=64m', '-Dfile.encoding=UTF-8',
                              '-Duser.language=en', '-cp', _classes, 'Driver'],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    _pid = os.getpid()


def stop():
    global _proc
    if _proc is not None and _pid == os.getpid():
        _proc.kill()
        _proc.wait()
    _proc = None


def _readline():
    data = b''
    fd = _proc.stdout.fileno()
    while not data.endswith(b'\n'):
        if not select.select([fd], [], [], ANSWER_S)[0]:
            stop()
            raise Violation('no answer within %s s' % ANSWER_S)
        part = os.read(fd, 1 << 16)
        if not part:
            status = _proc.wait()
            stop()
            if status < 0:
                raise HarnessError('java was ended by signal %s' % -status)
            raise Violation('the program ended with status %s' % status)
        data += part
    return data.decode('ascii').rstrip('\n')


def call(*fields):
    """The fields of the answer: strings, or None for null. What is raised in Java is a violation."""
    _start()
    try:
        _proc.stdin.write(('\t'.join(quote(str(f), safe='') for f in fields) + '\n').encode('ascii'))
        _proc.stdin.flush()
    except BrokenPipeError:
        pass
    parts = _readline().split('\t')
    values = [unquote_plus(p) for p in parts[1:]]
    values = [v[1:] if v.startswith('=') else None for v in values]
    if parts[0] != 'ok':
        raise Violation('%s raised %s' % (fields[0], values[0]))
    return values


class Block:
    """A block of text, as it is in Java."""

    def __init__(self, content=False, text='', words=0, linked=0, wrapped=0, lines=1, level=0, start=0, end=None, labels=(), elements=()):
        self.content, self.text, self.words, self.linked, self.level = bool(content), text, words, linked, level
        self.wrapped, self.lines = wrapped, lines
        self.start, self.end = start, start if end is None else end
        self.labels, self.elements = set(labels), set(elements)

    def fields(self):
        return [int(self.content), self.text, self.words, self.linked, self.wrapped, self.lines, self.level, self.start,
                '\n'.join(sorted(self.labels)), ' '.join(str(x) for x in sorted(self.elements))]

    @property
    def density(self):
        return f32(self.words if self.wrapped == 0 else self.wrapped / self.lines)

    @property
    def link_density(self):
        return f32(self.linked / self.words) if self.words else 0.0

    def view(self):
        return {'content': self.content, 'text': self.text, 'words': self.words, 'linked': self.linked, 'level': self.level,
                'offsets': (self.start, self.end), 'labels': sorted(self.labels), 'elements': sorted(self.elements)}


def f32(x):
    import struct
    return struct.unpack('f', struct.pack('f', x))[0]


def read_blocks(values):
    """(title, views of the blocks, fields that are left)"""
    title, n = values[0], int(values[1])
    res = []
    for i in range(n):
        v = values[2 + 11 * i:13 + 11 * i]
        res.append({'content': v[0] == '1', 'text': v[1], 'words': int(v[2]), 'linked': int(v[3]), 'density': float(v[4]),
                    'link_density': float(v[5]), 'level': int(v[6]), 'offsets': (int(v[7]), int(v[8])),
                    'labels': sorted(v[9].split('\n')) if v[9] else [], 'elements': [int(x) for x in v[10].split()]})
    return title, res, values[2 + 11 * n:]
