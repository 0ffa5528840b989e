"""The command line runs the command on the hypergraph that the options name."""
import os
import subprocess
import sys

from hypothesis import strategies as st

import fakemysql
import fakewordnet
import gen
from model import Model, agree, apply_real, canon, close, sqlite_hg, vertices_of
from vf import REPO, Prop, expect, quiet, scratch_dir

fakemysql.install()
fakewordnet.install()

RULE = ('Cases are command lines (options in any order and form, defaults, names of files with spaces and directories, unknown backends and commands) run in '
        'a directory with stores that have content. The stores, the files of the directory and the parameters of connections are compared to what was '
        'asked for. Non-trivial: an option is given and the store exists already, or the command writes to it.')
ASSUMPTIONS = ['MySQL and the corpus of WordNet are stand-ins; texts of edges in MySQL are shorter than the key (250 characters)', 'the text that is printed is not specified, other than that of failures going with a status other than 0']

FILES = ['gb.db', 'x.db', 'sub/y.db', 'a b.db', 'caf\u00e9.db', 'x', 'sub/gb.db', 'gb.db2', '-x.db', '$HOME', '~x.db', 'Gb.db', '%41.db', 'a?b=c', ':m:',
         '~', ' gb.db', 'x.sqlite', 'mysql', '.db']
DEFAULTS = {'backend': 'sqlite', 'db': 'gb.db', 'dbhost': 'localhost', 'dbuser': 'gb', 'dbpass': 'gb'}
WORDS = st.sampled_from(['gb', 'root', 'example.com', '127.0.0.1', 'p w', 'x', 'secret', '', 'a=b', '--db', 'caf\u00e9', 'sqlite', ' gb', 'gb ', 'GB', 'Secret', '%s', '"x"', "it's", '0', 'a:b@c', 'x' * 40])
HOSTS = st.sampled_from(['127.0.0.1', '::1', 'localhost', 'LOCALHOST', 'db.example.com', 'db.example.com:3306', '10.0.0.1', '/var/run/mysqld/mysqld.sock', 'localhost.'])


@st.composite
def cases(draw):
    opts = {}
    if draw(st.integers(0, 2)):
        opts['backend'] = draw(st.sampled_from(['sqlite', 'sqlite', 'sqlite', 'mysql', 'mysql', 'null', 'other', 'SQLite']))
    mysql = opts.get('backend') == 'mysql'
    if draw(st.integers(0, 2)):
        opts['db'] = draw(st.sampled_from(['gb', 'other', 'gb_1'])) if mysql else draw(st.sampled_from(FILES))
    for k in ('dbhost', 'dbuser', 'dbpass'):
        if draw(st.integers(0, 2)) == 0 or mysql and draw(st.integers(0, 2)):
            opts[k] = draw(HOSTS if k == 'dbhost' and draw(st.booleans()) else WORDS)
    pool, eds = draw(gen.edge_pool(max_size=4, max_arity=3))
    if mysql:
        # longer texts do not fit the key of the tables (K01)
        eds = [e for e in eds if len(repr(e).encode('utf8')) < 200] or [('is/1', 'a', 'b')]
    return {'options': [(k, opts[k], draw(st.booleans())) for k in draw(st.permutations(sorted(opts)))],
            'command': draw(st.sampled_from(['create', 'create', 'wordnet', 'wordnet', 'shell', 'shell', 'destroy', 'Create', ''])),
            'atoms': pool, 'edges': eds, 'stores': draw(st.lists(st.sampled_from(FILES), max_size=3, unique=True)),
            'there': draw(st.booleans())}


SYNSETS = [{'pos': 'n', 'lemmas': [('dog', ''), ('hound', '')], 'pointers': [('@', 1, 0, 0)]},
           {'pos': 'n', 'lemmas': [('animal', '')], 'pointers': []}]
FACTS = [('pos/gb', 'dog/wn.dog.n.01', 'noun/gb'), ('pos/gb', 'animal/wn.animal.n.01', 'noun/gb'),
         ('synonym/gb', 'dog/wn.dog.n.01', 'hound/wn.dog.n.01'), ('hypernym/gb', 'dog/wn.dog.n.01', 'animal/wn.animal.n.01')]


def arguments(case):
    args = []
    for k, v, joined in case['options']:
        args += ['--%s=%s' % (k, v)] if joined or v.startswith('-') else ['--' + k, v]
    return args + ([case['command']] if case['command'] else [])


def files(top):
    out = {}
    for base, _, names in os.walk(top):
        for n in names:
            path = os.path.join(base, n)
            with open(path, 'rb') as f:
                out[os.path.relpath(path, top)] = f.read()
    return out


def in_process(args):
    with quiet():
        import gb.gbrain
        from click.testing import CliRunner
        res = CliRunner().invoke(gb.gbrain.cli, args)
    return res.exit_code


def as_process(args):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([sys.executable, '-m', 'gb.gbrain'] + args, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        expect(False, 'the command does not end')
    return p.returncode


def run(case, rec, how=in_process):
    opts = dict(DEFAULTS, **{k: v for k, v, _ in case['options']})
    backend, name, command = opts['backend'], opts['db'], case['command']
    known = backend in ('sqlite', 'mysql', 'null') and command in ('create', 'wordnet', 'shell')
    with scratch_dir() as outer:
        d, corpus, server = [os.path.join(outer, x) for x in ('cwd', 'corpus', 'server')]
        for x in (d, corpus, server, os.path.join(d, 'sub')):
            os.mkdir(x)
        fakewordnet.write(corpus, SYNSETS)
        fakewordnet.Proxy.current = fakewordnet.reader(corpus)
        fakemysql.SERVER.reset(server)
        here = os.getcwd()
        os.chdir(d)
        try:
            # what is there before
            stores = list(case['stores'])
            if backend == 'sqlite' and case['there'] and name not in stores:
                stores.append(name)
            vs = vertices_of(case)
            for path in stores:
                hg = sqlite_hg(path)
                hg.add(case['edges'], 5)
                close(hg)
            if backend == 'mysql' and case['there']:
                mysql(opts).add(case['edges'], 5)
            with open('note.txt', 'w') as f:
                f.write('something else')
            before = files(d)
            del fakemysql.SERVER.connections[:]

            code = how(arguments(case))

            after = files(d)
            target = name if backend == 'sqlite' and known else None
            for path in set(before) | set(after):
                if path == target:
                    continue
                expect(path in after, '%r is gone', path)
                expect(path in before, '%r was created', path)
                expect(before[path] == after[path], '%r was changed', path)
            if command:
                expect((code == 0) is known, 'the exit status is %r', code)
            if how is in_process:
                want = [(opts['dbhost'], opts['dbuser'], opts['dbpass'], name)] if known and backend == 'mysql' else []
                got = fakemysql.SERVER.connections
                expect(got == want, 'connections to MySQL: %r, expected %r', got, want)
            rec.label('%s on %s' % (command or 'no command', backend))
            if not known or backend == 'null':
                return
            # the store has what it should
            if backend == 'sqlite':
                expect(name in after, 'there is no file %r', name)
                hg = sqlite_hg(name)
                there = name in stores
            else:
                hg = mysql(opts)
                there = case['there']
            model = Model()
            if there:
                for e in case['edges']:
                    model.add(e, 5)
            if command == 'wordnet' and how is in_process:
                for e in FACTS:
                    model.add(e)
                    model.add(('src/1', e, 'wordnet/gb'))
            agree(hg, model, vs + list({canon(x): x for e in FACTS for x in e}.values()), case['edges'] + FACTS)
            count = len([e for e in model.edges.values()])
            expect(sum(len(hg.pattern2edges((None,) * n)) for n in (2, 3, 4, 5)) == count, 'the store has other edges too')
            if backend == 'sqlite':
                close(hg)
            rec.nontrivial(bool(case['options']) and (there or command == 'wordnet'))
        finally:
            os.chdir(here)
            fakemysql.SERVER.stop()
            fakewordnet.Proxy.current = None


def mysql(opts):
    from gb.hypergraph.hypergraph import HyperGraph
    return HyperGraph({'backend': 'mysql', 'host': opts['dbhost'], 'user': opts['dbuser'], 'password': opts['dbpass'], 'db': opts['db']})


def process(case, rec):
    run(case, rec, as_process)


@st.composite
def process_cases(draw):
    case = draw(cases())
    case['options'] = [o for o in case['options'] if o[0] != 'backend' or o[1] != 'mysql']
    if case['command'] == 'wordnet':
        case['command'] = 'create'      # there is no corpus in the other process
    return case


PROPS = [
    Prop('lines', cases(), run, 1800, 20000),
    Prop('process', process_cases(), process, 18, 120),
]
