"""The filter of Wikidata dumps keeps exactly the pages that it should."""
import io
import os
import runpy
import subprocess
import sys
from contextlib import redirect_stdout

from hypothesis import strategies as st

from vf import REPO, HarnessError, Prop, expect, scratch_dir

RULE = ('Cases are dumps made of pages (with titles with and without a colon, and bodies of several lines) and of lines around them; the output is '
        'compared to the dump without the pages whose title has a colon. Non-trivial: some pages are dropped and some are kept.')
ASSUMPTIONS = ['dumps have one element per line, each page has one title, and mark-up in texts is escaped, as in the dumps of Wikimedia; lines end in a line feed']

SCRIPT = os.path.join(REPO, 'python', 'filter_wikidump.py')
WORDS = st.text(st.characters(exclude_categories=('Cs', 'Cc'), exclude_characters='<>&'), max_size=12)
TITLE = st.one_of(st.sampled_from(['Q42', 'Mercury', 'Talk:Q42', 'Property:P31', 'Star Trek: Voyager', ':', '', 'a:b:c', 'Wikidata:Main Page', 'Q1 (title)',
                                   'page', 'title', '/page', 'C&amp;A', 'x&lt;title&gt;y', '&lt;title&gt;a:b&lt;/title&gt;', '12:30', '\uff1a', ';', '10']),
                  st.tuples(WORDS, st.sampled_from(['', '', ':']), WORDS).map(''.join))
BODY = st.one_of(
    st.sampled_from(['    <ns>0</ns>', '    <id>12</id>', '    <redirect title="Talk:Q42" />', '    <text xml:space="preserve">a: b', 'c:d', '', '  ',
                     '      <timestamp>2016-11-19T20:00:00Z</timestamp>', '&lt;page&gt;', '&lt;/page&gt; &lt;title&gt;x:y&lt;/title&gt;', 'pagetitle:',
                     '{"type":"item","id":"Q1"}</text>', '    <revision>', '    </revision>', '<pages>', '<titles>a:b</titles>', '</pages>']),
    WORDS)
INDENT = st.sampled_from(['', '  ', '\t', '    ', '\t\t', ' \t '])


@st.composite
def dumps(draw):
    gen_line = st.tuples(st.just('line'), st.one_of(
        st.sampled_from(['<mediawiki xml:lang="en">', '  <siteinfo>', '    <namespace key="2">User:</namespace>', '  </siteinfo>', '</mediawiki>', '', ':',
                         '    <base>https://www.wikidata.org/wiki/Wikidata:Main_Page</base>']), WORDS))
    page = st.tuples(st.just('page'), INDENT, st.lists(st.sampled_from(['    <!-- a: b -->', '', '\t<!-- -->', '  ', '    <ns>0</ns>', '    <id>4</id> ', '<pages>']), max_size=3), TITLE, st.lists(BODY, max_size=5))
    items = draw(st.lists(st.one_of(page, page, gen_line), max_size=8))
    return {'items': items, 'end': draw(st.booleans())}


def lines(item):
    if item[0] == 'line':
        return [item[1]]
    _, indent, before, title, body = item
    return [indent + '<page>'] + before + [indent + indent + '<title>%s</title>' % title] + body + [indent + '</page>']


def texts(case):
    def join(items):
        return ''.join(x + '\n' for i in items for x in lines(i))
    items = case['items']
    whole = join(items)
    kept = [i for i in items if i[0] == 'line' or ':' not in i[3]]
    want = join(kept)
    if not case['end'] and items:      # the last line does not end in a line feed
        whole = whole[:-1]
        if kept and kept[-1] is items[-1]:
            want = want[:-1]
    return whole, want, len([i for i in items if i[0] == 'page']), len([i for i in kept if i[0] == 'page'])


def run_script(args):
    """The script, as if it was run from the command line."""
    if not os.path.exists(SCRIPT):
        raise HarnessError('%s is not there' % SCRIPT)
    out, argv = io.StringIO(), sys.argv
    sys.argv = [SCRIPT] + args
    try:
        with redirect_stdout(out):
            runpy.run_path(SCRIPT, run_name='__main__')
    except SystemExit as exc:
        expect(exc.code in (None, 0), 'the script ended with %r', exc.code)
    finally:
        sys.argv = argv
    return out.getvalue()


def note(rec, pages, kept):
    rec.nontrivial(0 < kept < pages)
    rec.label('%s pages dropped' % min(pages - kept, 3))


def compare(case, rec, out):
    whole, want, pages, kept = texts(case)
    expect(out == want, 'the output is %r, expected %r', out, want)
    note(rec, pages, kept)


def call(case, rec):
    with scratch_dir() as d:
        path = os.path.join(d, 'dump.xml')
        whole = texts(case)[0]
        with open(path, 'w', encoding='utf8', newline='') as f:
            f.write(whole)
        compare(case, rec, run_script([path]))
        with open(path, encoding='utf8', newline='') as f:
            expect(f.read() == whole, 'the dump was changed')


def command(case, rec):
    with scratch_dir() as d:
        path = os.path.join(d, 'dump.xml')
        with open(path, 'w', encoding='utf8', newline='') as f:
            f.write(texts(case)[0])
        env = dict(os.environ, PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
        try:
            p = subprocess.run([sys.executable, SCRIPT, path], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            expect(False, 'the script does not end')
        expect(p.returncode == 0, 'the script ended with %s: %s', p.returncode, p.stderr.decode('utf8', 'replace')[-300:])
        compare(case, rec, p.stdout.decode('utf8'))


def large(case, rec):
    n, each = case
    items = [('page', '  ', [], ('Talk:%s' if i % each == 0 else 'Q%s') % i, ['body %s' % i] * (i % 7)) for i in range(n)]
    call({'items': items, 'end': True}, rec)


PROPS = [
    Prop('call', dumps(), call, 6000, 100000, examples=[
        {'items': [('page', '  ', [], 'Talk:A', ['x']), ('page', '  ', [], 'B', ['y:z']), ('line', '</mediawiki>')], 'end': True}]),
    Prop('command', dumps(), command, 60, 400),
    Prop('large', st.tuples(st.sampled_from([100, 3000]), st.integers(2, 5)), large, 12, 60),
]
