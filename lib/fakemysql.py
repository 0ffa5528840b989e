"""A stand-in for a MySQL server, behind the interface of MySQLdb (there is no server here).

Databases are SQLite files. What it follows of MySQL is what is documented and what the
backend depends on: %s placeholders, autocommit and transactions (also the implicit commit of
DDL), counts of rows (found or changed, by CLIENT.FOUND_ROWS), client-side results, and the
classes and codes of errors, the sizes of columns, keys on the first characters of a column.
What it does not follow: collations that ignore case, character sets, locks of single rows."""
import os
import re
import sqlite3

import _mysql_exceptions as my
import MySQLdb
from MySQLdb.constants import CLIENT


class Server:
    """One per process; install() makes MySQLdb connect to it."""

    def __init__(self):
        self.root = None
        self.connections = []   # (host, user, password, database) of each connection that was made
        self.statements = 0
        self.fail_at = None     # number of the statement that fails
        self.fail_how = None    # 'error' or 'gone'
        self.changes = 0
        self.live = []

    def reset(self, root):
        for c in self.live:
            c.db.close()
        self.__init__()
        self.root = root

    def stop(self):
        self.reset(None)


SERVER = Server()


def translate(exc):
    msg = str(exc)
    if 'CHECK constraint' in msg:
        return my.DataError(1406 if 'length(' in msg else 1264, msg)
    if isinstance(exc, sqlite3.IntegrityError):
        return my.IntegrityError(1062, msg)
    if 'already exists' in msg:
        return my.OperationalError(1050, msg)
    if 'duplicate column' in msg:
        return my.OperationalError(1060, msg)
    if 'no such table' in msg:
        return my.ProgrammingError(1146, msg)
    if 'no such column' in msg:
        return my.OperationalError(1054, msg)
    if 'locked' in msg:
        return my.OperationalError(1205, msg)
    return my.ProgrammingError(1064, msg)


SIZES = {'TINYINT': 7, 'SMALLINT': 15, 'MEDIUMINT': 23, 'INT': 31, 'INTEGER': 31}


def column(m):
    """A column that holds what it can hold in MySQL; more is an error (strict mode)."""
    name, kind, size = m.group(1), m.group(2).upper(), m.group(3)
    if kind in ('VARCHAR', 'CHAR'):
        return '%s TEXT CHECK (length(%s) <= %s)' % (name, name, size or 1)
    low, high = -2 ** SIZES[kind], 2 ** SIZES[kind] - 1
    if m.group(4):
        low, high = 0, high - low
    return '%s INTEGER CHECK (%s BETWEEN %s AND %s)' % (name, name, low, high)


def rewrite(query):
    q = query.strip().rstrip(';').strip()
    if not re.match(r'(?i)(create|alter)\s+table', q):
        return q, []
    q = re.sub(r'(?i)\s+(ENGINE|(DEFAULT\s+)?(CHARSET|CHARACTER\s+SET)|COLLATE)\s*=?\s*\w+', '', q)
    table = re.match(r'(?i)create\s+table\s+(?:if\s+not\s+exists\s+)?(\w+)', q)
    key = re.search(r'(?i)PRIMARY KEY\s*\(\s*(\w+)\s*\((\d+)\)\s*\)', q)
    more = []
    if table and key:
        # a key on the first characters
        q = q.replace(key.group(0), 'PRIMARY KEY (%s)' % key.group(1))
        more = ['CREATE UNIQUE INDEX %s_key ON %s (substr(%s, 1, %s))' % (table.group(1), table.group(1), key.group(1), key.group(2))]
    q = re.sub(r'(?i)(\w+)\s+(VARCHAR|CHAR|TINYINT|SMALLINT|MEDIUMINT|INTEGER|INT)\b(?:\s*\((\d+)\))?(\s+UNSIGNED)?', column, q)
    return q, more


class Cursor:
    def __init__(self, connection):
        self.connection = connection
        self.rows, self.pos = None, 0
        self.rowcount = -1
        self.description = None
        self.lastrowid = None

    def execute(self, query, args=None):
        if self.connection is None:
            raise my.ProgrammingError('cursor closed')
        if isinstance(query, bytes):
            query = query.decode('utf8')
        if args is not None:
            if isinstance(args, dict):
                raise my.ProgrammingError('not supported by the stand-in: a dictionary of parameters')
            if not isinstance(args, (tuple, list)):
                args = (args,)
            n = len(re.findall(r'(?<!%)(?:%%)*%s', query))
            if n != len(args):
                raise my.ProgrammingError('not all arguments converted, or not enough of them')
            query = re.sub(r'%%|%s', lambda m: '%' if m.group() == '%%' else '?', query)
        for a in args or ():
            if isinstance(a, int) and not -2 ** 63 <= a < 2 ** 63:
                raise my.DataError(1264, 'Out of range value')
        self.rows, self.pos = None, 0
        self.rowcount, rows, self.description = self.connection.run(query, args or ())
        self.rows = rows
        return self.rowcount

    def executemany(self, query, args):
        n = 0
        for a in args:
            n += self.execute(query, a)
        self.rowcount = n
        return n

    def _check(self):
        if self.connection is None:
            raise my.ProgrammingError('cursor closed')
        if self.rows is None:
            raise my.ProgrammingError('execute() first')

    def fetchone(self):
        self._check()
        if self.pos >= len(self.rows):
            return None
        self.pos += 1
        return self.rows[self.pos - 1]

    def fetchmany(self, size=1):
        self._check()
        res = self.rows[self.pos:self.pos + size]
        self.pos += len(res)
        return tuple(res)

    def fetchall(self):
        self._check()
        res = self.rows[self.pos:]
        self.pos = len(self.rows)
        return tuple(res)

    def __iter__(self):
        self._check()
        return iter(self.fetchone, None)

    def close(self):
        self.connection = None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class Connection:
    def __init__(self, host='localhost', user=None, passwd=None, db=None, port=0, unix_socket=None, client_flag=0, autocommit=False,
                 password=None, database=None, charset='', use_unicode=True, **others):
        if SERVER.root is None:
            raise my.OperationalError(2002, "Can't connect to local MySQL server")
        self.name = db if db is not None else database
        SERVER.connections.append((host, user, passwd if passwd is not None else password, self.name))
        path = os.path.join(SERVER.root, '%s.mysql' % self.name.encode('utf8').hex())
        self.db = sqlite3.connect(path, isolation_level=None, timeout=2)
        self.db.execute('PRAGMA synchronous=OFF')
        self.found_rows = bool(client_flag & CLIENT.FOUND_ROWS)
        self._auto = bool(autocommit)
        self.explicit = False
        self.dead = False
        SERVER.live.append(self)

    # statements
    def run(self, query, args):
        self._point()
        q, more = rewrite(query)
        word = q.split(None, 1)[0].upper()
        if word in ('BEGIN', 'START'):
            self.begin()
            return 0, (), None
        if word in ('COMMIT', 'ROLLBACK'):
            self._end(word)
            return 0, (), None
        if word == 'SET':
            m = re.match(r'(?i)set\s+(?:session\s+)?(?:@@)?autocommit\s*=\s*(\w+)', q)
            if m:
                self.autocommit(m.group(1).upper() in ('1', 'ON', 'TRUE'))
            return 0, (), None
        if word in ('CREATE', 'ALTER', 'DROP', 'TRUNCATE'):
            self._end('COMMIT')
            if word == 'TRUNCATE':
                q = 'DELETE FROM ' + q.split()[-1]
        elif not self._auto and not self.db.in_transaction:
            self.db.execute('BEGIN')
        try:
            table = re.match(r'(?i)update\s+(\w+)', q)
            before = None
            if table and not self.found_rows:
                before = self.db.execute('SELECT rowid, * FROM %s' % table.group(1)).fetchall()
            cur = self.db.execute(q, args)
            for x in more:
                self.db.execute(x)
            rows = tuple(cur.fetchall())
            if cur.description:
                count = len(rows)
            elif before is not None:
                after = self.db.execute('SELECT rowid, * FROM %s' % table.group(1)).fetchall()
                count = len(set(after) - set(before))
            else:
                count = cur.rowcount
        except sqlite3.Error as exc:
            raise translate(exc) from exc
        if word in ('INSERT', 'UPDATE', 'DELETE', 'REPLACE'):
            SERVER.changes += 1
        return max(count, 0), rows, cur.description

    def _point(self):
        """The server is asked for something, which may fail."""
        self._alive()
        SERVER.statements += 1
        if SERVER.fail_at is not None and SERVER.statements == SERVER.fail_at:
            if SERVER.fail_how == 'gone':
                self._lose()
            raise my.OperationalError(1205, 'Lock wait timeout exceeded; try restarting transaction')

    def _alive(self):
        if self.dead:
            raise my.OperationalError(2006, 'MySQL server has gone away')

    def _lose(self):
        if self.db.in_transaction:
            self.db.execute('ROLLBACK')
        self.dead = True
        raise my.OperationalError(2013, 'Lost connection to MySQL server during query')

    def _end(self, word):
        if self.db.in_transaction:
            self.db.execute(word)

    # the interface of MySQLdb
    def autocommit(self, on):
        self._alive()
        if on and not self._auto:
            self._end('COMMIT')
        self._auto = bool(on)

    def get_autocommit(self):
        return self._auto

    def begin(self):
        self._point()
        self._end('COMMIT')
        self.db.execute('BEGIN')

    def commit(self):
        self._point()
        self._end('COMMIT')

    def rollback(self):
        self._alive()
        self._end('ROLLBACK')

    def query(self, query):
        self.run(query, ())

    def cursor(self, cursorclass=None):
        self._alive()
        return Cursor(self)

    def ping(self, *args):
        self._alive()

    def set_character_set(self, charset):
        pass

    def close(self):
        if self.db.in_transaction:
            self.db.execute('ROLLBACK')
        self.dead = True
        self.db.close()
        if self in SERVER.live:
            SERVER.live.remove(self)


def connect(*args, **kwargs):
    return Connection(*args, **kwargs)


def install():
    """Before gb.hypergraph.mysql is imported."""
    import MySQLdb.connections
    MySQLdb.connect = MySQLdb.Connect = connect
    MySQLdb.Connection = Connection
    MySQLdb.connections.Connection = Connection
