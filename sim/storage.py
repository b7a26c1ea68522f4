"""Simulated SQLite worker: aiosqlite connections without a thread.

Real SQLite runs against a file in the run's scratch directory, but every
operation is executed by the event loop, in FIFO order per connection, after
a drawn delay; statements and commits can fail and the "machine" can crash
between any two of them (the files are copied as the crash leaves them).
"""
from __future__ import annotations

import os
import shutil
import sqlite3

import aiosqlite
import aiosqlite.core

from .core import WORLD  # noqa: F401  (resolved at run time through the module)
from . import core

_installed = False


class Storage:
    """Per-run state: installed as world.storage."""

    def __init__(self, world, delay=0.0, fault_p=0.0):
        self.w = world
        self.delay = delay
        self.steps = 0  # database operations executed so far
        self.inject = None  # fn(kind, sql, n) -> None | ("skip"/"rollback", exc)
        self.on_step = None  # fn(n, kind, sql, phase, conn)
        self.conns = []
        self.open = 0
        self.all = []  # aiosqlite connections opened in this run
        self.dead = False  # after a crash nothing reaches the files any more

    def leaked(self):
        """Connections nobody closed."""
        return [c for c in self.all if c._connection is not None]


def install():
    global _installed
    if _installed:
        return
    _installed = True
    C = aiosqlite.core.Connection

    def start(self):
        return None

    def join(self, timeout=None):
        return None

    async def _execute(self, fn, *args, **kwargs):
        if not self._running or not self._connection:
            raise ValueError("Connection closed")
        return await _enqueue(self, fn, args, kwargs)

    async def _connect(self):
        if self._connection is None:
            try:
                self._connection = await _enqueue(self, self._connector, (), {}, kind="connect")
            except Exception:
                self._stop_running()
                self._connection = None
                raise
        return self

    C.start = start
    C.join = join
    C._execute = _execute
    C._connect = _connect


def _kind(fn):
    n = getattr(fn, "__name__", "") or ""
    if n in ("execute", "executemany", "executescript", "commit", "rollback", "close", "fetchone", "fetchall", "fetchmany", "cursor"):
        return n
    return n or "call"


def _enqueue(conn, fn, args, kwargs, kind=None):
    w = core.WORLD
    loop = w.loop
    st = w.storage
    fut = loop.create_future()
    kind = kind or _kind(fn)
    q = conn.__dict__.setdefault("_sim_q", [])
    q.append((fut, fn, args, kwargs, kind))
    if len(q) == 1:
        _arm(conn, w, st)
    return fut


def _arm(conn, w, st):
    d = w.dec.uniform("db.delay", 0.0, st.delay, grid=st.delay / 2) if st.delay else 0.0
    if d:
        w.loop.call_later(d, _go, conn, w, st)
    else:
        w.loop.call_soon(_go, conn, w, st)


MUTATING = ("execute", "executemany", "executescript", "commit", "rollback", "connect", "close")


def _go(conn, w, st):
    q = conn._sim_q
    fut, fn, args, kwargs, kind = q.pop(0)
    sql = args[0] if args and isinstance(args[0], str) else ""
    try:
        if st.dead or conn.__dict__.get("_sim_dead"):
            return  # the process is gone: nobody will ever be called back
        if kind in MUTATING:
            st.steps += 1
            n = st.steps
            if st.on_step is not None:
                st.on_step(n, kind, sql, "before", conn)
                if st.dead:
                    return
            inj = st.inject(kind, sql, n) if st.inject is not None else None
        else:
            n, inj = st.steps, None
        try:
            if inj is not None:
                how, exc = inj
                w.log("db_fault", kind, sql[:40], how)
                if how == "rollback" and conn._connection is not None:
                    conn._connection.rollback()
                elif how == "done":
                    fn(*args, **kwargs)
                raise exc
            r = fn(*args, **kwargs)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (core.SimWallTimeout, core.SimStepLimit, core.SimDeadlock)):
                raise
            if kind in MUTATING:
                w.log("db_err", kind, sql[:40], type(e).__name__)
            if not fut.done():
                fut.set_exception(e)
        else:
            if kind == "connect":
                st.all.append(conn)
                r.execute("PRAGMA busy_timeout = 0")  # never wait in real time
            if kind in MUTATING:
                w.log("db", kind, " ".join(sql.split())[:48])
                if st.on_step is not None:
                    st.on_step(n, kind, sql, "after", conn)
            if not fut.done():
                fut.set_result(r)
    finally:
        if q:
            _arm(conn, w, st)


def attach(world, **kw):
    install()
    world.storage = Storage(world, **kw)
    return world.storage


def copy_db(src, dst):
    """The files exactly as a process kill leaves them."""
    for suf in ("", "-wal", "-journal"):
        if os.path.exists(src + suf):
            shutil.copyfile(src + suf, dst + suf)
        elif os.path.exists(dst + suf):
            os.unlink(dst + suf)


def power_loss(path, keep):
    """Lose the unsynced tail of the write-ahead log."""
    wal = path + "-wal"
    if os.path.exists(wal):
        with open(wal, "r+b") as f:
            f.truncate(keep)


def wal_size(path):
    try:
        return os.path.getsize(path + "-wal")
    except OSError:
        return 0


def dump(path):
    """All user tables as {table: sorted rows} read by plain sqlite3."""
    con = sqlite3.connect(path)
    try:
        out = {}
        names = [r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name")]
        for nme in names:
            if nme.startswith("sqlite_"):
                continue
            out[nme] = sorted((tuple(r) for r in con.execute(f"SELECT * FROM {nme}")), key=repr)
        out["user_version"] = con.execute("PRAGMA user_version").fetchone()[0]
        return out
    finally:
        con.close()
