"""A web behind aiohttp's client interface: every request is one recorded attempt."""
from __future__ import annotations

import asyncio
import json


class Attempt:
    def __init__(self, n, url, t0):
        self.n, self.url, self.t0, self.t1 = n, url, t0, None
        self.outcome = None  # ok / error / cancelled
        self.body = None
        self.kind = "ok"

    def __repr__(self):
        return f"<{self.url} {self.t0:.4f}..{self.t1 if self.t1 is None else round(self.t1, 4)} {self.kind} {self.outcome}>"


class SimWeb:
    """``handler(url) -> (status, body)``; ``fault(url, attempt)`` picks a fault."""

    def __init__(self, world, handler, fault):
        self.w, self.handler, self.fault = world, handler, fault
        self.attempts = []
        self.base = 0.0

    def install(self):
        import aiohttp
        import zigpy.ota.providers as P

        web = self

        class Session(SimSession):
            def __init__(self, *a, **kw):
                super().__init__(web, *a, **kw)

        aiohttp.ClientSession = Session
        if hasattr(P, "ClientSession"):
            P.ClientSession = Session

    def begin(self, url):
        a = Attempt(len(self.attempts), url, self.w.now)
        self.attempts.append(a)
        self.w.log("http.start", a.n, url)
        return a

    def finish(self, a, outcome):
        if a.t1 is None:
            a.t1, a.outcome = self.w.now, outcome
            self.w.log(f"http.{a.kind}.{outcome}", a.n)


class SimSession:
    def __init__(self, web, *, headers=None, raise_for_status=False, **kw):
        self.web, self.raise_for_status = web, raise_for_status
        self.closed = False

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        self.closed = True

    async def close(self):
        self.closed = True

    def get(self, url, *, raise_for_status=None, **kw):
        return _Request(self, str(url), self.raise_for_status if raise_for_status is None else raise_for_status)

    def request(self, method, url, **kw):
        assert method.upper() == "GET"
        return self.get(url, **kw)


class _Request:
    def __init__(self, session, url, raise_for_status):
        self.session, self.url, self.raise_for_status = session, url, raise_for_status
        self.rsp = None

    async def _open(self):
        import aiohttp

        web = self.session.web
        w = web.w
        assert not self.session.closed, "request on a closed session"
        a = web.begin(self.url)
        try:
            kind, delay, late = web.fault(self.url, a)
            a.kind = kind
            if kind != "ok":
                w.stats[f"fault_http_{kind}"] += 1
            if kind == "hang" and not late:
                await asyncio.get_running_loop().create_future()
            if not late:
                await asyncio.sleep(delay)
            if kind == "connect":
                raise aiohttp.ClientConnectionError("simulated connection failure")
            if kind == "oserror":
                raise OSError(113, "simulated: no route to host")
            if kind == "status":
                if self.raise_for_status:
                    raise aiohttp.ClientResponseError(None, (), status=503, message="simulated")
                status, body = 503, b"<html>busy</html>"
            else:
                status, body = web.handler(self.url, kind)
                if status >= 400 and self.raise_for_status:
                    raise aiohttp.ClientResponseError(None, (), status=status, message="simulated")
        except BaseException as e:
            web.finish(a, "cancelled" if isinstance(e, asyncio.CancelledError) else "error")
            raise
        self.rsp = SimResponse(web, a, status, body, delay if late else 0.0)
        return self.rsp

    async def __aenter__(self):
        return await self._open()

    async def __aexit__(self, *exc):
        if self.rsp is not None:
            self.rsp.close()

    def __await__(self):
        return self._open().__await__()


class SimResponse:
    def __init__(self, web, a, status, body, delay):
        self.web, self.a, self.status, self._body, self._delay = web, a, status, body, delay
        self.ok = status < 400
        self.headers = {}

    async def read(self):
        import aiohttp

        a = self.a
        try:
            if a.kind == "hang":
                await asyncio.get_running_loop().create_future()
            if self._delay:
                d, self._delay = self._delay, 0.0
                await asyncio.sleep(d)
            if a.kind == "payload":
                raise aiohttp.ClientPayloadError("simulated: connection closed while reading")
        except BaseException as e:
            self.web.finish(a, "cancelled" if isinstance(e, asyncio.CancelledError) else "error")
            raise
        a.body = self._body
        self.web.finish(a, "ok")
        return self._body

    async def text(self, *a, **kw):
        return (await self.read()).decode(errors="replace")

    async def json(self, *, content_type="application/json", **kw):
        return json.loads((await self.read()).decode())

    def raise_for_status(self):
        import aiohttp

        if self.status >= 400:
            raise aiohttp.ClientResponseError(None, (), status=self.status, message="simulated")

    def release(self):
        self.close()

    def close(self):
        self.web.finish(self.a, "unread")
