"""Real HTTP workers on loopback, in threads of this process."""

from __future__ import annotations

import contextlib
import socket
import threading
import time

import httpx
import uvicorn

from mplang.backends.simp_worker import http as H


class Server:
    """One app served by uvicorn on an already bound loopback socket."""

    def __init__(self, app, sock):
        cfg = uvicorn.Config(app, log_level="critical", lifespan="on", access_log=False, timeout_graceful_shutdown=1)
        self.srv = uvicorn.Server(cfg)
        self.srv.install_signal_handlers = lambda: None
        self.thread = threading.Thread(target=self.srv.run, kwargs={"sockets": [sock]}, daemon=True)
        self.thread.start()

    def ready(self):
        end = time.time() + 30
        while not self.srv.started:
            if time.time() > end or not self.thread.is_alive():
                raise RuntimeError("worker does not start")
            time.sleep(0.005)


class Cluster:
    """n workers made by create_worker_app; comms[i] is worker i's communicator, stores[i] its store."""

    def __init__(self, n, stores=None):
        socks = []
        for _ in range(n):
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("127.0.0.1", 0))
            s.listen(256)
            socks.append(s)
        self.endpoints = [f"http://127.0.0.1:{s.getsockname()[1]}" for s in socks]
        self.comms, self.stores, self.infras = [], [], []
        real = H.register_routes

        def spy(app, **kw):
            self.comms.append(kw["comm"])
            self.stores.append(kw["store"])
            self.infras.append(kw["infra"])
            return real(app, **kw)

        H.register_routes = spy
        try:
            apps = [H.create_worker_app(i, n, self.endpoints, store=None if stores is None else stores[i]) for i in range(n)]
        finally:
            H.register_routes = real
        self.servers = [Server(a, s) for a, s in zip(apps, socks)]
        for s in self.servers:
            s.ready()
        self.http = httpx.Client(timeout=20)

    def close(self):
        self.http.close()
        for s in self.servers:
            s.srv.should_exit = True
            s.srv.force_exit = True


_cache = {}


def shared(n) -> Cluster:
    """A cluster kept for the life of this process."""
    if n not in _cache:
        _cache[n] = Cluster(n)
    return _cache[n]


def renew(n):
    c = _cache.pop(n, None)
    if c is not None:
        with contextlib.suppress(Exception):
            c.close()
