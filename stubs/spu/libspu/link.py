import threading

CREATED = []  # (mode, rank, parties) of every link made, for the checks to read


class IChannel:
    def __init__(self):
        pass


class Desc:
    def __init__(self):
        self.parties = []
        self.recv_timeout_ms = 0

    def add_party(self, name, host):
        self.parties.append((name, host))


class Context:
    def __init__(self, mode, desc, rank, channels=None, ident="root"):
        self.mode, self.desc, self.rank_, self.channels = mode, desc, rank, channels
        self.ident = ident
        self._spawned = 0
        self._seq = 0
        self._lock = threading.Lock()

    @property
    def rank(self):
        return self.rank_

    @property
    def world_size(self):
        return len(self.desc.parties)

    def spawn(self):
        with self._lock:
            n = self._spawned
            self._spawned += 1
        return Context(self.mode, self.desc, self.rank_, self.channels, f"{self.ident}-{n}")

    def all_gather(self, data):
        """Every party's bytes, in rank order (itself only, where there are no channels)."""
        if self.mode != "channels":
            return None
        with self._lock:
            tag = f"{self.ident}:{self._seq}"
            self._seq += 1
        for ch in self.channels:
            if ch is not None:
                ch.SendAsync(tag, data)
        out = []
        for i, ch in enumerate(self.channels):
            out.append(data if i == self.rank_ else ch.Recv(tag))
        return out


def create_mem(desc, rank):
    CREATED.append(("mem", rank, tuple(desc.parties)))
    return Context("mem", desc, rank)


def create_brpc(desc, rank):
    CREATED.append(("brpc", rank, tuple(desc.parties)))
    return Context("brpc", desc, rank)


def create_with_channels(desc, rank, channels):
    CREATED.append(("channels", rank, tuple(desc.parties)))
    assert channels[rank] is None
    return Context("channels", desc, rank, list(channels))
