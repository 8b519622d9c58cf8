"""A simulated web server behind a stand-in for the requests package."""
import sys
import time
import types

from . import sim as S


class Headers(dict):
    """Case-insensitive, as requests' headers are."""

    def __init__(self, d=()):
        dict.__init__(self)
        for k, v in dict(d).items():
            self[k] = v

    def __setitem__(self, k, v):
        dict.__setitem__(self, k.lower(), v)

    def __getitem__(self, k):
        return dict.__getitem__(self, k.lower())

    def __contains__(self, k):
        return dict.__contains__(self, k.lower())

    def get(self, k, default=None):
        return dict.get(self, k.lower(), default)


def make_module():
    m = types.ModuleType('requests')
    e = types.ModuleType('requests.exceptions')

    class RequestException(IOError):
        pass

    class HTTPError(RequestException):
        pass

    class ConnectionError(RequestException):     # noqa: A001
        pass

    class Timeout(RequestException):
        pass

    class ConnectTimeout(ConnectionError, Timeout):
        pass

    class ReadTimeout(Timeout):
        pass

    class ChunkedEncodingError(RequestException):
        pass

    class ContentDecodingError(RequestException):
        pass
    for c in (RequestException, HTTPError, ConnectionError, Timeout, ConnectTimeout, ReadTimeout, ChunkedEncodingError,
              ContentDecodingError):
        setattr(e, c.__name__, c)
        setattr(m, c.__name__, c)
    m.exceptions = e
    return m


class Server(object):
    """Serves files; one fault decision per request and per received piece of the body."""

    def __init__(self, sim, files, faults=None, delay=0.2, exhausted=None):
        self.sim = sim
        self.files = files              # url suffix -> bytes
        self.faults = list(faults or ())
        self.delay = delay
        self.requests = 0
        self.piece = 0
        self.served = 0
        self.hits = []
        self.mod = make_module()
        srv = self

        def get(url, params=None, stream=False, timeout=None, headers=None, **kw):
            return srv.get(url, stream, timeout)

        class Session(object):
            headers = {}

            def get(self, url, **kw):
                return get(url, **kw)

            def close(self):
                pass

            def mount(self, *a):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        self.mod.get = get
        self.mod.request = lambda method, url, **kw: get(url, **kw)
        self.mod.Session = self.mod.session = Session
        self.mod.codes = types.SimpleNamespace(ok=200)

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in ('requests', 'requests.exceptions')}
        sys.modules['requests'] = self.mod
        sys.modules['requests.exceptions'] = self.mod.exceptions
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v

    def hit(self, kind):
        self.hits.append(kind)
        c = self.sim.fault_counts
        c['net_' + kind] = c.get('net_' + kind, 0) + 1

    def get(self, url, stream, timeout, healthy=False):
        sim = self.sim
        sim.seam('net')
        self.requests += 1
        f = self.faults.pop(0) if self.faults and not healthy else None
        sim.log('net', url.rsplit('/', 1)[-1], str(f))
        time.sleep(self.delay)
        ex = self.mod.exceptions
        body = None
        for k, v in self.files.items():
            if url.endswith(k):
                body = v
        status = 200
        if body is None:
            status, body = 404, b'not found'
        if f:
            if f[0] == 'refused':
                self.hit('refused')
                raise ex.ConnectionError('connection refused')
            if f[0] == 'connect_timeout':
                self.hit('connect_timeout')
                time.sleep(timeout if isinstance(timeout, (int, float)) else 75)
                raise ex.ConnectTimeout('timed out')
            if f[0] == 'status':
                self.hit('status')
                status, body = f[1], b'<html>error %d, try again later</html>' % f[1]
        r = Response(self, url, status, body, f)
        if not stream:
            r.content
        return r


class Response(object):
    def __init__(self, srv, url, status, body, fault):
        self.srv, self.url, self.status_code, self.body, self.fault = srv, url, status, body, fault
        self.reason = 'OK' if status == 200 else 'Error'
        self.ok = status < 400
        self.headers = Headers({'Content-Length': str(len(body)), 'Content-Type': 'application/octet-stream'})
        if fault and fault[0] == 'no_length':
            srv.hit('no_length')
            del_key = 'content-length'
            dict.pop(self.headers, del_key)
        self.pos = 0
        self.piece = srv.piece             # the most one receive delivers
        self.raw = self
        self._content = None

    def raise_for_status(self):
        if self.status_code >= 400:
            raise self.srv.mod.exceptions.HTTPError('%d Error for url: %s' % (self.status_code, self.url))

    def _recv(self, n):
        srv = self.srv
        srv.sim.seam('net')
        time.sleep(srv.delay)
        end = len(self.body)
        f = self.fault
        ex = srv.mod.exceptions
        if f and f[0] in ('break', 'short', 'stall'):
            cut = min(int(f[1] * len(self.body)), len(self.body) - 1)
            if self.pos + n > cut and self.pos >= cut:
                srv.hit(f[0])
                if f[0] == 'break':
                    raise ex.ChunkedEncodingError('connection broken: IncompleteRead')
                if f[0] == 'stall':
                    time.sleep(3600)
                    raise ex.ConnectionError('read timed out / connection reset')
                return b''
            end = cut
        if self.piece:
            n = min(n, max(self.piece, len(self.body) // 300))
        d = self.body[self.pos:min(self.pos + n, end)]
        self.pos += len(d)
        srv.sim.log('net-recv', len(d), self.pos)
        return d

    def iter_content(self, chunk_size=1, decode_unicode=False):
        n = chunk_size or len(self.body) + 1
        while True:
            d = self._recv(n)
            if not d:
                return
            yield d

    def read(self, n=-1, *a, **kw):
        if n is None or n < 0:
            return b''.join(self.iter_content(65536))
        return self._recv(n)

    @property
    def content(self):
        if self._content is None:
            self._content = b''.join(self.iter_content(65536))
        return self._content

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
