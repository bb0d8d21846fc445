"""The simulated network: urllib and requests calls of the code under test end at a
Server object; every request and every block transferred is a fault point."""
import email.message
import io
import json
import urllib.error
import urllib.request
from urllib.parse import urlsplit

from . import core

# faults particular to network points
core.POINT_KINDS['net.request'] = ('connerr', 'timeout', 'http500', 'http404', 'errpage', 'shortlist',
                                   'interrupt', 'kill')
core.POINT_KINDS['net.read'] = ('reset', 'truncate', 'interrupt', 'kill', 'reset', 'truncate')

ERRPAGE = b'<html><head><title>503 Service Unavailable</title></head><body>try later</body></html>'


class Server:
    """url -> bytes (published files), or a callable(url) -> bytes for listings."""

    def __init__(self):
        self.files = {}
        self.listings = {}          # url -> callable(short: frac or None) -> bytes
        self.requests = []          # urls in order
        self.block = 4096

    def lookup(self, url):
        u = url.replace('https://', '').replace('http://', '')
        u = u.split('?')[0]
        for k in (u, u.rstrip('/'), u.rstrip('/') + '/'):
            if k in self.files:
                return self.files[k], None
            if k in self.listings:
                return self.listings[k](None), self.listings[k]
        return None, None

    def put(self, url, data):
        self.files[url.replace('https://', '').replace('http://', '')] = data

    def put_listing(self, url, fn):
        self.listings[url.replace('https://', '').replace('http://', '')] = fn


class _Body:
    """A response body read block by block; may end early or break off."""

    def __init__(self, w, data, url):
        self.w, self.data, self.url = w, data, url
        self.pos = 0
        self.broken = None
        self.closed = False

    def read(self, amt=None):
        if self.closed:
            return b''
        n = len(self.data) - self.pos
        if amt is None or amt < 0:
            out = []
            while True:
                b = self._block(65536)
                if not b:
                    return b''.join(out)
                out.append(b)
        return self._block(min(amt, n) if n else 0, amt)

    def _block(self, n, amt=None):
        if self.pos >= len(self.data):
            return b''

        def eff():
            b = self.data[self.pos:self.pos + (n or 65536)]
            self.pos += len(b)
            self.w.tick(0.01 + len(b) / 1e6)
            return b

        def reset(f):
            raise ConnectionResetError(104, 'simulated: connection reset by peer')

        def trunc(f):
            # the connection closes after part of this block: nothing more will come
            k = self.pos + int((n or 65536) * f.get('frac', 0.5))
            b = self.data[self.pos:k]
            self.data = self.data[:k]
            self.pos = len(self.data)
            return b
        return self.w.point('net.read', self.url, eff, custom={'reset': reset, 'truncate': trunc})


def _request(w, url):
    """-> (status, body bytes, length); raises for connection level faults."""
    srv = w.net

    def eff():
        if srv is None:
            return ('refused',)
        w.tick(0.2)
        srv.requests.append(url)
        data, lst = srv.lookup(url)
        if data is None:
            return (404, b'not found')
        return (200, data)

    def connerr(f):
        return ('refused',)

    def timeout(f):
        w.tick(60.0)
        return ('timeout',)

    def errpage(f):
        if srv is None:
            return ('refused',)
        data, lst = srv.lookup(url)
        return (200, ERRPAGE) if lst is not None else (503, ERRPAGE)

    def short(f):
        if srv is None:
            return ('refused',)
        data, lst = srv.lookup(url)
        if lst is None:
            return (503, ERRPAGE)
        return (200, lst(f.get('frac', 0.5)))
    return w.point('net.request', url, eff,
                   custom={'connerr': connerr, 'timeout': timeout, 'errpage': errpage, 'shortlist': short,
                           'http500': lambda f: (500, ERRPAGE), 'http404': lambda f: (404, b'not found')})


def install(_w):
    o_urlopen = urllib.request.urlopen

    class Resp(io.RawIOBase):
        def __init__(self, w, url, status, data):
            self._b = _Body(w, data, url)
            self.status = self.code = status
            self.url = url
            self.headers = email.message.Message()
            self.headers['Content-Length'] = str(len(data))
            self.length = len(data)
            self._full = len(data)
            self.reason = 'OK'

        def info(self):
            return self.headers

        def geturl(self):
            return self.url

        def getheader(self, name, default=None):
            return self.headers.get(name, default)

        def getcode(self):
            return self.status

        def readable(self):
            return True

        def read(self, amt=-1):
            import http.client
            b = self._b.read(None if amt is None or amt < 0 else amt)
            if (amt is None or amt < 0) and len(self._b.data) < self._full:
                raise http.client.IncompleteRead(b, self._full - len(self._b.data))
            return b

        def readinto(self, buf):
            b = self._b.read(len(buf))
            buf[:len(b)] = b
            return len(b)

    def urlopen(url, *a, **k):
        w = _w()
        if w is None:
            return o_urlopen(url, *a, **k)
        u = url if isinstance(url, str) else url.full_url
        if u.startswith('file:'):
            return o_urlopen(url, *a, **k)
        r = _request(w, u)
        if r[0] == 'refused':
            raise urllib.error.URLError(ConnectionRefusedError(111, 'simulated: connection refused'))
        if r[0] == 'timeout':
            raise urllib.error.URLError(TimeoutError('simulated: timed out'))
        if r[0] >= 400:
            raise urllib.error.HTTPError(u, r[0], 'simulated', email.message.Message(), io.BytesIO(r[1]))
        return Resp(w, u, r[0], r[1])
    urllib.request.urlopen = urlopen

    import requests
    import requests.adapters
    import urllib3
    o_send = requests.adapters.HTTPAdapter.send

    class Raw(io.RawIOBase):
        def __init__(self, body, full):
            self.b, self.full = body, full

        def readable(self):
            return True

        def read(self, amt=-1):
            try:
                b = self.b.read(None if amt is None or amt < 0 else amt)
            except ConnectionResetError as e:
                raise urllib3.exceptions.ProtocolError('Connection broken: %r' % e, e)
            if not b and len(self.b.data) < self.full or \
                    ((amt is None or amt < 0) and len(self.b.data) < self.full):
                raise urllib3.exceptions.IncompleteRead(len(self.b.data), self.full - len(self.b.data))
            return b

        def readinto(self, buf):
            b = self.read(len(buf))
            buf[:len(b)] = b
            return len(b)

        def stream(self, amt=65536, decode_content=None):
            while True:
                b = self.read(amt)
                if not b:
                    return
                yield b

        def release_conn(self):
            pass

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        w = _w()
        if w is None:
            return o_send(self, request, stream=stream, timeout=timeout, verify=verify, cert=cert,
                          proxies=proxies)
        r = _request(w, request.url)
        if r[0] == 'refused':
            raise requests.exceptions.ConnectionError('simulated: connection refused', request=request)
        if r[0] == 'timeout':
            raise requests.exceptions.ReadTimeout('simulated: timed out', request=request)
        resp = requests.Response()
        resp.status_code = r[0]
        resp.url = request.url
        resp.request = request
        resp.headers['Content-Length'] = str(len(r[1]))
        resp.headers['Content-Type'] = 'text/html; charset=utf-8'
        resp.encoding = 'utf-8'
        resp.reason = 'OK' if r[0] < 400 else 'Simulated Error'
        resp.raw = Raw(_Body(w, r[1], request.url), len(r[1]))
        resp.connection = self
        if not stream:
            resp.content
        return resp
    requests.adapters.HTTPAdapter.send = send
