"""A fake internet below `requests`: HTTPAdapter.send() is answered from a table.

Everything above (Session, Response, iter_content, raise_for_status) is the real code.
"""
import io
import requests
import requests.adapters
import urllib3.exceptions


class Raw:
    """Body of a response, delivered in the fragments chosen by the explorer"""

    def __init__(self, fragments, error=None, on_fragment=None):
        self.fragments = list(fragments)
        self.error = error
        self.closed = False
        self.on_fragment = on_fragment
        self._left = b''

    def stream(self, amt=65536, decode_content=None):
        for frag in self.fragments:
            if self.on_fragment:
                self.on_fragment()
            if frag:
                yield frag
        self.fragments = []
        if self.error is not None:
            raise self.error

    def read(self, amt=None, decode_content=None, **kw):
        # plain file interface, for code which reads from r.raw
        data = self._left
        while self.fragments and (amt is None or len(data) < amt):
            data += self.fragments.pop(0)
        if self.error is not None and (amt is None or len(data) < amt):
            raise self.error
        if amt is None:
            self._left = b''
            return data
        self._left = data[amt:]
        return data[:amt]

    def close(self):
        self.closed = True

    def release_conn(self):
        self.closed = True


class Net:
    """routes: {url: bytes | (status, bytes) | callable(request) -> either}"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.routes = {}
        self.headers = {}      # {url: {header: value}}
        self.log = []          # [(method, url)]
        self.fragmenter = None  # callable(url, body) -> [fragments]
        self.fault = None      # callable(index, method, url, body) -> None | action
        self.before = None     # callable(method, url), scheduling point
        self.after = None

    def gets(self):
        return [u for m, u in self.log if m == 'GET']

    def respond(self, request, stream):
        url = request.url
        index = len(self.log)
        self.log.append((request.method, url))
        if self.before:
            self.before(request.method, url)
        entry = self.routes.get(url, (404, b'not found'))
        if callable(entry):
            entry = entry(request)
        if isinstance(entry, bytes):
            entry = (200, entry)
        status, body = entry
        error = None
        if self.fault:
            action = self.fault(index, request.method, url, body)
            if action is not None:
                kind = action[0]
                if kind == 'status':
                    # with a third value, the body looks right
                    status, body = action[1], body if len(action) > 2 else b'error page'
                elif kind == 'connect':
                    raise requests.exceptions.ConnectionError('refused', request=request)
                elif kind == 'timeout':
                    raise requests.exceptions.ReadTimeout('timeout', request=request)
                elif kind == 'cut':
                    # connection lost after n bytes of the body
                    body = body[:action[1]]
                    error = urllib3.exceptions.ProtocolError('Connection broken', urllib3.exceptions.IncompleteRead(len(body), 1))
                elif kind == 'interrupt':
                    raise KeyboardInterrupt()
                else:
                    raise AssertionError(kind)
        r = requests.Response()
        r.status_code = status
        r.reason = 'reason'
        r.url = url
        r.request = request
        r.headers = requests.structures.CaseInsensitiveDict(self.headers.get(url, {}))
        r.encoding = None
        fragments = [body] if self.fragmenter is None else self.fragmenter(url, body)
        if request.method == 'HEAD':
            fragments, error = [], None
        r.raw = Raw(fragments, error)
        if self.after:
            self.after(request.method, url)
        return r


net = Net()


def _send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    return net.respond(request, stream)

requests.adapters.HTTPAdapter.send = _send
