"""A web server at the other end of http.client's socket: answers and faults are decided by the harness, request by request."""
import gzip
import http.client
import io
import socket


class Sock:
    """what http.client needs of a socket"""

    def __init__(self, server, host, port):
        self.server, self.host, self.port, self.inp, self.out, self.eof, self.closed = server, host, port, b'', [], False, False

    def sendall(self, data):
        if self.closed:
            raise BrokenPipeError('closed')
        if not isinstance(data, (bytes, bytearray)):
            data = bytes(data)
        self.server.on_send(self)
        self.inp += data
        while (cut := self.inp.find(b'\r\n\r\n')) >= 0 and not self.eof:
            head = self.inp[:cut].decode('latin1').split('\r\n')
            headers = {k.lower(): v.strip() for k, _, v in (line.partition(':') for line in head[1:])}
            rest = self.inp[cut + 4:]
            if headers.get('transfer-encoding') == 'chunked':
                body, rest = unchunk(rest)
                if body is None:
                    return
            else:
                n = int(headers.get('content-length', 0))
                if len(rest) < n:
                    return
                body, rest = rest[:n], rest[n:]
            self.inp = rest
            self.server.requested(self, *head[0].split(' ')[:2], headers, body)

    def makefile(self, mode, *a):
        return io.BufferedReader(Raw(self), 64)  # little is read ahead, as if the network was slow

    def close(self):
        self.closed = True

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass


class Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        out = self.sock.out
        while out and not out[0]:
            out.pop(0)
        if not out:
            if self.sock.eof:
                return 0
            raise socket.timeout('nothing arrives')
        if isinstance(out[0], Exception):
            raise out[0]
        n = min(len(b), len(out[0]))
        b[:n], out[0] = out[0][:n], out[0][n:]
        return n


def unchunk(data):
    body = b''
    while True:
        cut = data.find(b'\r\n')
        if cut < 0:
            return None, data
        n = int(data[:cut], 16)
        if len(data) < cut + 4 + n:
            return None, data
        body += data[cut + 2:cut + 2 + n]
        data = data[cut + 4 + n:]
        if n == 0:
            return body, data


class Server:
    """answer(method, host, path, headers, body) -> (status, headers, body, options); options: encoding (plain, chunked, gzip,
    close), fault (None, truncated, silent, reset)"""

    def __init__(self, S, answer, on_send=None):
        self.answer, self.requests, self.connections = answer, [], []
        self.on_send = on_send or (lambda sock: None)

        def connect(conn):
            conn.sock = Sock(self, conn.host, conn.port)
            self.connections.append(conn.sock)
        S.patch(http.client.HTTPConnection, 'connect', connect)
        S.patch(http.client.HTTPSConnection, 'connect', connect)

    def requested(self, sock, method, path, headers, body):
        self.requests.append((method, sock.host, path, headers, body))
        self.port = sock.port
        status, extra, content, encoding, fault = self.answer(method, sock.host, path, headers, body)
        if fault == 'silent':  # an idle connection that the server has closed
            sock.eof = True
            return
        if fault == 'reset':
            sock.out.append(ConnectionResetError('reset'))
            return
        lines = [f'HTTP/1.1 {status} X', *(f'{k}: {v}' for k, v in extra.items())]
        if status == 304:
            content, encoding = b'', 'plain'
        if encoding == 'gzip':
            content = gzip.compress(content, mtime=0)
            lines.append('Content-Encoding: gzip')
        if encoding == 'chunked':
            lines.append('Transfer-Encoding: chunked')
            half = len(content) // 2
            content = b''.join(b'%x\r\n%s\r\n' % (len(c), c) for c in (content[:half], content[half:]) if c) + b'0\r\n\r\n'
        elif encoding == 'close':
            lines.append('Connection: close')
        elif status != 304:
            lines.append(f'Content-Length: {len(content)}')
        if fault in ('truncated', 'torn'):
            content = content[:-3] if len(content) < 40 else content[:-30]
        sock.out.append(('\r\n'.join(lines) + '\r\n\r\n').encode('latin1') + content)
        if fault == 'torn':
            sock.out.append(ConnectionResetError('reset'))
        if encoding == 'close' or fault == 'truncated':
            sock.eof = True
