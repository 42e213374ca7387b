"""A stand-in NetsBlox server on the loopback network and helpers to run the command-line program against it."""
import base64, hashlib, http.server, json, os, socket, struct, subprocess, sys, threading, time, urllib.error, urllib.request
from html import escape

class Server:
    def __init__(self, rpc=None):
        self.rpc = rpc or (lambda service, name, args: (200, 'application/json', json.dumps('result')))
        self.sent, self.ws, self.ready = [], None, threading.Event()
        me = self
        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'
            def log_message(self, *a): pass
            def answer(self, status, ctype, body):
                body = body.encode() if isinstance(body, str) else body
                self.send_response(status)
                self.send_header('Content-Type', ctype)
                self.send_header('Content-Length', str(len(body)))
                self.end_headers()
                self.wfile.write(body)
            def do_GET(self):
                if self.headers.get('Upgrade', '').lower() == 'websocket':
                    key = base64.b64encode(hashlib.sha1((self.headers['Sec-WebSocket-Key'] + '258EAFA5-E914-47DA-95CA-C5AB0DC85B11').encode()).digest()).decode()
                    self.wfile.write(f'HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {key}\r\n\r\n'.encode())
                    self.wfile.flush()
                    self.close_connection = True
                    me.socket(self)
                    return
                self.answer(200, 'application/json', json.dumps({'servicesHosts': [{'url': me.url + '/services', 'categories': []}]}))
            def do_POST(self):
                body = self.rfile.read(int(self.headers.get('Content-Length', 0)))
                if self.path.startswith('/projects'):
                    return self.answer(200, 'application/json', json.dumps({'id': 'proj', 'roles': {'r1': {'name': 'role'}}}))
                if self.path.startswith('/services'):
                    parts = self.path.split('?')[0].split('/')
                    return self.answer(*me.rpc(parts[-2], parts[-1], json.loads(body or b'{}')))
                self.answer(200, 'application/json', '{}')
        self.http = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
        self.http.daemon_threads = True
        self.url = f'http://127.0.0.1:{self.http.server_address[1]}'
        threading.Thread(target=self.http.serve_forever, daemon=True).start()
    def socket(self, h):
        self.ws = h.connection
        f = h.rfile
        self.ready.set()
        try:
            while True:
                a, b = f.read(2)
                n = b & 127
                if n == 126: n, = struct.unpack('>H', f.read(2))
                elif n == 127: n, = struct.unpack('>Q', f.read(8))
                mask = f.read(4) if b & 128 else bytes(4)
                data = bytes(x ^ mask[i % 4] for i, x in enumerate(f.read(n)))
                if a & 15 == 1: self.sent.append(json.loads(data))
                if a & 15 == 8: return
        except (ValueError, OSError): pass
    def push(self, msg):
        data = msg.encode() if isinstance(msg, str) else json.dumps(msg).encode()
        n = len(data)
        head = bytes([0x81, n]) if n < 126 else bytes([0x81, 126]) + struct.pack('>H', n) if n < 65536 else bytes([0x81, 127]) + struct.pack('>Q', n)
        self.ws.sendall(head + data)

NB = sys.argv[1]
class Program:
    """the program with the given arguments; its output is gathered line by line"""
    def __init__(self, server, *args, text=True):
        args = [a for a in args]
        self.p = subprocess.Popen([NB, *args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        self.lines = []
        threading.Thread(target=self.read, daemon=True).start()
    def read(self):
        for x in self.p.stdout: self.lines.append(x.decode('utf8', 'replace').rstrip('\n'))
    def wait(self, what, seconds=20):
        end = time.time() + seconds
        while time.time() < end:
            if any(what in x for x in self.lines): return True
            time.sleep(0.02)
        return False
    def end(self):
        self.p.kill()
        self.p.wait()
def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p
def http_call(method, url, body=None):
    r = urllib.request.Request(url, method=method, data=body.encode() if isinstance(body, str) else body)
    try:
        with urllib.request.urlopen(r, timeout=20) as x: return x.status, x.read().decode()
    except urllib.error.HTTPError as e: return e.code, e.read().decode()
def wait_port(port, seconds=20):
    end = time.time() + seconds
    while time.time() < end:
        try:
            socket.create_connection(('localhost', port), 1).close()
            return
        except OSError: time.sleep(0.05)
def expect(got, want):
    if got != want:
        print(f'expected {want!r}\ngot      {got!r}', file=sys.stderr)
        os._exit(1)
def done():
    print('as expected')
    os._exit(0)

l = lambda s: f'<l>{escape(str(s))}</l>'
v = lambda s: f'<block var="{s}"/>'
b = lambda s, *args: f'<block s="{s}">{"".join(args)}</block>'
bi = lambda i, s, *args: f'<block s="{s}" collabId="{i}">{"".join(args)}</block>'
xs = lambda *items: f'<list>{"".join(items)}</list>'
sc = lambda *stmts: f'<script>{"".join(stmts)}</script>'
say = lambda x: b('bubble', x)
put = lambda n, x: b('doSetVar', l(n), x)
go = lambda *stmts: f'<script>{b("receiveGo")}{"".join(stmts)}</script>'
var = lambda n, x='<l>0</l>': f'<variable name="{n}">{x}</variable>'
call = lambda name, *args: b('nativeCallSyscall', l(name), xs(*args))
def project(globals, scripts, messages='', name='p'):
    body = lambda x: f'<costumes><list struct="atomic"></list></costumes><sounds><list struct="atomic"></list></sounds><blocks></blocks><variables></variables><scripts>{x}</scripts>'
    return f'<room name="{name}" app="NetsBlox"><role name="r"><project name="r" app="NetsBlox" version="1"><notes></notes><stage name="Stage" width="480" height="360" costume="0" color="255,255,255,1" tempo="60" threadsafe="false" penlog="false" volume="100" pan="0" lines="round" ternary="false" hyperops="true" codify="false" inheritance="false" sublistIDs="false" scheduled="false">{body("")}<messageTypes>{messages}</messageTypes><sprites><sprite name="A" idx="1" x="0" y="0" heading="90" scale="1" volume="100" pan="0" rotation="1" draggable="true" costume="0" color="80,80,80,1" pen="tip">{body(scripts)}</sprite></sprites></stage><hidden></hidden><headers></headers><code></code><blocks></blocks><variables>{globals}</variables><history></history></project><media name="r" app="NetsBlox" version="1"></media></role></room>'
