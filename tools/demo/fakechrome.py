#!/usr/bin/env python3
"""A stand-in for Chrome that speaks just enough of the DevTools protocol: a page is loaded 0.4 s
after the navigation, and printing gives '%PDF-fake\n' + the text of the page that was loaded.
FAKE_FAIL names protocol methods that fail."""
import sys, os, socket, hashlib, base64, struct, json, threading, time, urllib.parse
FAIL = os.environ.get('FAKE_FAIL', '').split()
srv = socket.socket(); srv.bind(('127.0.0.1', 0)); srv.listen(1)
sys.stderr.write('\nDevTools listening on ws://127.0.0.1:%d/devtools/browser/fake\n' % srv.getsockname()[1]); sys.stderr.flush()
srv.settimeout(60)
c, _ = srv.accept()
req = b''
while b'\r\n\r\n' not in req: req += c.recv(4096)
key = [l.split(b':', 1)[1].strip() for l in req.split(b'\r\n') if l.lower().startswith(b'sec-websocket-key')][0]
acc = base64.b64encode(hashlib.sha1(key + b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11').digest())
c.sendall(b'HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: ' + acc + b'\r\n\r\n')
lock = threading.Lock()
def send(o):
    b = json.dumps(o).encode(); n = len(b)
    h = b'\x81' + (bytes([n]) if n < 126 else b'\x7e' + struct.pack('>H', n) if n < 65536 else b'\x7f' + struct.pack('>Q', n))
    with lock: c.sendall(h + b)
def rd(n):
    b = b''
    while len(b) < n:
        x = c.recv(n - len(b))
        if not x: os._exit(0)
        b += x
    return b
def frame():
    h = rd(2); n = h[1] & 127
    if n == 126: n = struct.unpack('>H', rd(2))[0]
    elif n == 127: n = struct.unpack('>Q', rd(8))[0]
    m = rd(4) if h[1] & 128 else b'\0' * 4
    d = rd(n)
    return h[0] & 15, bytes(b ^ m[i & 3] for i, b in enumerate(d))
tabs = {}
def info(t): return dict(targetId=t, type='page', title='', url='about:blank', attached=False, canAccessOpener=False)
def totab(t, o): send(dict(method='Target.receivedMessageFromTarget', params=dict(sessionId='s' + t, message=json.dumps(o), targetId=t)))
def load(t, url):
    time.sleep(0.4)
    try: tabs[t] = open(urllib.parse.unquote(url[7:])).read()
    except OSError: tabs[t] = 'page not found'
    totab(t, dict(method='Page.lifecycleEvent', params=dict(frameId='f', loaderId='l', name='networkAlmostIdle', timestamp=1.0)))
while True:
    op, d = frame()
    if op == 8: os._exit(0)
    if op not in (1, 2): continue
    m = json.loads(d); name = m['method']; p = m.get('params') or {}
    ok = lambda r: send(dict(id=m['id'], result=r))
    if name in FAIL: send(dict(id=m['id'], error=dict(code=-32000, message='refused'))); continue
    if name == 'Target.setDiscoverTargets':
        ok({}); tabs['T0'] = 'initial tab'
        send(dict(method='Target.targetCreated', params=dict(targetInfo=info('T0'))))
    elif name == 'Target.createTarget':
        t = 'T%d' % len(tabs); tabs[t] = 'blank'; ok(dict(targetId=t))
        send(dict(method='Target.targetCreated', params=dict(targetInfo=info(t))))
    elif name == 'Target.attachToTarget': ok(dict(sessionId='s' + p['targetId']))
    elif name == 'Target.sendMessageToTarget':
        ok({}); q = json.loads(p['message']); t = p['sessionId'][1:]; n = q['method']
        if n in FAIL: totab(t, dict(id=q['id'], error=dict(code=-32000, message='refused'))); continue
        r = {}
        if n == 'Page.navigate':
            r = dict(frameId='f'); threading.Thread(target=load, args=(t, q['params']['url']), daemon=True).start()
        elif n == 'Page.printToPDF': r = dict(data=base64.b64encode(('%PDF-fake\n' + tabs[t]).encode()).decode())
        totab(t, dict(id=q['id'], result=r))
    else: ok({})
    if name == 'Browser.close': time.sleep(0.2); os._exit(0)
