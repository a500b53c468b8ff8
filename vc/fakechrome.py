#!/usr/bin/python3
"""Stand-in for the browser in the run-time scenarios: enough of the DevTools protocol for one conversion, with a fault chosen by FAKE_MODE."""
import base64
import hashlib
import json
import os
import socket
import struct
import sys
import time
import urllib.parse

MODE = os.environ.get('FAKE_MODE', 'ok')
port = 0
for a in sys.argv[1:]:
    if a.startswith('--remote-debugging-port='):
        port = int(a.split('=')[1])
if MODE == 'nostart':
    sys.exit(1)
srv = socket.socket()
srv.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
srv.bind(('127.0.0.1', port))
srv.listen(4)
srv.settimeout(60)
sys.stderr.write('\nDevTools listening on ws://127.0.0.1:%d/devtools/browser/fake\n' % srv.getsockname()[1])
sys.stderr.flush()
con, _ = srv.accept()
con.settimeout(60)
buf = b''


def need(n):
    global buf
    while len(buf) < n:
        d = con.recv(65536)
        if not d:
            sys.exit(0)
        buf += d
    r, buf = buf[:n], buf[n:]
    return r


head = b''
while b'\r\n\r\n' not in head:
    head += need(1)
key = [l.split(b':', 1)[1].strip() for l in head.split(b'\r\n') if l.lower().startswith(b'sec-websocket-key')][0]
acc = base64.b64encode(hashlib.sha1(key + b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11').digest())
con.sendall(b'HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: ' + acc + b'\r\n\r\n')


def send(o):
    d = json.dumps(o).encode()
    h = b'\x81' + (bytes([len(d)]) if len(d) < 126 else b'\x7e' + struct.pack('>H', len(d)) if len(d) < 65536 else b'\x7f' + struct.pack('>Q', len(d)))
    con.sendall(h + d)


def recv():
    while True:
        a, b = need(2)
        n = b & 127
        if n == 126:
            n = struct.unpack('>H', need(2))[0]
        elif n == 127:
            n = struct.unpack('>Q', need(8))[0]
        m = need(4) if b & 128 else b'\0\0\0\0'
        d = bytearray(need(n))
        for i in range(n):
            d[i] ^= m[i & 3]
        if a & 15 == 8:
            sys.exit(0)
        if a & 15 == 9:
            con.sendall(b'\x8a\x00')
            continue
        if a & 15 == 1:
            return json.loads(d.decode())


page = b''


def info(tid):
    return {'targetId': tid, 'type': 'page', 'title': '', 'url': 'about:blank', 'attached': False, 'canAccessOpener': False, 'browserContextId': 'c'}


def target(m):
    """answer to a message for the page"""
    global page
    k = m['method']
    if k == 'Page.navigate':
        if MODE == 'die':
            sys.exit(0)
        if MODE == 'navfail':
            return {'id': m['id'], 'result': {'frameId': 'f', 'loaderId': 'l', 'errorText': 'net::ERR_FAILED'}}, []
        p = urllib.parse.urlparse(m['params']['url']).path
        try:
            with open(m['params']['url'][len('file://'):], 'rb') as f:
                page = f.read()
        except OSError:
            page = b'(missing)'
        ev = [{'method': 'Page.lifecycleEvent', 'params': {'frameId': 'f', 'loaderId': 'l', 'name': n, 'timestamp': 1.0}} for n in ('init', 'load', 'networkAlmostIdle')]
        return {'id': m['id'], 'result': {'frameId': 'f', 'loaderId': 'l'}}, ev
    if k == 'Page.printToPDF':
        if MODE == 'printfail':
            return {'id': m['id'], 'error': {'code': -32000, 'message': 'printing failed'}}, []
        return {'id': m['id'], 'result': {'data': base64.b64encode(b'%PDF-fake ' + page).decode()}}, []
    return {'id': m['id'], 'result': {}}, []


while True:
    m = recv()
    k, i = m['method'], m['id']
    if k == 'Target.createTarget':
        if MODE == 'tabfail':
            send({'id': i, 'error': {'code': -32000, 'message': 'no tab'}})
            continue
        send({'method': 'Target.targetCreated', 'params': {'targetInfo': info('T1')}})
        send({'id': i, 'result': {'targetId': 'T1'}})
    elif k == 'Target.attachToTarget':
        send({'id': i, 'result': {'sessionId': 'S1'}})
    elif k == 'Target.sendMessageToTarget':
        send({'id': i, 'result': {}})
        r, ev = target(json.loads(m['params']['message']))
        wrap = lambda x: {'method': 'Target.receivedMessageFromTarget', 'params': {'sessionId': 'S1', 'message': json.dumps(x), 'targetId': 'T1'}}
        send(wrap(r))
        for k in range(6 if ev else 0):         # the client may not be listening yet: say it again
            time.sleep(0.03 * (k + 1))
            for e in ev[0 if k == 0 else -1:]:
                send(wrap(e))
    elif k == 'Browser.close':
        send({'id': i, 'result': {}})
        sys.exit(0)
    else:
        send({'id': i, 'result': {}})
