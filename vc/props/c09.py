"""C09: request size limit (http.cc, Packet_reader)"""
from ..reader import *
from .. import httpm

TUS = ['http.cc', 'http_server.cc', 'https_server.cc', 'ssl_connection.cc', 'ssl_lib.cc', 'server_conn.cc', 'connection.cc', 'socket.cc', 'server.cc', 'http_client.cc', 'client_conn.cc']
EXTRA = """#include "libiqxmlrpc/server_conn.h"
"""
engine = httpm.engine
CANDS = c08.CANDS
BUDGET = 600
NOTE = ('read_request is verified with an arbitrary limit against the invariant that the count equals the bytes received for the current message; '
        'status 413 exactly when the limit is reached, for every reader state and chunk.')
# THEOREM: with a limit, read_request refuses with 413 exactly when the bytes of the message or its declared length plus header reach it; without one never
ASSUME = c08.ASSUME + ['messages are shorter than 2^60 bytes', 'the limit is not changed while a message is being received']


def replay(name, v):
    hx = lambda b: b.hex() or '-'
    chunk = v.get('chunk') or '-'
    lim = v.get('limit', 0)
    if 'received' in v:
        return ['stream %d %s %s' % (lim, v['received'] or '', chunk)]
    if 'length' in v:
        out = []
        for l in {lim, lim + 30}:
            head = b'POST / HTTP/1.0\ncontent-length: %d\n\n' % v['length']
            out.append('stream %d %s %s' % (l, hx(head + bytes.fromhex(v.get('body') or '')), chunk))
        return out
    return ['stream %d %s %s' % (l, hx(b'POST / HTTP/1.0\r\ncontent-length: 2\r\n\r\nab'), chunk) for l in (lim, lim + 60)]


def contracts(P):
    from .. import wire
    return read_contracts(True, ('request',)) + helpers(P) + wire.wire_contracts(True)
