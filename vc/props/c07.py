"""C07: message framing (http.cc, Packet_reader)"""
from ..reader import *
from .. import httpm

TUS = ['http.cc']
engine = httpm.engine
CANDS = c08.CANDS
BUDGET = 400
NOTE = ('The reader is verified against a representation invariant over the bytes received since the last message: from every state allowed by it and every chunk, '
        'read_request and read_response deliver exactly the declared body or keep the invariant; the invariance under fragmentation is a proved lemma over byte strings.')
# THEOREM: every reachable reader state and every chunk give the message of the concatenated bytes, for requests and responses
# THEOREM: the first blank line of a byte string stays the first one when bytes are appended, and the bytes after it only grow
ASSUME = c08.ASSUME + ['messages are shorter than 2^60 bytes']


def replay(name, v):
    kind = 'req' if 'read_request' in name else 'rsp'
    first = b'POST / HTTP/1.0' if kind == 'req' else b'HTTP/1.1 200 OK'
    hx = lambda b: b.hex() or '-'
    chunk = v.get('chunk') or '-'
    out = []
    for ho in ('01' if kind == 'rsp' else '0'):
        if 'received' in v:
            out.append('stream %s 0 %s %s %s' % (kind, ho, v['received'], chunk) if v['received'] else 'stream %s 0 %s %s' % (kind, ho, chunk))
        elif 'length' in v and v['length'] < 100000:
            for t in (b'\r\n', b'\n'):
                head = first + t + b'content-length: %d' % v['length'] + t + t
                out.append('stream %s 0 %s %s %s' % (kind, ho, hx(head + bytes.fromhex(v.get('body') or '')), chunk))
                out.append('stream %s 0 %s %s %s %s' % (kind, ho, hx(head), v.get('body') or '61', chunk))
        else:
            # a delivered message precedes the chunk
            out.append('stream %s 0 %s %s %s' % (kind, ho, hx(first + b'\r\ncontent-length: 2\r\n\r\nab'), chunk))
    return out


def contracts(P):
    return read_contracts(False) + helpers(P) + [Lemma('fragmentation', frag_lemma)]
