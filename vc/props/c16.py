"""C16: client calls (client.cc, client_conn.cc, http_client.cc, https_client.cc, connector.cc)"""
from ..clim import *
from ..sockc import sock_contracts
from . import c11, c01

TUS = SESS_TUS
EXTRA = SESS_EXTRA + c01.EXTRA
engine = cl_engine
CANDS = [cand_kept]
NOTE = ('Contracts on one call (request built, exactly one session, its reply judged), on the connection cache of a client, on the sessions of all four transports, on the tunnel through a proxy, '
        'on connecting (down to the system calls of the socket) and on the choice of the connector, discharged for every way the parser, the event loop or the network may end. The battery runs real clients against a scripted peer.')
# THEOREM: a call returns what was parsed from the reply of its own session, or raises
# THEOREM: after a raise no connection is kept; without keep-alive none is kept either
ASSUME = ['one round of the event loop ends in a timeout, an error, or a handled event, after which the reply is either complete or not (C17, C14, C07)', 'parsing a response returns one or raises (C06)', 'timeouts below 2000000 seconds', 'connect, fcntl, socket and getsockopt behave as documented; asking a socket for its pending error does not fail',
          'the option names of a request survive printing and sending (C10, C14)', 'memory allocation does not fail']


def replay(name, v):
    ws = 'ok fault e404 e201 close bye half garbage notxml empty'.split()
    out = ['refused', 'full', 'proxyno 403', 'proxyno 201'] + ['conn h %s %d' % (k, e) for k in ('now', 'later') for e in (0, 111, 110, 113, 13)] + ['toggle %s %s' % (m, w) for m in 'hs' for w in ('kn', 'knk', 'kknn')]
    for m in ('h', 'p', 's'):
        out += ['seq %s %s ok,%s,ok' % (m, k, w) for w in ws for k in ('k', 'n')]
        out += ['seq %s k ok,late,ok' % m]
    return out + ['seq t n ok,ok', 'seq t n e404', 'seq t n mute']


def contracts(P):
    return cl_contracts() + sess_contracts() + more_contracts() + sock_contracts() + given('C20', (k for k in xcontracts() if 'set_xheaders' in k.name)) + given('C11', (k for k in c11.contracts(P) if 'set_authinfo' in k.name))
