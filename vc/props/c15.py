"""C15: connection life cycle (server_conn.cc, http_server.cc)"""
from ..srv import *
from . import c10

TUS = TR_TUS
EXTRA = CONN_EXTRA
engine = conn_engine
CANDS = c08.CANDS + c10.CANDS
BUDGET = 500


def own(f):
    """the transport's own response scheduling is the code under proof"""
    def g(E):
        f(E)
        del E.mexact[CONN + '::do_schedule_response()']
    return g


def contracts(P):
    return [
        conn_contract(),
        Contract(CONN + '::schedule_response(iqxmlrpc::http::Packet*)', setup_sr, cases_sr, level='property', use=False, engine=conn_engine),
        Contract(HSC + '::handle_input(bool&)', setup_hi, cases_hi, level='property', use=False, engine=own(tr_engine)),
        Contract(HSC + '::handle_output(bool&)', setup_ho, cases_ho, level='property', use=False, engine=own(tr_engine)),
        Contract(HSC + '::finish()', setup_fin, cases_fin, level='property', use=False, engine=own(tr_engine), variants=['idle', 'header read']),
        Contract(HSC + '::do_schedule_response()', setup_pd, cases_pdo, level='property', use=False, engine=own(tr_engine)),
        Contract(HSS + '::recv_succeed(bool&, unsigned long, unsigned long)', setup_xr, cases_xr, level='property', use=False, engine=own(ssl_engine)),
        Contract(HSS + '::send_succeed(bool&)', setup_xss, cases_xss, level='property', use=False, engine=own(ssl_engine)),
        Contract(HSS + '::do_schedule_response()', setup_xd, cases_xd, level='property', use=False, engine=own(ssl_engine)),
    ] + helpers(P) + [Lemma('options persist', persist_lemma)]


NOTE = ('Contracts on reading a request on a connection, scheduling a response, the plain and the SSL transport handlers and the end of a connection, discharged for all '
        'reader states, chunks, transfer sizes and errors. The battery runs histories of requests against a real server on the loopback interface.')
ASSUME = ['send, recv and the OpenSSL calls behave as documented', 'the event loop calls handlers one at a time (C17)', 'boost string algorithms are specification functions', 'memory allocation does not fail']


def replay(name, v):
    return ['hist k,k,c', 'hist ke,ke,c', 'hist n', 'hist k,kg', 'hist km', 'hist kl']
