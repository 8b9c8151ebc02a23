"""C20: custom headers (xheaders.cc, http.cc, server.cc)"""
from ..sexec import *
from . import c11

TUS = SX_TUS + ['value_type.cc']
EXTRA = SX_EXTRA
engine = httpm.engine
CANDS = [cand_kept]


def cases_ex(c, a):
    """the method that is started sees exactly the options of the request that are custom headers"""
    m = opts_of(c, c11.srv_parts(c, a[1])[1])
    containers.enum(c.st, m)
    want = MapV(m.kkind, m.schema, XP(m.pres, m.vals[0], NKEYS(m.pres)), (XV(m.pres, m.vals[0], NKEYS(m.pres)),))

    def post(E, s2, o):
        return [('the method sees the custom headers of the request', want.eq(e[6])) for e in events(s2, 'execute')] + [('decided', True)]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def contracts(P):
    return xcontracts() + [
        Contract(SRV + '::schedule_execute(iqxmlrpc::http::Packet*, iqxmlrpc::Server_connection*)', setup_ex, cases_ex, level='property', use=False, variants=['plugin', 'no plugin'], engine=sx_engine),
    ] + given('C11', (k for k in c11.contracts(P) if 'get_authinfo' in k.name))


NOTE = ('Contracts on the custom header class, on moving custom headers in and out of message headers and on what a method sees, discharged for all names, values and option sets; '
        'that lower-case option names keep exactly the x- ones is a proved lemma. The battery sets, sends and receives custom headers with the real class, client and server.')
# THEOREM: XHeaders::operator[] refuses exactly the names not starting with X- or x-
# THEOREM: the method sees exactly the x- options of the request
ASSUME = ['boost::to_lower is a specification function whose result has no capital letters', 'a map is always traversed in the same order', 'memory allocation does not fail']


def replay(name, v):
    out = ['raw 782d61=31,786129=32', 'cl 582d41=31 782d61=32', 'cl 582d41=31 -']
    if 'name' in v:
        out.append('set %s=76' % (v['name'] or '-'))
    return out
