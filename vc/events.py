"""Ghost event list: calls that leave the verified code are recorded in order, contracts speak about the list."""
from .core import *


def emit(st, name, *args):
    st.ghost['ev'] = st.ghost.get('ev', ()) + ((name,) + args,)


def events(st, *names):
    ev = st.ghost.get('ev', ())
    return [e for e in ev if not names or e[0] in names]
