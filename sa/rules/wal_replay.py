"""Helpers for rules over files: open options of a builder chain, corruption errors."""
from core import *

def corrupt(F, ctx, msg):
    W = ctx.adt('wal::WalError')
    i = next(i for i, v in enumerate(F.adts[W]['v']) if v['n'] == 'Corrupt')
    return err(('e', W, i, (('s', msg) if isinstance(msg, str) else msg,)))

def opts(v):
    """open options set by a builder chain (later calls win), with the library's defaults"""
    ch = []
    while v is not None and v[0] == 'y' and v[1][0] == 'call' and len(v[1][2]) == 2:
        ch.append((short(v[1][1]), path(v[1][2][1]))); v = v[1][2][0]
    out = {'read': '1', 'write': '0', 'create': '0', 'truncate': '0'}
    for k, x in reversed(ch):
        out[k] = x
        if k == 'truncate' or k == 'create' and x == '1': out['write'] = '1'
    return out
