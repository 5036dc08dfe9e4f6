"""Models of library functions for absint (values as documented there)."""
import re
from absint import *

MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

RANGE = 'core::ops::range::Range'
RANGEI = 'core::ops::range::RangeInclusive'
O_ = 'core::option::Option::<T>::'
R_ = 'core::result::Result::<T, E>::'
IT = 'core::iter::traits::iterator::Iterator::'

def places(it, st, v):
    """memory places a reference-like value denotes"""
    out = []
    for x in alts(v):
        n = 0
        while x[0] == 'r' and n < 6:
            w = it.load(st, x[1], x[2])
            if w is not None and w[0] == 'r':
                x = w; n += 1
            else: break
        if x[0] == 'r': out.append((x[1], x[2]))
        elif x[0] == 'y': out.append((('o', x[1]), ()))
        elif x[0] == 'p': out.append((('o', x[1]), ()))
    return out

def one_place(it, st, c, i=0):
    """place of argument i; materialises by-value arguments in a temporary"""
    ps = places(it, st, c.args[i])
    if ps: return ps[0]
    r = it.tmp(st, c.frame, ('arg', c.bb, i), c.args[i])
    return (r[1], r[2])

# ---------------------------------------------------------------- identity-like
NAMES = '''core::clone::Clone::clone
core::borrow::Borrow::borrow
core::convert::AsRef::as_ref
alloc::borrow::ToOwned::to_owned
alloc::slice::<impl [T]>::to_vec
alloc::vec::Vec::<T, A>::into_boxed_slice
alloc::vec::Vec::<T, A>::as_slice
alloc::string::String::as_str
alloc::rcs::arc::Arc::<T>::new
alloc::boxed::Box::<T>::new
alloc::boxed::Box::<T>::pin
alloc::rcs::rc::Rc::<T>::new
core::pin::Pin::<Ptr>::new_unchecked
core::pin::Pin::<Ptr>::new
core::future::into_future::IntoFuture::into_future
tracing::instrument::Instrument::instrument
core::iter::traits::iterator::Iterator::by_ref
std::sync::poison::mutex::Mutex::<T>::new
futures_util::lock::mutex::Mutex::<T>::new
lock_api::mutex::Mutex::<R, T>::new
lock_api::rwlock::RwLock::<R, T>::new
core::sync::atomic::Atomic::<u64>::new
core::sync::atomic::Atomic::<usize>::new
core::sync::atomic::Atomic::<bool>::new
core::sync::atomic::Atomic::<u32>::new
core::pin::Pin::<&'a mut T>::get_unchecked_mut
core::pin::Pin::<&'a T>::get_ref
core::pin::Pin::<&'a mut T>::get_mut
core::pin::Pin::<Ptr>::as_mut
core::pin::Pin::<Ptr>::as_ref
core::hint::must_use
core::convert::identity
core::intrinsics::transmute
core::str::<impl str>::as_bytes
alloc::string::String::as_bytes
alloc::string::String::into_bytes
core::slice::raw::from_ref
core::ptr::non_null::NonNull::<T>::as_ptr
core::num::nonzero::NonZero::<T>::get
core::cell::Cell::<T>::new
core::cell::RefCell::<T>::new
alloc::slice::<impl [T]>::into_vec
alloc::vec::Vec::<T, A>::as_mut_slice
futures_util::future::future::FutureExt::boxed
futures_util::future::future::FutureExt::fuse
futures_util::stream::iter::iter
core::ops::index::Index::index_full
arrow_buffer::buffer::scalar::ScalarBuffer::<T>::from
core::array::<impl [T; N]>::as_slice
core::array::<impl core::convert::AsRef<[T]> for [T; N]>::as_ref
alloc::vec::Vec::<T, A>::into_iter
'''.split('\n')

@model(*[n for n in NAMES if n])
def m_ident(it, st, c):
    v = c.args[0]
    if c.short in ('clone', 'to_owned', 'to_vec'):
        # by-value copy of the pointee (one level: `&&T` clones to `&T`)
        if v[0] == 'r':
            w = it.load(st, v[1], v[2])
            return [(st, w)] if w is not None else []
        if v[0] == 'u':
            return [(st, it.rd(st, v))]
        return [(st, v)]
    return [(st, v)]

@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'alloc::boxed::Box::<T>::as_ref', 'core::convert::AsMut::as_mut')
def m_deref(it, st, c):
    if c.body is not None and c.short in ('deref', 'deref_mut'): return None
    v = c.args[0]
    if v[0] == 'r':
        w = it.load(st, v[1], v[2])
        if w is None: return []
        if w[0] == 'r': return [(st, w)]
        if w[0] == 'u' and all(x[0] == 'r' for x in w[1]): return [(st, w)]
        if w[0] == 'y' : return [(st, ('r', ('o', w[1]), ()))]
    return [(st, v)]

@model('core::future::get_context')
def m_ctx(it, st, c): return [(st, mk(('cx',)))]

@model('core::future::future::Future::poll', 'futures_util::future::future::FutureExt::poll_unpin')
def m_poll(it, st, c):
    v = it.rd(st, c.args[0])
    if c.body is not None and v[0] not in ('co', 'it', 'u'): return None
    return [(s, ('e', POLL, 0, (x,))) for s, x in it.poll(st, c.args[0], c.frame, c.bb)]

@model('futures_util::future::future::FutureExt::now_or_never')
def m_now(it, st, c):
    return [(s, some(x)) for s, x in it.poll(st.copy(), c.args[0], c.frame, c.bb)] + [(st, NONE)]

# ---------------------------------------------------------------- Try
@model('core::ops::try_trait::Try::branch')
def m_branch(it, st, c):
    t = it.F.types[c.ga[0]]
    adt = t.get('n')
    out = []
    if adt == POLL:
        inner = it.F.types[t['a'][0]].get('n')
        for s, vi, v in it.split(st, c.args[0], POLL):
            if vi == 1:
                out.append((s, ('e', CF, 0, (('e', POLL, 1, ()),)))); continue
            x = v[3][0]
            if inner == RESULT:
                for s2, vj, w in it.split(s, x, RESULT):
                    out.append((s2, ('e', CF, 0, (('e', POLL, 0, (w[3][0],)),)) if vj == 0 else ('e', CF, 1, (w,))))
            else:
                for s2, vj, w in it.split(s, x, OPTION):
                    if vj == 0: out.append((s2, ('e', CF, 0, (('e', POLL, 0, (NONE,)),)))); continue
                    for s3, vk, r in it.split(s2, w[3][0], RESULT):
                        out.append((s3, ('e', CF, 0, (('e', POLL, 0, (some(r[3][0]),)),)) if vk == 0 else ('e', CF, 1, (r,))))
        return out
    if adt == RESULT:
        for s, vi, v in it.split(st, c.args[0], RESULT):
            out.append((s, ('e', CF, 0, (v[3][0],)) if vi == 0 else ('e', CF, 1, (v,))))
        return out
    if adt == OPTION:
        for s, vi, v in it.split(st, c.args[0], OPTION):
            out.append((s, ('e', CF, 0, (v[3][0],)) if vi == 1 else ('e', CF, 1, (NONE,))))
        return out
    return None

@model('core::ops::try_trait::FromResidual::from_residual')
def m_resid(it, st, c):
    t = it.F.types[c.ga[0]]
    if t.get('n') == POLL:
        inner = it.F.types[t['a'][0]].get('n')
        x = c.args[0]
        return [(st, ('e', POLL, 0, (x if inner == RESULT else some(x),)))]
    if t.get('n') == RESULT:
        out = []
        rt = it.F.types[c.ga[1]] if len(c.ga) > 1 else None
        for x in alts(c.args[0]):
            if x[0] == 'e' and x[1] == RESULT and len(t['a']) > 1 and rt and rt.get('n') == RESULT:
                out += [(s, err(v)) for s, v in convert(it, st.copy(), c, x[3][0], rt['a'][1], t['a'][1])]
            else:
                out.append((st.copy(), x))
        return out
    return [(st, c.args[0])]

def convert(it, st, c, v, tfrom, tto):
    if tfrom == tto: return [(st, v)]
    for ti, fn in it.F.trait_impls.get(('core::convert::From', 'from'), []):
        if ti == tto:
            b = it.F.bodies.get(fn)
            if b and b['locals'][1][0] == tfrom and not it.is_opaque(fn):
                return it.inline(st, b, [v], c.frame, c.bb)
    # generic impls: match by adt
    nto = it.F.types[tto].get('n'); nfrom = it.F.types[tfrom].get('n')
    for ti, fn in it.F.trait_impls.get(('core::convert::From', 'from'), []):
        if it.F.types[ti].get('n') == nto and nto and nto.startswith('crate::'):
            b = it.F.bodies.get(fn)
            if b and it.F.types[b['locals'][1][0]].get('n') == nfrom and nfrom:
                return it.inline(st, b, [v], c.frame, c.bb)
    if it.F.types[tto].get('n') == OPTION and it.F.types[tfrom].get('n') != OPTION:
        return [(st, some(v))]
    return [(st, v)]

@model('core::convert::Into::into')
def m_into(it, st, c): return convert(it, st, c, c.args[0], c.ga[0], c.ga[1])

@model('core::convert::From::from')
def m_from(it, st, c):
    if c.body is not None: return None
    return convert(it, st, c, c.args[0], c.ga[1] if len(c.ga) > 1 else c.ga[0], c.ga[0])

@model('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def m_tryfrom(it, st, c):
    if c.body is not None: return None
    if c.short == 'try_into': f, t = c.ga[0], c.ga[1]
    else: t, f = c.ga[0], (c.ga[1] if len(c.ga) > 1 else c.ga[0])
    fs, ts = it.F.ty_s(f), it.F.ty_s(t)
    v = it.rd(st, c.args[0])
    if it.q.exact:
        mm = re.fullmatch(r'(&(?:mut )?)?\[.*; (\d+)\]', re.sub(r"^&'\S+ ", '&', ts))
        if mm:
            x = it.deepval(st, v)
            if x[0] == 'a':
                if len(x[1]) != int(mm.group(2)): return [(st, err(mk(('tryfromslice',))))]
                if mm.group(1): return [(st, ok(c.args[0]))]
                return [(st, ok(x))]
    if fs in INTS and ts in INTS and INTS[ts][0] <= INTS[fs][0] and INTS[ts][1] >= INTS[fs][1]: return [(st, ok(v))]
    # local TryFrom impl reached through try_into
    for ti, fn in it.F.trait_impls.get(('core::convert::TryFrom', 'try_from'), []):
        if ti == t:
            b = it.F.bodies.get(fn)
            if b: return it.inline(st, b, [c.args[0]], c.frame, c.bb)
    if v[0] == 'c' and ts in INTS: return [(st, ok(v) if INTS[ts][0] <= v[1] <= INTS[ts][1] else err(mk(('tryfromint',))))]
    tt = mk(('tryconv', ts, it.deepval(st, v)))
    out = []
    for s, vi, x in it.split(st, tt, RESULT):
        out.append((s, ok(v) if vi == 0 else x))
    return out

# ---------------------------------------------------------------- Option / Result
def opt(it, st, v): return it.split(st, v, OPTION)
def res(it, st, v): return it.split(st, v, RESULT)

def call(it, st, c, f, *a): return it.call_value(st, f, list(a), c.frame, (c.bb, 'f') if False else c.bb)

@model(O_ + 'map')
def o_map(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 0: out.append((s, NONE))
        else: out += [(s2, some(r)) for s2, r in call(it, s, c, c.args[1], v[3][0])]
    return out
@model(O_ + 'and_then')
def o_and_then(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 0: out.append((s, NONE))
        else: out += call(it, s, c, c.args[1], v[3][0])
    return out
@model(O_ + 'filter')
def o_filter(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 0: out.append((s, NONE)); continue
        r = it.tmp(s, c.frame, ('flt', c.bb), v[3][0])
        for s2, b in call(it, s, c, c.args[1], r):
            for s3, t in it.truth(s2, b): out.append((s3, v if t else NONE))
    return out
@model(O_ + 'unwrap_or')
def o_unwrap_or(it, st, c): return [(s, v[3][0] if vi == 1 else c.args[1]) for s, vi, v in opt(it, st, c.args[0])]
@model(O_ + 'unwrap_or_default')
def o_unwrap_or_d(it, st, c): return [(s, v[3][0] if vi == 1 else default_of(it, c.ga[0])) for s, vi, v in opt(it, st, c.args[0])]
@model(O_ + 'unwrap_or_else')
def o_unwrap_or_else(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 1: out.append((s, v[3][0]))
        else: out += call(it, s, c, c.args[1])
    return out
@model(O_ + 'map_or')
def o_map_or(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 0: out.append((s, c.args[1]))
        else: out += call(it, s, c, c.args[2], v[3][0])
    return out
@model(O_ + 'map_or_else')
def o_map_or_else(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 0: out += call(it, s, c, c.args[1])
        else: out += call(it, s, c, c.args[2], v[3][0])
    return out
@model(O_ + 'is_some_and')
def o_is_some_and(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 0: out.append((s, FALSE))
        else: out += call(it, s, c, c.args[1], v[3][0])
    return out
@model(O_ + 'is_none_or')
def o_is_none_or(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 0: out.append((s, TRUE))
        else: out += call(it, s, c, c.args[1], v[3][0])
    return out
@model(O_ + 'unwrap', O_ + 'expect')
def o_unwrap(it, st, c): return [(s, v[3][0]) for s, vi, v in opt(it, st, c.args[0]) if vi == 1]
@model(O_ + 'ok_or')
def o_ok_or(it, st, c): return [(s, ok(v[3][0]) if vi == 1 else err(c.args[1])) for s, vi, v in opt(it, st, c.args[0])]
@model(O_ + 'ok_or_else')
def o_ok_or_else(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 1: out.append((s, ok(v[3][0])))
        else: out += [(s2, err(r)) for s2, r in call(it, s, c, c.args[1])]
    return out
@model(O_ + 'or')
def o_or(it, st, c): return [(s, v if vi == 1 else c.args[1]) for s, vi, v in opt(it, st, c.args[0])]
@model(O_ + 'or_else')
def o_or_else(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 1: out.append((s, v))
        else: out += call(it, s, c, c.args[1])
    return out
@model(O_ + 'zip')
def o_zip(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 0: out.append((s, NONE)); continue
        for s2, vj, w in opt(it, s, c.args[1]):
            out.append((s2, some(('t', (v[3][0], w[3][0]))) if vj else NONE))
    return out
@model('core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied', 'core::option::Option::<&mut T>::cloned', 'core::option::Option::<&mut T>::copied')
def o_cloned(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 0: out.append((s, NONE))
        else:
            x = v[3][0]
            if x[0] in ('r', 'u'): x = it.rd(s, x)
            out.append((s, some(x)))
    return out
@model('core::option::Option::<core::option::Option<T>>::flatten')
def o_flatten(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 0: out.append((s, NONE))
        else: out += [(s2, w) for s2, vj, w in opt(it, s, v[3][0])]
    return out
@model('core::option::Option::<core::result::Result<T, E>>::transpose')
def o_transpose(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        if vi == 0: out.append((s, ok(NONE)))
        else: out += [(s2, ok(some(w[3][0])) if vj == 0 else err(w[3][0])) for s2, vj, w in res(it, s, v[3][0])]
    return out
@model('core::result::Result::<core::option::Option<T>, E>::transpose')
def r_transpose(it, st, c):
    out = []
    for s, vi, v in res(it, st, c.args[0]):
        if vi == 1: out.append((s, some(v)))
        else: out += [(s2, some(ok(w[3][0])) if vj == 1 else NONE) for s2, vj, w in opt(it, s, v[3][0])]
    return out

def ref_split(it, st, c, adt, i=0):
    out = []
    ps = places(it, st, c.args[i])
    if not ps:
        for s, vi, v in it.split(st, c.args[i], adt):
            r = it.tmp(s, c.frame, ('rs', c.bb, i), v)
            out.append((s, vi, r[1], r[2]))
        return out
    for k, (cell, proj) in enumerate(ps):
        for s, vi in it.split_place(st if k == len(ps) - 1 else st.copy(), cell, proj, adt):
            out.append((s, vi, cell, proj))
    return out

@model(O_ + 'as_ref', O_ + 'as_mut', O_ + 'as_deref', O_ + 'as_deref_mut', O_ + 'iter_opt', 'core::option::Option::<T>::as_pin_mut')
def o_as_ref(it, st, c):
    out = []
    for s, vi, cell, proj in ref_split(it, st, c, OPTION):
        if vi == 0: out.append((s, NONE))
        else:
            r = ('r', cell, proj + (('v', 1, 'Some'), ('f', 0, '0')))
            w = it.load(s, r[1], r[2])
            if w is not None and w[0] == 'r' and c.short in ('as_deref', 'as_deref_mut'): r = w
            out.append((s, some(r)))
    return out
@model(R_ + 'as_ref', R_ + 'as_mut')
def r_as_ref(it, st, c):
    return [(s, ('e', RESULT, vi, (('r', cell, proj + (('v', vi, 'Ok' if vi == 0 else 'Err'), ('f', 0, '0'))),))) for s, vi, cell, proj in ref_split(it, st, c, RESULT)]
@model(O_ + 'is_some', O_ + 'is_none')
def o_is_some(it, st, c):
    return [(s, boolv((vi == 1) == (c.short == 'is_some'))) for s, vi, _, _ in ref_split(it, st, c, OPTION)]
@model(R_ + 'is_ok', R_ + 'is_err')
def r_is_ok(it, st, c):
    return [(s, boolv((vi == 0) == (c.short == 'is_ok'))) for s, vi, _, _ in ref_split(it, st, c, RESULT)]
@model(O_ + 'take')
def o_take(it, st, c):
    cell, proj = one_place(it, st, c)
    v = it.load(st, cell, proj)
    it.store(st, cell, proj, NONE)
    it.q.on_write(it, st, cell, proj, NONE, (c.frame, c.bb))
    return [(st, v)] if v is not None else []
@model(O_ + 'replace')
def o_replace(it, st, c):
    cell, proj = one_place(it, st, c)
    v = it.load(st, cell, proj)
    it.store(st, cell, proj, some(c.args[1]))
    it.q.on_write(it, st, cell, proj, some(c.args[1]), (c.frame, c.bb))
    return [(st, v)] if v is not None else []
@model(O_ + 'insert')
def o_insert(it, st, c):
    cell, proj = one_place(it, st, c)
    it.store(st, cell, proj, some(c.args[1]))
    it.q.on_write(it, st, cell, proj, some(c.args[1]), (c.frame, c.bb))
    return [(st, ('r', cell, proj + (('v', 1, 'Some'), ('f', 0, '0'))))]
@model(O_ + 'get_or_insert_with', O_ + 'get_or_insert')
def o_goi(it, st, c):
    out = []
    for s, vi, cell, proj in ref_split(it, st, c, OPTION):
        r = ('r', cell, proj + (('v', 1, 'Some'), ('f', 0, '0')))
        if vi == 1: out.append((s, r)); continue
        if c.short == 'get_or_insert': vals = [(s, c.args[1])]
        else: vals = call(it, s, c, c.args[1])
        for s2, v in vals:
            it.store(s2, cell, proj, some(v)); out.append((s2, r))
    return out

@model(R_ + 'map')
def r_map(it, st, c):
    out = []
    for s, vi, v in res(it, st, c.args[0]):
        if vi == 1: out.append((s, v))
        else: out += [(s2, ok(r)) for s2, r in call(it, s, c, c.args[1], v[3][0])]
    return out
@model(R_ + 'map_err')
def r_map_err(it, st, c):
    out = []
    for s, vi, v in res(it, st, c.args[0]):
        if vi == 0: out.append((s, v))
        else: out += [(s2, err(r)) for s2, r in call(it, s, c, c.args[1], v[3][0])]
    return out
@model(R_ + 'and_then')
def r_and_then(it, st, c):
    out = []
    for s, vi, v in res(it, st, c.args[0]):
        if vi == 1: out.append((s, v))
        else: out += call(it, s, c, c.args[1], v[3][0])
    return out
@model(R_ + 'or_else')
def r_or_else(it, st, c):
    out = []
    for s, vi, v in res(it, st, c.args[0]):
        if vi == 0: out.append((s, v))
        else: out += call(it, s, c, c.args[1], v[3][0])
    return out
@model(R_ + 'unwrap_or_else')
def r_uoe(it, st, c):
    out = []
    for s, vi, v in res(it, st, c.args[0]):
        if vi == 0: out.append((s, v[3][0]))
        else: out += call(it, s, c, c.args[1], v[3][0])
    return out
@model(R_ + 'map_or')
def r_map_or(it, st, c):
    out = []
    for s, vi, v in res(it, st, c.args[0]):
        if vi == 1: out.append((s, c.args[1]))
        else: out += call(it, s, c, c.args[2], v[3][0])
    return out
@model(R_ + 'unwrap', R_ + 'expect')
def r_unwrap(it, st, c): return [(s, v[3][0]) for s, vi, v in res(it, st, c.args[0]) if vi == 0]
@model(R_ + 'unwrap_err', R_ + 'expect_err')
def r_unwrap_e(it, st, c): return [(s, v[3][0]) for s, vi, v in res(it, st, c.args[0]) if vi == 1]
@model(R_ + 'unwrap_or')
def r_unwrap_or(it, st, c): return [(s, v[3][0] if vi == 0 else c.args[1]) for s, vi, v in res(it, st, c.args[0])]
@model(R_ + 'unwrap_or_default')
def r_unwrap_or_d(it, st, c): return [(s, v[3][0] if vi == 0 else default_of(it, c.ga[0])) for s, vi, v in res(it, st, c.args[0])]
@model(R_ + 'ok')
def r_ok(it, st, c): return [(s, some(v[3][0]) if vi == 0 else NONE) for s, vi, v in res(it, st, c.args[0])]
@model(R_ + 'err')
def r_err(it, st, c): return [(s, some(v[3][0]) if vi == 1 else NONE) for s, vi, v in res(it, st, c.args[0])]
@model(R_ + 'is_ok_and')
def r_is_ok_and(it, st, c):
    out = []
    for s, vi, v in res(it, st, c.args[0]):
        if vi == 1: out.append((s, FALSE))
        else: out += call(it, s, c, c.args[1], v[3][0])
    return out

@model('core::bool::<impl bool>::then_some')
def b_then_some(it, st, c): return [(s, some(c.args[1]) if b else NONE) for s, b in it.truth(st, c.args[0])]
@model('core::bool::<impl bool>::then')
def b_then(it, st, c):
    out = []
    for s, b in it.truth(st, c.args[0]):
        if b: out += [(s2, some(r)) for s2, r in call(it, s, c, c.args[1])]
        else: out.append((s, NONE))
    return out

@model('core::task::poll::Poll::<T>::map')
def p_map(it, st, c):
    out = []
    for s, vi, v in it.split(st, c.args[0], POLL):
        if vi == 1: out.append((s, v))
        else: out += [(s2, ('e', POLL, 0, (r,))) for s2, r in call(it, s, c, c.args[1], v[3][0])]
    return out
@model('core::task::poll::Poll::<T>::is_ready', 'core::task::poll::Poll::<T>::is_pending')
def p_is_ready(it, st, c): return [(s, boolv((vi == 0) == (c.short == 'is_ready'))) for s, vi, _, _ in ref_split(it, st, c, POLL)]

# ---------------------------------------------------------------- comparisons
def cmp_inline(it, c, names):
    if c.body is not None and any(c.name.endswith(x) or x in c.name for x in it.q.inline_cmp): return True
    return False

def cmp_args(it, st, c):
    return it.deepval(st, it.rd(st, c.args[0])), it.deepval(st, it.rd(st, c.args[1]))

CMPOP = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '=', 'ne': '<>'}
@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge', 'core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def m_cmp(it, st, c):
    t0 = it.F.ty_s(c.ga[0])
    if 'tracing' in t0: return [(st, FALSE)]     # log level tests: logging is not part of any rule
    op = CMPOP[c.short]
    if it.q.inline_cmp:
        if c.short in ('eq', 'ne'):
            b = c.body if c.short == 'eq' else find_impl(it, c, 'core::cmp::PartialEq', 'eq')
            if b is not None and any(x in b['key'] for x in it.q.inline_cmp):
                rs = it.inline(st, b, c.args, c.frame, c.bb)
                if c.short == 'eq': return rs
                return [(s2, boolv(not t)) for s, v in rs for s2, t in it.truth(s, v)]
        else:
            b = find_impl(it, c, 'core::cmp::PartialOrd', 'partial_cmp')
            if b is not None and any(x in b['key'] for x in it.q.inline_cmp):
                out = []
                for s, v in it.inline(st, b, c.args, c.frame, c.bb):
                    for s2, vi, w in opt(it, s, v):
                        if vi == 0: out.append((s2, FALSE)); continue
                        for s3, vj, _ in it.split(s2, w[3][0], ORDERING):
                            out.append((s3, boolv('<=>'[vj] in op)))
                return out
    a, b = cmp_args(it, st, c)
    if it.q.exact and a[0] == 'a' and b[0] == 'a' and c.short in ('eq', 'ne'):
        import exact
        if len(a[1]) != len(b[1]): return [(st, boolv(c.short == 'ne'))]
        out = []
        def go(s, i):
            if i == len(a[1]): out.append((s, boolv(c.short == 'eq'))); return
            for s2, e in exact.xeq(it, s, a[1][i], b[1][i], c):
                if e: go(s2, i + 1)
                else: out.append((s2, boolv(c.short == 'ne')))
        go(st, 0)
        return out
    if (a[0] == 'u' or b[0] == 'u') and len(alts(a)) * len(alts(b)) <= 9:
        out = []
        for x in alts(a):
            for y in alts(b):
                out += it.binop(st.copy(), {'<': 'Lt', '<=': 'Le', '>': 'Gt', '>=': 'Ge', '=': 'Eq', '<>': 'Ne'}[op], x, y)
        return dedup(out)
    return it.binop(st, {'<': 'Lt', '<=': 'Le', '>': 'Gt', '>=': 'Ge', '=': 'Eq', '<>': 'Ne'}[op], a, b)

def dedup(out):
    res = {}
    for s, v in out:
        if v in res: res[v] = join_state(res[v], s)
        else: res[v] = s
    return [(s, v) for v, s in res.items()]

def find_impl(it, c, trait, name):
    for ti, fn in it.F.trait_impls.get((trait, name), []):
        if ti == c.ga[0]: return it.F.bodies.get(fn)
    n = it.F.types[c.ga[0]]
    while n['k'] == 'ref': n = it.F.types[n['t']]
    n = n.get('n')
    for ti, fn in it.F.trait_impls.get((trait, name), []):
        if n and it.F.types[ti].get('n') == n: return it.F.bodies.get(fn)
    return None

@model('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp', 'core::f64::<impl f64>::total_cmp', 'core::f32::<impl f32>::total_cmp')
def m_cmp3(it, st, c):
    wrap = some if c.short == 'partial_cmp' else (lambda x: x)
    if c.body is not None and any(x in c.name for x in it.q.inline_cmp): return None
    a, b = cmp_args(it, st, c)
    t0 = it.F.ty_s(c.ga[0]) if c.ga else ''
    if c.short == 'partial_cmp' and t0.lstrip('&') in ('f32', 'f64'):
        # incomparable is a separate outcome for floats
        qr = it.q.rel(it, st, a, b)
        if qr is not None: return [(st.copy(), NONE if r == '?' else some(ordv(r))) for r in sorted(qr)]
        o = mk(('fcmp', a, b))
        out = []
        for s, vi, v in opt(it, st, o):
            if vi == 0: out.append((s, NONE))
            else:
                rs = it.rel(s, a, b)
                for r in sorted(rs):
                    s2 = s.copy(); it.learn_rel(s2, a, b, r); out.append((s2, some(ordv(r))))
        return out
    if c.short == 'total_cmp':
        return [(st, mk(('cmp3', mk(('total', a)), mk(('total', b)))))]
    rs = it.rel(st, a, b)
    if len(rs) == 1: return [(st, wrap(ordv(next(iter(rs)))))]
    return [(st, wrap(mk(('cmp3', it.norm(a), it.norm(b)))))]

@model('core::cmp::Ord::max', 'core::cmp::Ord::min', 'core::cmp::max', 'core::cmp::min')
def m_max(it, st, c):
    if c.body is not None and c.short in ('max', 'min') and not c.name.startswith('core'): return None
    a, b = it.norm(c.args[0]), it.norm(c.args[1])
    rs = it.rel(st, it.deepval(st, a), it.deepval(st, b))
    # nothing exceeds the largest 64-bit value
    if a == ('c', 2**64 - 1): rs = rs & frozenset('>=') or rs
    if b == ('c', 2**64 - 1): rs = rs & frozenset('<=') or rs
    big = '>' if c.short == 'max' else '<'
    if rs == frozenset(big): return [(st, c.args[0])]
    if '=' not in rs and big not in rs or rs <= frozenset('=' + ('<' if big == '>' else '>')): return [(st, c.args[1])]
    if rs <= frozenset('=' + big): return [(st, c.args[0])]
    op = 'Max' if c.short == 'max' else 'Min'
    return [(st, it.arith_mk(op, it.deepval(st, a), it.deepval(st, b)))]

@model('core::cmp::Ordering::reverse')
def m_reverse(it, st, c):
    out = []
    for s, vi, v in it.split(st, c.args[0], ORDERING): out.append((s, ('e', ORDERING, 2 - vi, ())))
    return out
@model('core::cmp::Ordering::then')
def m_then(it, st, c):
    return [(s, v if vi != 1 else c.args[1]) for s, vi, v in it.split(st, c.args[0], ORDERING)]
@model('core::cmp::Ordering::then_with')
def m_then_with(it, st, c):
    out = []
    for s, vi, v in it.split(st, c.args[0], ORDERING):
        if vi != 1: out.append((s, v))
        else: out += call(it, s, c, c.args[1])
    return out
@model(*['core::cmp::Ordering::is_' + x for x in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')])
def m_is(it, st, c):
    op = CMPOP[c.short[3:]]
    return [(s, boolv('<=>'[vi] in op)) for s, vi, v in it.split(st, c.args[0], ORDERING)]

# ---------------------------------------------------------------- numbers
INTS = {**{f'u{n}': (0, 2**n - 1) for n in (8, 16, 32, 64, 128)}, **{f'i{n}': (-2**(n - 1), 2**(n - 1) - 1) for n in (8, 16, 32, 64, 128)}}
INTS['usize'], INTS['isize'] = INTS['u64'], INTS['i64']
def int_ty(c): return INTS[c.fn.split('<impl ')[1].split('>')[0]]
@model(*[f'core::num::<impl {t}>::{n}' for t in INTS for n in ('saturating_add', 'saturating_sub', 'saturating_mul', 'wrapping_add', 'wrapping_sub', 'wrapping_mul')])
def m_sat(it, st, c):
    a, b = c.args[0], c.args[1]
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[c.short.split('_')[1]]
    if c.short.startswith('sat') and op == 'Add': op = 'SatAdd'
    if c.short.startswith('sat') and op == 'Sub': op = 'SatSub'
    if a[0] == 'c' and b[0] == 'c':
        v = a[1] + b[1] if 'Add' in op else a[1] - b[1] if 'Sub' in op else a[1] * b[1]
        lo, hi = int_ty(c)
        return [(st, ('c', max(lo, min(v, hi)) if c.short.startswith('sat') else (v - lo) % (hi - lo + 1) + lo))]
    if b == ('c', 0) and op != 'Mul': return [(st, a)]
    return [(st, it.arith_mk('Add' if op == 'SatAdd' else op, a, b))]
@model(*[f'core::num::<impl {t}>::checked_{n}' for t in INTS for n in ('add', 'sub', 'mul', 'div', 'rem')])
def m_checked(it, st, c):
    op = c.short.split('_')[1].capitalize()
    a, b = c.args[0], c.args[1]
    if a[0] == 'c' and b[0] == 'c':
        if op in ('Div', 'Rem'): v = None if b[1] == 0 else a[1] // b[1] if op == 'Div' else a[1] % b[1]
        else: v = a[1] + b[1] if op == 'Add' else a[1] - b[1] if op == 'Sub' else a[1] * b[1]
        lo, hi = int_ty(c)
        return [(st, NONE if v is None or not lo <= v <= hi else some(('c', v)))]
    t = mk(('checked', op, c.args[0], c.args[1]))
    out = []
    for s, vi, v in opt(it, st, t):
        if vi == 0: out.append((s, NONE))
        else:
            for s2, r in it.binop(s, op, c.args[0], c.args[1]): out.append((s2, some(r)))
    return out
@model('core::char::methods::<impl char>::from_u32', 'core::char::convert::from_u32')
def m_fromu32(it, st, c):
    v = c.args[0]
    if v[0] != 'c': return None
    return [(st, some(v) if 0 <= v[1] <= 0x10FFFF and not 0xD800 <= v[1] <= 0xDFFF else NONE)]

@model('core::num::<impl u64>::to_le_bytes', 'core::num::<impl u32>::to_le_bytes', 'core::num::<impl u16>::to_le_bytes')
def m_tole(it, st, c):
    ty = c.fn.split('impl ')[1].split('>')[0]
    if it.q.exact:
        v = it.deepval(st, c.args[0])
        if v[0] == 'c':
            w = {'u16': 2, 'u32': 4, 'u64': 8}[ty]
            return [(st, ('a', tuple(('c', x) for x in (v[1] & (1 << 8 * w) - 1).to_bytes(w, 'little'))))]
    return [(st, mk(('le', ty, c.args[0])))]
@model('core::num::<impl u64>::from_le_bytes', 'core::num::<impl u32>::from_le_bytes', 'core::num::<impl u16>::from_le_bytes')
def m_fromle(it, st, c):
    ty = c.fn.split('impl ')[1].split('>')[0]
    v = it.deepval(st, c.args[0])
    if it.q.exact and v[0] == 'a' and len(v[1]) == {'u16': 2, 'u32': 4, 'u64': 8}[ty] and all(x[0] == 'c' for x in v[1]):
        return [(st, ('c', int.from_bytes(bytes(x[1] & 255 for x in v[1]), 'little')))]
    return [(st, mk(('unle', ty, v)))]


# ---------------------------------------------------------------- memory
@model('core::mem::take')
def m_take(it, st, c):
    cell, proj = one_place(it, st, c)
    v = it.load(st, cell, proj)
    d = default_of(it, c.ga[0])
    it.store(st, cell, proj, d)
    it.q.on_write(it, st, cell, proj, d, (c.frame, c.bb))
    return [(st, v)] if v is not None else []
@model('core::mem::replace')
def m_replace(it, st, c):
    cell, proj = one_place(it, st, c)
    v = it.load(st, cell, proj)
    it.store(st, cell, proj, c.args[1])
    it.q.on_write(it, st, cell, proj, c.args[1], (c.frame, c.bb))
    return [(st, v)] if v is not None else []
@model('core::mem::swap')
def m_swap(it, st, c):
    a = one_place(it, st, c, 0); b = one_place(it, st, c, 1)
    va, vb = it.load(st, *a), it.load(st, *b)
    it.store(st, a[0], a[1], vb); it.store(st, b[0], b[1], va)
    return [(st, UNIT)]
@model('core::mem::drop')
def m_drop(it, st, c):
    it.q.on_drop(it, st, c.ga[0], c.args[0], (c.frame, c.bb))
    return [(st, UNIT)]
SIZES = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8, 'u128': 16, 'i32': 4, 'i64': 8}
@model('core::mem::size_of')
def m_size(it, st, c):
    s = it.F.ty_s(c.ga[0])
    return [(st, ('c', SIZES[s]) if s in SIZES else mk(('size_of', s)))]

def default_of(it, ti):
    t = it.F.types[ti]
    if t['k'] == 'adt':
        n = t['n']
        if n == OPTION: return NONE
        if any(x in n for x in ('vec::Vec', 'VecDeque', 'BTreeMap', 'BTreeSet', 'HashMap', 'HashSet', 'BinaryHeap', 'SkipMap')): return ('coll', None, 'empty')
        if n.endswith('String'): return ('s', '')
    if t['s'] in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'bool'): return ('c', 0)
    if t['k'] == 'tuple': return ('t', tuple(default_of(it, x) for x in t['a']))
    return mk(('default', t['s']))

@model('core::default::Default::default')
def m_default(it, st, c):
    if c.body is not None: return None
    return [(st, default_of(it, c.ga[0]))]

# atomics behave as plain cells (single-threaded view; documented limit)
for _ty in ('u64', 'usize', 'bool', 'u32'):
    A = f'core::sync::atomic::Atomic::<{_ty}>::'
    @model(A + 'load', A + 'into_inner')
    def a_load(it, st, c):
        v = it.rd(st, c.args[0]); return [(st, v)]
    @model(A + 'store')
    def a_store(it, st, c):
        cell, proj = one_place(it, st, c); it.store(st, cell, proj, c.args[1])
        it.q.on_write(it, st, cell, proj, c.args[1], (c.frame, c.bb)); return [(st, UNIT)]
    @model(A + 'swap')
    def a_swap(it, st, c):
        cell, proj = one_place(it, st, c); v = it.load(st, cell, proj); it.store(st, cell, proj, c.args[1])
        it.q.on_write(it, st, cell, proj, c.args[1], (c.frame, c.bb)); return [(st, v)]
    @model(A + 'fetch_add', A + 'fetch_sub', A + 'fetch_max', A + 'fetch_min')
    def a_fadd(it, st, c):
        cell, proj = one_place(it, st, c); v = it.load(st, cell, proj)
        op = {'fetch_add': 'Add', 'fetch_sub': 'Sub', 'fetch_max': 'Max', 'fetch_min': 'Min'}[c.short]
        nv = it.binop(st, op, v, c.args[1])[0][1] if op in ('Add', 'Sub') else it.arith_mk(op, v, c.args[1])
        it.store(st, cell, proj, nv)
        it.q.on_write(it, st, cell, proj, nv, (c.frame, c.bb)); return [(st, v)]

# locks: transparent
@model('std::sync::poison::mutex::Mutex::<T>::lock', 'std::sync::poison::rwlock::RwLock::<T>::read', 'std::sync::poison::rwlock::RwLock::<T>::write')
def l_std(it, st, c): return [(st, ok(c.args[0]))]
@model('lock_api::mutex::Mutex::<R, T>::lock', 'lock_api::rwlock::RwLock::<R, T>::read', 'lock_api::rwlock::RwLock::<R, T>::write', 'lock_api::rwlock::RwLock::<R, T>::upgradable_read',
       "lock_api::rwlock::RwLockUpgradableReadGuard::<'a, R, T>::upgrade", "lock_api::rwlock::RwLockWriteGuard::<'a, R, T>::downgrade", 'core::cell::RefCell::<T>::borrow', 'core::cell::RefCell::<T>::borrow_mut')
def l_pl(it, st, c): return [(st, c.args[0])]
@model('futures_util::lock::mutex::Mutex::<T>::lock', 'fusio::executor::RwLock::write', 'fusio::executor::RwLock::read', 'fusio::executor::Mutex::lock')
def l_async(it, st, c): return [(st, ('it', 'ready', c.args[0]))]
@model('fusio::executor::Executor::mutex', 'fusio::executor::Executor::rw_lock')
def l_new(it, st, c): return [(st, c.args[0])] if len(c.args) == 1 else [(st, c.args[-1])]

# ---------------------------------------------------------------- collections
def coll_at(it, st, cell, proj):
    v = it.load(st, cell, proj)
    if v is None: v = mk(('bot',))
    if v[0] == 'u':
        v2 = None
        for x in v[1]: v2 = join(v2, x if x[0] == 'coll' else as_coll(it, x))
        return v2 if v2[0] == 'coll' else ('coll', it.get(v2, ('ix',)), 'any')
    return v if v[0] == 'coll' else as_coll(it, v)
def as_coll(it, v):
    if v[0] == 'coll': return v
    if v[0] == 'a': return ('coll', joinall(v[1]) if v[1] else None, 'ne' if v[1] else 'empty')
    return ('coll', it.get(v, ('ix',)), 'any')

def coll_add(it, st, cell, proj, val):
    v = coll_at(it, st, cell, proj)
    it.store(st, cell, proj, ('coll', join(v[1], val), 'ne'))

CT = ['alloc::vec::Vec::<T>::', 'alloc::vec::Vec::<T, A>::', 'alloc::collections::vec_deque::VecDeque::<T>::', 'alloc::collections::vec_deque::VecDeque::<T, A>::',
      'alloc::collections::btree::map::BTreeMap::<K, V>::', 'alloc::collections::btree::map::BTreeMap::<K, V, A>::', 'alloc::collections::btree::set::BTreeSet::<T>::', 'alloc::collections::btree::set::BTreeSet::<T, A>::',
      'std::collections::hash::map::HashMap::<K, V>::', 'std::collections::hash::map::HashMap::<K, V, S, A>::', 'std::collections::hash::map::HashMap::<K, V, S>::', 'std::collections::hash::set::HashSet::<T>::', 'std::collections::hash::set::HashSet::<T, S, A>::', 'std::collections::hash::set::HashSet::<T, S>::',
      'alloc::collections::binary_heap::BinaryHeap::<T>::', 'alloc::collections::binary_heap::BinaryHeap::<T, A>::', 'core::slice::<impl [T]>::', 'alloc::slice::<impl [T]>::', 'crossbeam_skiplist::map::SkipMap::<K, V>::']
def cmodel(*shorts):
    def d(f):
        for p in CT:
            for s in shorts: MODELS[p + s] = f
        return f
    return d
MAPS = ('BTreeMap', 'HashMap', 'SkipMap')
def is_map(c): return any(m in c.fn for m in MAPS)

@cmodel('new', 'with_capacity')
def v_new(it, st, c): return [(st, ('coll', None, 'empty'))]
@model('alloc::vec::from_elem')
def v_from_elem(it, st, c):
    n = it.rd(st, c.args[1])
    if it.q.exact and n[0] == 'c' and isinstance(n[1], int) and n[1] <= 8: return [(st, ('a', (c.args[0],) * n[1]))]
    return [(st, ('coll', c.args[0], 'any'))]
@cmodel('push', 'push_back', 'push_front')
def v_push(it, st, c):
    cell, proj = one_place(it, st, c)
    coll_add(it, st, cell, proj, c.args[1]); return [(st, UNIT)]
@cmodel('insert')
def v_insert(it, st, c):
    cell, proj = one_place(it, st, c)
    if is_map(c):
        coll_add(it, st, cell, proj, ('t', (c.args[1], c.args[2])))
        return [(st, it.opaque(st, c.fn, [c.args[1]], (c.frame, c.bb)))]
    if 'Set' in c.fn:
        coll_add(it, st, cell, proj, c.args[1])
        return [(st, it.opaque(st, c.fn, [c.args[1]], (c.frame, c.bb)))]
    coll_add(it, st, cell, proj, c.args[2]); return [(st, UNIT)]
@cmodel('len')
def v_len(it, st, c):
    v = it.rd(st, c.args[0])
    if v[0] == 'u': return [(st.copy(), it.length(st, x)) for x in v[1]]
    return [(st, it.length(st, v))]
@cmodel('is_empty')
def v_is_empty(it, st, c):
    ps = places(it, st, c.args[0])
    v = it.rd(st, c.args[0])
    out = []
    for x in alts(v):
        if x[0] == 'coll' and x[2] in ('empty', 'ne'): out.append((st.copy(), boolv(x[2] == 'empty')))
        elif x[0] == 'coll':
            # unknown: fork and remember
            for b in (True, False):
                s = st.copy()
                if len(ps) == 1 and v[0] == 'coll': it.store(s, ps[0][0], ps[0][1], ('coll', None if b else x[1], 'empty' if b else 'ne'))
                out.append((s, boolv(b)))
        elif x[0] == 'a': out.append((st.copy(), boolv(len(x[1]) == 0)))
        elif x[0] in ('s', 'b'): out.append((st.copy(), boolv(len(x[1]) == 0)))
        else:
            out += it.binop(st.copy(), 'Eq', it.length(st, x), ('c', 0))
    return out
@cmodel('pop', 'pop_front', 'pop_back', 'pop_first', 'pop_last')
def v_pop(it, st, c):
    cell, proj = one_place(it, st, c)
    v = coll_at(it, st, cell, proj)
    out = []
    if v[2] != 'ne': out.append((st.copy(), NONE))
    if v[2] != 'empty' and v[1] is not None:
        el = fresh_elem(it, st, v[1])
        v = coll_at(it, st, cell, proj)
        it.store(st, cell, proj, ('coll', v[1], 'any'))
        out.append((st, some(el)))
    return out
def fresh_elem(it, st, el):
    """a (new) element drawn from a summary"""
    for x in alts(el):
        if x[0] == 'y' and x[1][0] == 'elem': it.fresh(st, x[1])
        elif x[0] == 'y' and x[1][0] == 'fld': pass
    return el
@cmodel('first', 'last', 'peek', 'front', 'back', 'first_mut', 'last_mut', 'peek_mut', 'front_mut', 'back_mut', 'first_key_value', 'last_key_value')
def v_first(it, st, c):
    cell, proj = one_place(it, st, c)
    v = it.load(st, cell, proj)
    if v is None: return []
    out = []
    if v[0] == 'coll':
        if v[2] != 'ne': out.append((st.copy(), NONE))
        if v[2] != 'empty' and v[1] is not None: out.append((st, some(('r', cell, proj + (('ix',),)) if 'key_value' not in c.short else ('t', (('r', cell, proj + (('ix',), ('f', 0, '0'))), ('r', cell, proj + (('ix',), ('f', 1, '1'))))))))
        return out
    if v[0] == 'a':
        if not v[1]: return [(st, NONE)]
        i = 0 if c.short.startswith('f') else len(v[1]) - 1
        return [(st, some(('r', cell, proj + (('ci', i, False),))))]
    t = mk((c.short.replace('_mut', ''), it.deepval(st, v)))
    for s, vi, w in opt(it, st, t):
        out.append((s, NONE if vi == 0 else some(w[3][0])))
    return out
@cmodel('get', 'get_mut')
def v_get(it, st, c):
    cell, proj = one_place(it, st, c)
    v = it.load(st, cell, proj)
    if v is None: return []
    out = []
    if v[0] == 'coll':
        out.append((st.copy(), NONE))
        if v[1] is not None and v[2] != 'empty':
            out.append((st, some(('r', cell, proj + ((('ix',), ('f', 1, '1')) if is_map(c) else (('ix',),))))))
        return out
    t = mk(('get', it.deepval(st, v), it.deepval(st, c.args[1])))
    for s, vi, w in opt(it, st, t): out.append((s, NONE if vi == 0 else some(w[3][0])))
    return out
@cmodel('contains', 'contains_key')
def v_contains(it, st, c):
    v = it.rd(st, c.args[0])
    if v[0] == 'coll' and v[2] == 'empty': return [(st, FALSE)]
    t = T(('contains', it.deepval(st, v), it.deepval(st, c.args[1])))
    if v[0] == 'coll': it.fresh(st, t)
    return [(st, mk(t))]
@cmodel('remove', 'swap_remove', 'swap_remove_back', 'remove_entry')
def v_remove(it, st, c):
    cell, proj = one_place(it, st, c)
    v = coll_at(it, st, cell, proj)
    it.store(st, cell, proj, ('coll', v[1], 'any' if v[2] != 'empty' else 'empty'))
    if 'Set' in c.fn: return [(st, it.opaque(st, c.fn, c.args, (c.frame, c.bb)))]
    el = v[1] if v[1] is not None else mk(('emptyelem',))
    if is_map(c):
        el = it.get(el, ('f', 1, '1'))
        out = [(st.copy(), NONE)]
        if v[2] != 'empty': out.append((st, some(el)))
        return out
    if 'Vec::' in c.fn: return [(st, el)]
    return [(st.copy(), NONE), (st, some(el))]
@cmodel('clear')
def v_clear(it, st, c):
    cell, proj = one_place(it, st, c)
    it.store(st, cell, proj, ('coll', None, 'empty')); return [(st, UNIT)]
@cmodel('truncate', 'dedup', 'sort', 'sort_unstable', 'reverse', 'reserve', 'shrink_to_fit', 'reserve_exact')
def v_trunc(it, st, c): return [(st, UNIT)]
@cmodel('sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key', 'dedup_by_key', 'dedup_by')
def v_sort(it, st, c): return [(st, UNIT)]
@cmodel('extend_from_slice', 'append', 'extend')
def v_extend(it, st, c):
    cell, proj = one_place(it, st, c)
    src = it.rd(st, c.args[1])
    sc = as_coll(it, src)
    v = coll_at(it, st, cell, proj)
    if sc[1] is not None and sc[2] != 'empty':
        it.store(st, cell, proj, ('coll', join(v[1], sc[1]), v[2] if v[2] == 'ne' else ('ne' if sc[2] == 'ne' else 'any')))
    if c.short == 'append':
        cc, pp = one_place(it, st, c, 1); it.store(st, cc, pp, ('coll', None, 'empty'))
    return [(st, UNIT)]
@model('core::iter::traits::collect::Extend::extend')
def v_extend_it(it, st, c):
    cell, proj = one_place(it, st, c)
    out = []
    for s, els in drain(it, st, c, into_iter(it, st, c.args[1], c)):
        if els is not None:
            v = coll_at(it, s, cell, proj)
            it.store(s, cell, proj, ('coll', join(v[1], els), 'any' if v[2] != 'ne' else 'ne'))
        out.append((s, UNIT))
    return out
def path_s(it, c):
    return ' '.join(it.F.ty_s(g) for g in c.ga)

@model('alloc::boxed::Box::<T>::new_uninit')
def b_uninit(it, st, c):
    r = it.tmp(st, c.frame, ('box', c.bb), mk(('uninit',)))
    return [(st, r)]
@model('alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>, A>::assume_init')
def b_into_vec(it, st, c):
    v = c.args[0]
    if v[0] != 'r': return None
    w = it.load(st, v[1], v[2])
    for f in ('value', 'value'):
        if w is None: return None
        if w[0] == 'a': break
        w = it.get(w, ('f', 0 if f != 'value' else 1, f))
    if w is None or w[0] not in ('a', 'coll', 'u'): return None
    return [(st, w)]

@cmodel('drain', 'split_off')
def v_drain(it, st, c):
    cell, proj = one_place(it, st, c)
    full = len(c.args) < 2 or (c.args[1][0] == 'e' and c.args[1][1].endswith('RangeFull')) or 'RangeFull' in path_s(it, c)
    a0 = it.load(st, cell, proj)
    if c.short == 'drain' and full and a0 is not None and a0[0] == 'a':
        it.store(st, cell, proj, ('a', ()))
        return [(st, ('it', 'own', a0))]
    v = coll_at(it, st, cell, proj)
    it.store(st, cell, proj, ('coll', v[1], 'any'))
    full = len(c.args) < 2 or (c.args[1][0] == 'e' and c.args[1][1].endswith('RangeFull')) or 'RangeFull' in path_s(it, c)
    return [(st, ('it', 'own', ('coll', v[1], v[2] if full else 'any')) if c.short == 'drain' else ('coll', v[1], 'any'))]
@cmodel('retain')
def v_retain(it, st, c):
    cell, proj = one_place(it, st, c)
    v = coll_at(it, st, cell, proj)
    out = [(st.copy(), UNIT)]
    if v[1] is None: return out
    r = ('r', cell, proj + (('ix',),))
    args = [r] if not is_map(c) else [('r', cell, proj + (('ix',), ('f', 0, '0'))), ('r', cell, proj + (('ix',), ('f', 1, '1')))]
    for s, b in it.call_value(st, c.args[1], args, c.frame, c.bb):
        for s2, t in it.truth(s, b):
            w = coll_at(it, s2, cell, proj)
            it.store(s2, cell, proj, ('coll', w[1], 'any') if t else ('coll', w[1], 'any'))
            out.append((s2, UNIT))
    return out
@cmodel('entry')
def v_entry(it, st, c):
    cell, proj = one_place(it, st, c)
    return [(st, ('it', 'entry', cell, proj, c.args[1]))]
@model("std::collections::hash::map::Entry::<'a, K, V>::or_default", "std::collections::hash::map::Entry::<'a, K, V>::or_insert", "std::collections::hash::map::Entry::<'a, K, V>::or_insert_with",
       "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>::or_default", "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>::or_insert", "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>::or_insert_with")
def e_or(it, st, c):
    e = c.args[0]
    if e[0] != 'it': return None
    _, _, cell, proj, key = e
    if c.short == 'or_default': vals = [(st, default_of(it, c.ga[1] if len(c.ga) > 1 else c.ga[0]))]
    elif c.short == 'or_insert': vals = [(st, c.args[1])]
    else: vals = call(it, st, c, c.args[1])
    out = []
    for s, v in vals:
        coll_add(it, s, cell, proj, ('t', (key, v)))
        out.append((s, ('r', cell, proj + (('ix',), ('f', 1, '1')))))
    return out
@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def m_index(it, st, c):
    if c.body is not None: return None
    t = it.F.types[c.ga[1]] if len(c.ga) > 1 else None
    if t is not None and 'ops::range' in t['s'] or (t and 'ops::Range' in t['s']):
        v = it.rd(st, c.args[0])
        if v[0] in ('y', 's', 'b'):
            dv, dr = it.deepval(st, v), it.deepval(st, c.args[1])
            if dr[0] == 'e' and dr[1].endswith('RangeTo') and len(dr[3]) == 1 and dr[3][0] == mk(('len', dv)): return [(st, c.args[0])]   # x[..x.len()]
            return [(st, mk(('slice', dv, dr)))]
        return [(st, c.args[0])]
    cell, proj = one_place(it, st, c)
    v = it.load(st, cell, proj)
    if v is not None and v[0] == 'y':
        return [(st, ('r', ('o', T(('at', v[1], it.deepval(st, c.args[1])))), ()))]
    s0 = it.F.ty_s(c.ga[0])
    if any(m in s0 for m in MAPS): return [(st, ('r', cell, proj + (('ix',), ('f', 1, '1'))))]
    return [(st, ('r', cell, proj + (('ix',),)))]

# ---------------------------------------------------------------- iterators
def closed_range(v):
    """`a..=b` of known numbers, as the half-open range with the same elements"""
    if v[1] == RANGEI and v[3][0][0] == 'c' and v[3][1][0] == 'c' and isinstance(v[3][1][1], int) and v[3][2] == FALSE: return ('e', RANGE, 0, (v[3][0], ('c', v[3][1][1] + 1)))
    return v
def into_iter(it, st, v, c=None):
    if v[0] == 'b' and it.q.exact and len(v[1]) <= 64: return ('it', 'xlist', tuple(('c', x) for x in v[1]))
    if v[0] == 'it': return v
    if v[0] == 'e' and v[1] == RANGEI: v = closed_range(v)
    if v[0] == 'u': return ('it', 'alts', tuple(into_iter(it, st, x, c) for x in v[1]))
    if v[0] == 'r':
        w = it.load(st, v[1], v[2])
        if w is None: return ('it', 'own', ('coll', None, 'empty'))
        if w[0] == 'it' or w[0] == 'r': return ('it', 'by', v[1], v[2])
        if w[0] == 'e':
            if w[1] == OPTION: return ('it', 'ref', v[1], v[2])
            if w[1] in (RANGE, RANGEI): return ('it', 'own', closed_range(w))
            if has_next(it, w[1]): return ('it', 'by', v[1], v[2])
        return ('it', 'ref', v[1], v[2])
    if v[0] == 'e' and has_next(it, v[1]) and c is not None:
        r = it.tmp(st, c.frame, ('iter', c.bb), v)
        return ('it', 'by', r[1], r[2])
    return ('it', 'own', v)

def iter_adt(it, ti):
    """crate-local iterator type behind references: (adt | None, is_ref)"""
    t = it.F.types[ti]; ref = False
    while t['k'] == 'ref':
        t = it.F.types[t['t']]; ref = True
    n = t.get('n') if t['k'] == 'adt' else None
    if n and n.startswith('crate::') and has_next(it, n): return n, ref
    return None, ref
def is_collection(it, ti):
    t = it.F.types[ti]
    if t['k'] in ('slice', 'array'): return True
    n = t.get('n') or ''
    return any(x in n for x in ('vec::Vec', 'VecDeque', 'BTreeMap', 'BTreeSet', 'HashMap', 'HashSet', 'BinaryHeap', 'SkipMap', 'option::Option', 'result::Result'))
def has_next(it, adt):
    return any(it.F.types[ti].get('n') == adt for ti, _ in it.F.trait_impls.get(('core::iter::traits::iterator::Iterator', 'next'), []))
def next_body(it, adt):
    for ti, fn in it.F.trait_impls.get(('core::iter::traits::iterator::Iterator', 'next'), []):
        if it.F.types[ti].get('n') == adt: return it.F.bodies.get(fn)

def inext(it, st, v, c):
    """advance iterator value: [(state, None | element)]"""
    if v[0] == 'r':
        return inext(it, st, ('it', 'by', v[1], v[2]), c)
    if v[0] != 'it':
        return inext(it, st, ('it', 'own', v), c)
    k = v[1]
    if k == 'alts':
        out = []
        for x in v[2]: out += inext(it, st.copy(), x, c)
        return out
    if k == 'by':
        w = it.load(st, v[2], v[3])
        if w is None: return []
        n = 0
        while w is not None and w[0] == 'r' and n < 6:      # `&mut &mut I`
            v = ('it', 'by', w[1], w[2]) + v[4:]
            w = it.load(st, w[1], w[2]); n += 1
        if w is None: return []
        if w[0] == 'it' and w[1] == 'peekable' and len(w) > 3 and w[3] is not None:
            it.store(st, v[2], v[3], w[:3])
            return [(st, w[3][1] if w[3][0] == 'some' else None)]
        if w[0] == 'e' and w[1] not in (OPTION, RANGE, RANGEI) or len(v) > 4 and w[0] in ('y', 'p', 'u'):
            b = next_body(it, v[4] if len(v) > 4 else w[1])
            if b is not None:
                out = []
                for s, o in it.inline(st, b, [('r', v[2], v[3])], c.frame, c.bb):
                    for s2, vi, x in opt(it, s, o): out.append((s2, None if vi == 0 else x[3][0]))
                return out
        return inext(it, st, w if w[0] in ('it', 'r') else ('it', 'own', w), c)
    if k == 'ref':
        w = it.load(st, v[2], v[3])
        if w is None: return []
        if w[0] == 'e' and w[1] == OPTION:
            return [(s, None if vi == 0 else ('r', v[2], v[3] + (('v', 1, 'Some'), ('f', 0, '0')))) for s, vi in it.split_place(st, v[2], v[3], OPTION)]
        if w[0] == 'coll' and (w[1] is None or w[2] == 'empty'): return [(st, None)]
        if w[0] == 'a' and not w[1]: return [(st, None)]
        s2 = st.copy()
        if w[0] in ('y', 'p'): it.fresh(s2, ('elem', w[1]))
        elif w[0] == 'coll': fresh_elem(it, s2, w[1])
        el = ('r', v[2], v[3] + (('ix',),))
        ww = it.load(s2, v[2], v[3])
        ev = it.load(s2, el[1], el[2])
        if len(v) > 4 and v[4] == 'map':
            el = ('t', (('r', v[2], v[3] + (('ix',), ('f', 0, '0'))), ('r', v[2], v[3] + (('ix',), ('f', 1, '1')))))
        elif ww is not None and ww[0] in ('coll', 'a') and ev is not None and ev[0] == 't' and len(v) > 4 and v[4] == 'map':
            pass
        return [(st, None), (s2, el)]
    if k == 'rs':
        if v[4] >= v[5]: return [(st, None)]
        return [(st, None)] + [(st.copy(), ('r', v[2], v[3] + (('ci', i, False),))) for i in range(v[4], v[5])]
    if k == 'own':
        w = v[2]
        if w[0] == 'r': return inext(it, st, into_iter(it, st, w, c), c)
        if w[0] == 'e':
            if w[1] == OPTION:
                return [(st, None)] if w[2] == 0 else [(st.copy(), None), (st, w[3][0])]
            if w[1] == RANGE or w[1] == RANGEI:
                lo, hi = w[3][0], w[3][1]
                t = T(('idx', it.deepval(st, lo), it.deepval(st, hi)))
                s2 = st.copy(); it.fresh(s2, t)
                it.learn_rel(s2, ('y', t), it.norm(it.deepval(s2, hi)), frozenset('<') if w[1] == RANGE else frozenset('<='))
                return [(st, None), (s2, ('y', t))]
            if w[1].startswith('crate::'):
                b = next_body(it, w[1])
                if b is not None:
                    r = it.tmp(st, c.frame, ('own', c.bb), w)
                    return inext(it, st, ('it', 'by', r[1], r[2]), c)
        if w[0] == 'coll':
            if w[1] is None or w[2] == 'empty': return [(st, None)]
            s2 = st.copy(); el = fresh_elem(it, s2, w[1])
            return [(st, None), (s2, el)]
        if w[0] == 'a':
            if not w[1]: return [(st, None)]
            return [(st, None), (st.copy(), joinall(w[1]))]
        if w[0] == 'u':
            out = []
            for x in w[1]: out += inext(it, st.copy(), ('it', 'own', x), c)
            return out
        t = w[1] if w[0] in ('y', 'p') else T(('val', w))
        s2 = st.copy(); it.fresh(s2, ('elem', t))
        return [(st, None), (s2, mk(('elem', t)))]
    if k == 'map':
        out = []
        for s, e in inext(it, st, v[2], c):
            if e is None: out.append((s, None))
            else: out += it.call_value(s, v[3], [e], c.frame, c.bb)
        return out
    if k == 'inspect':
        out = []
        for s, e in inext(it, st, v[2], c):
            if e is None: out.append((s, None))
            else:
                r = it.tmp(s, c.frame, ('insp', c.bb), e)
                out += [(s2, e) for s2, _ in it.call_value(s, v[3], [r], c.frame, c.bb)]
        return out
    if k in ('filter', 'skip_while', 'take_while'):
        out = []
        for s, e in inext(it, st, v[2], c):
            if e is None: out.append((s, None)); continue
            r = it.tmp(s, c.frame, ('filt', c.bb, depth(v)), e)
            for s2, b in it.call_value(s, v[3], [r], c.frame, c.bb):
                for s3, t in it.truth(s2, b):
                    if k == 'skip_while': out.append((s3, e))
                    elif t: out.append((s3, e))
                    else: out.append((s3, None))
        return out
    if k == 'map_while':
        out = []
        for s, e in inext(it, st, v[2], c):
            if e is None: out.append((s, None)); continue
            for s2, o in it.call_value(s, v[3], [e], c.frame, c.bb):
                for s3, vi, w in opt(it, s2, o): out.append((s3, None if vi == 0 else w[3][0]))
        return out
    if k == 'filter_map':
        out = []
        for s, e in inext(it, st, v[2], c):
            if e is None: out.append((s, None)); continue
            for s2, o in it.call_value(s, v[3], [e], c.frame, c.bb):
                for s3, vi, w in opt(it, s2, o): out.append((s3, None if vi == 0 else w[3][0]))
        return out
    if k == 'enumerate':
        out = []
        for s, e in inext(it, st, v[2], c):
            if e is None: out.append((s, None)); continue
            t = T(('idxof', it.deepval(s, v[2]) if v[2][0] != 'it' else itsrc(it, s, v[2])))
            it.fresh(s, t)
            out.append((s, ('t', (mk(t), e))))
        return out
    if k == 'zip':
        out = []
        for s, e in inext(it, st, v[2], c):
            if e is None: out.append((s, None)); continue
            for s2, f in inext(it, s, v[3], c): out.append((s2, None if f is None else ('t', (e, f))))
        return out
    if k in ('rev', 'skip', 'take', 'fuse', 'step_by', 'peekable', 'cycle'):
        return inext(it, st, v[2], c)
    if k == 'deref':
        return [(s, e if e is None else __import__('exact').rd1(it, s, e)) for s, e in inext(it, st, v[2], c)]
    if k == 'chain':
        return inext(it, st.copy(), v[2], c) + inext(it, st, v[3], c)
    if k in ('flat_map', 'flatten'):
        out = []
        for s, e in inext(it, st, v[2], c):
            if e is None: out.append((s, None)); continue
            rs = it.call_value(s, v[3], [e], c.frame, c.bb) if k == 'flat_map' else [(s, e)]
            for s2, inner in rs: out += inext(it, s2, into_iter(it, s2, inner, c), c)
        return out
    if k == 'proj':
        return [(s, e if e is None else pick(it, s, e, v[3])) for s, e in inext(it, st, v[2], c)]
    if k == 'ready': return [(st, None)]
    return [(st.copy(), None), (st, mk(('elem', ('it', k))))]

def itsrc(it, st, v):
    """what an iterator ultimately ranges over (for naming indices)"""
    while v[0] == 'it':
        if v[1] in ('ref', 'by'):
            w = it.load(st, v[2], v[3])
            if w is None: return mk(('bot',))
            if w[0] == 'it': v = w; continue
            return it.deepval(st, w)
        v = v[2]
        if isinstance(v, tuple) and v and isinstance(v[0], tuple): return mk(('alts',))
    return it.deepval(st, v)

def pick(it, st, e, i):
    if e[0] == 'r': return ('r', e[1], e[2] + (('f', i, str(i)),))
    return it.get(e, ('f', i, str(i)))

@model('core::iter::traits::collect::IntoIterator::into_iter')
def m_into_iter(it, st, c):
    v = c.args[0]
    if c.body is not None: return None
    t = it.F.types[c.ga[0]]
    a, isref = iter_adt(it, c.ga[0])
    if a is not None:
        if isref: return [(st, v)]
        r = it.tmp(st, c.frame, ('iter', c.bb), v)
        return [(st, ('it', 'by', r[1], r[2], a))]
    if t['k'] == 'ref' and t['m'] and not is_collection(it, t['t']): return [(st, v)]
    r = into_iter(it, st, v, c)
    if r[0] == 'it' and r[1] == 'ref' and t['k'] == 'ref' and any(m in it.F.ty_s(t['t'])[:60] for m in MAPS): r = r + ('map',) if len(r) == 4 else r
    if v[0] == 'r' and r[1] == 'by': return [(st, v)]
    return [(st, r)]
@cmodel('iter', 'iter_mut', 'range', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'chunks', 'windows', 'into_iter', 'range_mut')
def m_iter(it, st, c):
    cell, proj = one_place(it, st, c)
    w = it.load(st, cell, proj)
    if c.short in ('range', 'range_mut') and w is not None and w[0] in ('y', 'p'):
        v = it.opaque(st, c.fn, c.args)
        return [(st, ('it', 'own', v))]
    base = ('it', 'ref', cell, proj) + (('map',) if is_map(c) and 'SkipMap' not in c.fn else ())
    if c.short in ('keys', 'into_keys'): base = ('it', 'proj', base, 0)
    if c.short in ('values', 'values_mut', 'into_values'): base = ('it', 'proj', base, 1)
    return [(st, base)]
@model('core::option::Option::<T>::iter', 'core::option::Option::<T>::iter_mut', 'arrow_array::array::primitive_array::PrimitiveArray::<T>::iter')
def m_oiter(it, st, c):
    cell, proj = one_place(it, st, c)
    return [(st, ('it', 'ref', cell, proj))]
def src_iter(it, st, c):
    v = c.args[0]
    a, isref = iter_adt(it, c.ga[0]) if c.ga else (None, False)
    if a is not None and v[0] != 'it':
        ps = places(it, st, v) if v[0] in ('r', 'y', 'p') and isref else []
        if not ps:
            r = it.tmp(st, c.frame, ('iter', c.bb), v); ps = [(r[1], r[2])]
        return ('it', 'by', ps[0][0], ps[0][1], a)
    return into_iter(it, st, v, c)
def _ad(n, k, nargs):
    @model(IT + n)
    def f(it, st, c, k=k, nargs=nargs):
        src = src_iter(it, st, c)
        if nargs == 0: return [(st, ('it', k, src))]
        a = c.args[1]
        if k in ('zip', 'chain'): a = into_iter(it, st, a, c)
        return [(st, ('it', k, src, a))]
for n in ('map', 'filter', 'filter_map', 'skip_while', 'take_while', 'zip', 'chain', 'flat_map', 'take', 'skip', 'inspect', 'step_by'): _ad(n, n, 1)
for n in ('enumerate', 'rev', 'fuse', 'peekable', 'flatten', 'cycle'): _ad(n, n, 0)
_ad('cloned', 'deref', 0); _ad('copied', 'deref', 0)

@model('core::iter::sources::empty::empty')
def m_empty(it, st, c): return [(st, ('it', 'own', ('coll', None, 'empty')))]
@model('core::iter::sources::once::once')
def m_once(it, st, c): return [(st, ('it', 'own', ('a', (c.args[0],))))]
@model('core::ops::range::RangeInclusive::<Idx>::new')
def m_rangei(it, st, c): return [(st, ('e', RANGEI, 0, (c.args[0], c.args[1], FALSE)))]

@model(IT + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back', IT + 'last_', IT + 'nth')
def m_next(it, st, c):
    v = c.args[0]
    w = it.rd(st, v) if v[0] in ('r', 'u') else v
    if c.body is not None and w[0] != 'it': return None
    if w[0] == 'it' and w[1] == 'own' and w[2][0] == 'coll' and w[2][2] == 'ne' and w[2][1] is not None:
        ps = places(it, st, v)
        if len(ps) == 1:
            it.store(st, ps[0][0], ps[0][1], ('it', 'own', ('coll', w[2][1], 'any')) + w[3:])
            return [(st, some(fresh_elem(it, st, w[2][1])))]
    if w[0] in ('y', 'p', 'e') and c.short == 'next':
        a, isref = iter_adt(it, c.ga[0])
        if a is not None:
            ps = places(it, st, v)
            if ps: return [(s, NONE if e is None else some(e)) for s, e in inext(it, st, ('it', 'by', ps[0][0], ps[0][1], a), c)]
    if w[0] in ('y', 'p'):
        # unknown iterator: a fresh optional element
        o = it.opaque(st, c.fn, c.args, (c.frame, c.bb))
        t = T(('elem', w[1]))
        s2 = st.copy(); it.fresh(s2, t)
        poss = it.sym_variants(st, o[1], OPTION)
        out = []
        if 0 in poss: out.append((st, NONE))
        if 1 in poss: out.append((s2, some(mk(t))))
        return out
    return [(s, NONE if e is None else some(e)) for s, e in inext(it, st, v if v[0] == 'r' else w, c)]

@model("core::iter::adapters::peekable::Peekable::<I>::peek")
def m_peek(it, st, c):
    ps = places(it, st, c.args[0])
    w = it.load(st, *ps[0]) if len(ps) == 1 else None
    if it.q.exact and w is not None and w[0] == 'it' and w[1] == 'peekable':
        # what was looked at stays in front
        if len(w) > 3 and w[3] is not None: rs = [(st, w[3][1] if w[3][0] == 'some' else None)]
        else:
            rs = inext(it, st, w[2], c)
            for s, e in rs:
                z = it.load(s, *ps[0])
                if z is not None and z[0] == 'it' and z[1] == 'peekable': it.store(s, ps[0][0], ps[0][1], z[:3] + (('some', e) if e is not None else ('none',),))
        return [(s, NONE if e is None else some(it.tmp(s, c.frame, ('peek', c.bb), e))) for s, e in rs]
    return [(s, NONE if e is None else some(it.tmp(s, c.frame, ('peek', c.bb), e))) for s, e in inext(it, st, c.args[0], c)]

def loop(it, st, c, v, step, rounds=3):
    """run step on elements until the joined state stabilises; returns states after the loop.
    step(state, element) -> [(state, tag)] ; tag None = continue, else early exit with tag"""
    done = []
    exits = []
    cur = [st]
    after = None
    for r in range(rounds):
        nxt = {}
        for s in cur:
            for s2, e in inext(it, s.copy(), v, c):
                if e is None:
                    done.append(s2); continue
                for s3, tag in step(s2, e):
                    if tag is not None: exits.append((s3, tag))
                    else:
                        k = s3.sig()
                        nxt[k] = join_state(nxt[k], s3) if k in nxt else s3
        if not nxt: break
        cur = list(nxt.values())
    done += cur
    m = {}
    for s in done:
        k = s.sig()
        m[k] = join_state(m[k], s) if k in m else s
    return list(m.values()), exits

def drain(it, st, c, v):
    """exhaust an iterator: [(state, joined elements | None)]"""
    acc = {'v': None}
    def step(s, e):
        acc['v'] = join(acc['v'], e)
        return [(s, None)]
    done, _ = loop(it, st, c, v, step, 2)
    return [(s, acc['v']) for s in done]

@model(IT + 'for_each')
def i_for_each(it, st, c):
    f = c.args[1]
    done, _ = loop(it, st, c, src_iter(it, st, c), lambda s, e: [(s2, None) for s2, _ in it.call_value(s, f, [e], c.frame, c.bb)])
    return [(s, UNIT) for s in done]
def _pred(name, stop):
    @model(IT + name)
    def f(it, st, c, name=name, stop=stop):
        fn = c.args[1]
        src = src_iter(it, st, c)
        if src[1] == 'by' or True:
            pass
        def step(s, e):
            out = []
            arg = e
            if name in ('find', 'position_'): arg = it.tmp(s, c.frame, ('pred', c.bb), e)
            for s2, b in it.call_value(s, fn, [arg], c.frame, c.bb):
                for s3, t in it.truth(s2, b):
                    if t == stop:
                        out.append((s3, {'any': TRUE, 'all': FALSE, 'find': some(e), 'position': some(mk(('pos', (c.frame, c.bb)))), 'rposition': some(mk(('pos', (c.frame, c.bb))))}[name]))
                    else: out.append((s3, None))
            return out
        done, exits = loop(it, st, c, src, step)
        d = {'any': FALSE, 'all': TRUE, 'find': NONE, 'position': NONE, 'rposition': NONE}[name]
        return [(s, d) for s in done] + exits
for n, s_ in (('any', True), ('all', False), ('find', True), ('position', True), ('rposition', True)): _pred(n, s_)
@model(IT + 'find_map')
def i_find_map(it, st, c):
    def step(s, e):
        out = []
        for s2, o in it.call_value(s, c.args[1], [e], c.frame, c.bb):
            for s3, vi, w in opt(it, s2, o): out.append((s3, None if vi == 0 else w))
        return out
    done, exits = loop(it, st, c, src_iter(it, st, c), step)
    return [(s, NONE) for s in done] + exits
@model(IT + 'fold')
def i_fold(it, st, c):
    cell = ('tmp', c.frame, ('fold', c.bb))
    st.mem[cell] = c.args[1]
    def step(s, e):
        out = []
        for s2, v in it.call_value(s, c.args[2], [s.mem[cell], e], c.frame, c.bb):
            s2.mem[cell] = v; out.append((s2, None))
        return out
    done, _ = loop(it, st, c, src_iter(it, st, c), step)
    return [(s, s.mem[cell]) for s in done]
@model(IT + 'try_fold', IT + 'try_for_each')
def i_try_fold(it, st, c):
    cell = ('tmp', c.frame, ('fold', c.bb))
    tf = c.short == 'try_fold'
    st.mem[cell] = c.args[1] if tf else UNIT
    f = c.args[2] if tf else c.args[1]
    def step(s, e):
        out = []
        for s2, v in it.call_value(s, f, ([s.mem[cell]] if tf else []) + [e], c.frame, c.bb):
            for x in alts(v):
                adt = x[1] if x[0] == 'e' else RESULT
                for s3, vi, w in it.split(s2, x, adt):
                    good = (adt == RESULT and vi == 0) or (adt == OPTION and vi == 1)
                    if good: s3.mem[cell] = w[3][0]; out.append((s3, None))
                    else: out.append((s3, w))
        return out
    done, exits = loop(it, st, c, src_iter(it, st, c), step)
    return [(s, ok(s.mem[cell])) for s in done] + exits
@model(IT + 'collect', IT + 'partition')
def i_collect(it, st, c):
    t = it.F.types[c.ga[1]] if len(c.ga) > 1 else {'k': 'x'}
    adt = t.get('n')
    src = src_iter(it, st, c)
    ne = src_ne(it, st, src)
    acc = {'v': None}
    def step(s, e):
        if adt == RESULT or adt == OPTION:
            out = []
            for s2, vi, w in it.split(s, e, adt):
                if (adt == RESULT and vi == 1) or (adt == OPTION and vi == 0): out.append((s2, w))
                else:
                    acc['v'] = join(acc['v'], w[3][0]); out.append((s2, None))
            return out
        acc['v'] = join(acc['v'], e)
        return [(s, None)]
    done, exits = loop(it, st, c, src, step, 2)
    out = []
    pure = srcterm(it, st, src)
    for s in done:
        v = ('coll', acc['v'], ('ne' if ne else 'any') if acc['v'] is not None else 'empty')
        if acc['v'] is not None and pure is not None: v = pure
        out.append((s, ok(v) if adt == RESULT else some(v) if adt == OPTION else v))
    if not done and not exits: return []
    return out + exits
def src_ne(it, st, v):
    """does this iterator certainly yield at least one element"""
    while v[0] == 'it' and v[1] in ('deref', 'fuse', 'map', 'rev', 'enumerate', 'inspect', 'peekable') and len(v) > 2: v = v[2]
    if v[0] != 'it': return False
    if v[1] == 'ref' and len(v) == 4:
        w = it.load(st, v[2], v[3])
    elif v[1] == 'own' and len(v) == 3: w = v[2]
    else: return False
    return w is not None and ((w[0] == 'coll' and w[2] == 'ne') or (w[0] == 'a' and len(w[1]) > 0))
def srcterm(it, st, v):
    """collecting an untransformed unknown sequence yields that sequence"""
    while v[0] == 'it' and v[1] in ('deref', 'fuse'): v = v[2]
    if v[0] == 'it' and v[1] == 'ref':
        w = it.load(st, v[2], v[3])
        if w is not None and w[0] == 'y' and len(v) == 4: return w
    if v[0] == 'it' and v[1] == 'own' and v[2][0] == 'y': return v[2]
    return None
@model(IT + 'count')
def i_count(it, st, c):
    return [(s, mk(('count', els if els is not None else ('c', 0))) if els is not None else ('c', 0)) for s, els in drain(it, st, c, src_iter(it, st, c))]
@model(IT + 'sum', IT + 'product')
def i_sum(it, st, c):
    return [(s, mk((c.short, it.deepval(s, els))) if els is not None else ('c', 0)) for s, els in drain(it, st, c, src_iter(it, st, c))]
@model(IT + 'max', IT + 'min', IT + 'last')
def i_max(it, st, c):
    out = []
    for s, els in drain(it, st, c, src_iter(it, st, c)):
        if els is None: out.append((s, NONE)); continue
        t = mk(('agg' + c.short, it.deepval(s, els)))
        out.append((s.copy(), NONE)); out.append((s, some(t)))
    return out
@model(IT + 'max_by_key', IT + 'min_by_key', IT + 'max_by', IT + 'min_by')
def i_max_by(it, st, c):
    out = []
    for s, els in drain(it, st, c, src_iter(it, st, c)):
        out.append((s.copy(), NONE))
        if els is not None: out.append((s, some(els)))
    return out
@model(IT + 'size_hint')
def i_hint(it, st, c): return [(st, mk(('w', 'hint')))]

@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def s_copy(it, st, c):
    ps = places(it, st, c.args[0])
    v = it.deepval(st, it.rd(st, c.args[1]))
    if it.q.exact and v[0] == 'a':
        d = it.deepval(st, it.rd(st, c.args[0]))
        if d[0] == 'a' and len(d[1]) != len(v[1]): return []
    for cell, proj in ps[:1]:
        if proj and proj[-1][0] == 'ss':
            _, lo, hi, fe = proj[-1]
            base = it.load(st, cell, proj[:-1])
            if base is not None and base[0] == 'a' and not fe and hi <= len(base[1]):
                els = v[1] if v[0] == 'a' and len(v[1]) == hi - lo else tuple(mk(('byte', v, ('c', i))) for i in range(hi - lo))
                it.store(st, cell, proj[:-1], ('a', base[1][:lo] + tuple(els) + base[1][hi:]))
            else: it.store(st, cell, proj[:-1], v)
            continue
        it.store(st, cell, proj, v)
        sl = st.g(('slice', cell)) if not proj else None
        if sl:
            pc, pp, lo, hi = sl
            base = it.load(st, pc, pp)
            if base is not None and base[0] == 'a' and hi <= len(base[1]):
                els = v[1] if v[0] == 'a' and len(v[1]) == hi - lo else tuple(mk(('byte', v, ('c', i))) for i in range(hi - lo))
                it.store(st, pc, pp, ('a', base[1][:lo] + tuple(els) + base[1][hi:]))
            else: it.store(st, pc, pp, v)
    return [(st, UNIT)]
@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def s_split(it, st, c):
    v = it.deepval(st, it.rd(st, c.args[0])); n = it.deepval(st, c.args[1])
    if it.q.exact and v[0] == 'a' and n[0] == 'c' and c.short == 'split_at':
        if n[1] > len(v[1]): return []
        return [(st, ('t', (it.tmp(st, c.frame, ('spa', c.bb), ('a', v[1][:n[1]])), it.tmp(st, c.frame, ('spb', c.bb), ('a', v[1][n[1]:])))))]
    R = 'core::ops::range::RangeTo'; R2 = 'core::ops::range::RangeFrom'
    return [(st, ('t', (mk(('slice', v, ('e', R, 0, (n,)))), mk(('slice', v, ('e', R2, 0, (n,)))))))]
@model('core::str::<impl str>::is_empty', 'alloc::string::String::is_empty', 'arrow_array::array::primitive_array::PrimitiveArray::<T>::is_empty')
def s_empty(it, st, c):
    v = it.rd(st, c.args[0])
    return it.binop(st, 'Eq', it.length(st, v), ('c', 0))
@model('core::str::<impl str>::len', 'alloc::string::String::len', 'arrow_array::array::primitive_array::PrimitiveArray::<T>::len', 'arrow_array::array::Array::len', 'arrow_array::record_batch::RecordBatch::num_rows')
def s_len(it, st, c): return [(st, it.length(st, it.rd(st, c.args[0])))]

# tracing: dead
@model('tracing::__macro_support::__is_enabled', 'tracing_core::subscriber::Interest::is_never')
def t_dis(it, st, c): return [(st, FALSE)]
@model('tracing::span::Span::is_disabled')
def t_dis2(it, st, c): return [(st, TRUE)]
@model('core::intrinsics::discriminant_value')
def m_discr(it, st, c):
    t = it.F.types[c.ga[0]]
    if t['k'] == 'adt':
        return [(s, ('c', it.F.adts[t['n']]['v'][vi]['d'])) for s, vi, _, _ in ref_split(it, st, c, t['n'])]
    return None
@model('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::assert_failed', 'core::intrinsics::unreachable', 'core::panicking::unreachable_default_msg')
def m_panic(it, st, c): return []
@model('futures_util::stream::stream::StreamExt::next')
def m_snext(it, st, c): return [(st, it.opaque(st, c.fn, c.args, (c.frame, c.bb)))]

@model('alloc::fmt::format')
def m_format(it, st, c):
    a = it.deepval(st, c.args[0])
    if depth(a) > 14: return [(st, mk(('fmt',)))]
    return [(st, mk(('call', 'alloc::fmt::format', (a,))))]
