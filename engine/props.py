"""Which property a deviation belongs to, and which worlds and operations decide a property."""
from iters import *
from pairs import *
from ranges import *
from faults import *
from wraps import *
from statobj import *

PRIMARY = {'insert': ['C07'], 'lookup': ['C05'], 'erase': ['C08'], 'resize': ['C09'], 'sizes': ['C01'], 'functors': ['C24'],
           'ends': ['C03'], 'expiry': ['C15'], 'monitor': ['C17'], 'callbacks': ['C18'], 'make': ['C12'], 'iter': ['C19'],
           'conv': ['C20'], 'eq': ['C20'], 'range': ['C12'], 'copy': ['C10'], 'move': ['C11'], 'equal': ['C10'], 'statobj': ['C17'],
           'fault': ['C30'], 'wrap': ['C25', 'C26'], 'valid': ['C19'], 'itererase': ['C08'], 'last': ['C28']}


def classify(opn, aspect, tag, msg=''):
    """properties that a deviation of this kind breaks"""
    o = OPS[opn]
    kind = o.kind
    prim = list(PRIMARY.get(kind, []))
    out = set()
    if kind == 'wrap':
        if aspect in ('bug', 'terminate'):
            return {'C25', 'C26'}
        if opn == 'other' or aspect in ('shared', 'cap', 'ttl'):
            return {'C26'}
        return {'C25'}
    if aspect in ('bug', 'terminate'):
        out.update(prim)
        out.add('C06' if aspect == 'bug' else 'C27')
        if kind == 'iter':
            out.add('C06')
        if kind in ('lookup', 'ends', 'monitor', 'iter', 'valid', 'conv', 'itererase') and msg.split(':')[0] in ('null', 'end', 'empty', 'singular', 'assert'):
            out.add('C27')      # instead of the exception
    elif aspect == 'sync':
        out.update(prim + ['C04', 'C06'])
        if 'evict' in tag:
            out.add('C02')
    elif aspect in ('size', 'sizes'):
        out.add('C01')
        if aspect == 'size':
            out.update(prim)
        if 'evict' in tag:
            out.add('C02')
    elif aspect == 'cap':
        out.update(['C01', 'C09'])
        out.update(prim)
    elif aspect in ('lost', 'extra', 'value', 'result', 'order', 'args', 'copies'):
        if aspect == 'order':
            out.add('C03')
            if kind == 'insert':
                out.add('C02')
            if kind not in ('insert', 'lookup'):
                out.update(prim)
        elif aspect in ('args', 'copies'):
            out.add('C23')
            if kind in ('range', 'make'):
                out.add('C12')
        else:
            out.update(prim)
            if kind == 'insert' and aspect in ('lost', 'extra'):
                out.add('C02')
            if kind == 'insert' and aspect == 'value':
                out.add('C05')
            if kind in ('lookup', 'iter', 'valid', 'expiry') and ('expired' in tag or 'fresh' in tag):
                out.add('C13')
            if kind == 'resize' and aspect in ('lost', 'extra'):
                out.add('C01')
            if kind == 'ends':
                out.add('C02')
    elif aspect == 'time':
        out.update(['C14', 'C13'])
        if kind in ('copy', 'move', 'range', 'make'):
            out.update(prim)
    elif aspect == 'clock':
        out.add('C13')
    elif aspect == 'ttl':
        out.update(['C14', 'C13'])
        out.update(prim)
    elif aspect == 'identity':
        out.add('C21')
        if kind == 'move':
            out.add('C11')
    elif aspect in ('exc', 'noexc'):
        out.add('C27')
        out.update(prim)
        if 'expired' in tag or ('fresh' in tag and kind in ('lookup', 'iter', 'valid')):
            out.add('C13')
    elif aspect == 'stats':
        out.add('C17')
        if kind in ('copy', 'move'):
            out.update(prim)
    elif aspect == 'access':
        out.update(['C16', 'C17'] if kind == 'statobj' else ['C16'])
    elif aspect == 'totals':
        out.add('C17')
    elif aspect == 'cbs':
        out.add('C18')
        if kind in ('copy', 'move'):
            out.update(prim)
    elif aspect == 'cb':
        out.add('C18')
    elif aspect == 'walk':
        out.add('C28')
    elif aspect == 'hash':
        out.add('C24')
    else:
        out.update(prim)
    return out


ALLOPS = INSERTS + LOOKUPS + ['erase'] + RESIZE

# property -> list of (world, program, operations besides the core ones)
PLAN = {
    'C01': [('base', 'ct', INSERTS + RESIZE + ['sizes', 'make_default', 'erase']), ('pairs', 'c', COPIES + MOVES), ('ranges', 'c', INRANGE + ASRANGE + MKRANGE)],
    'C02': [('base', 'ct', INSERTS + OWNINS + ENDS), ('ranges', 'c', INRANGE)],
    'C03': [('base', 'ct', INSERTS + OWNINS + LOOKUPS + OWNLOOK + ['erase'] + ['sizes', 'all_expired', 'has_expired'] + ENDS),
            ('iters', 'ct', ACCESS + STEPS + VALID)],
    'C04': [('base', 'ct', INSERTS + LOOKUPS + ['erase', 'clear_expired'] + RESIZE), ('pairs', 'c', COPIES + MOVES), ('ranges', 'c', INRANGE + ASRANGE),
            ('iters', 'ct', ITERASE)],
    'C05': [('base', 'ct', INSERTS + OWNINS + LOOKUPS + OWNLOOK)],
    'C06': [('base', 'ct', ALLOPS + OWNINS + OWNLOOK + ['erase_sk'] + QUERY + ENDS + EXPIRY), ('iters', 'ct', ACCESS + STEPS + ITERASE + CONV),
            ('pairs', 'c', COPIES + MOVES), ('ranges', 'c', INRANGE + ASRANGE)],
    'C07': [('base', 'ct', INSERTS + OWNINS), ('ranges', 'ct', INRANGE)],
    'C08': [('base', 'ct', ['erase', 'erase_sk']), ('iters', 'ct', ITERASE)],
    'C09': [('base', 'ct', RESIZE + ['make_default'])],
    'C10': [('pairs', 'ct', COPIES)],
    'C11': [('pairs', 'ct', MOVES)],
    'C12': [('ranges', 'ct', INRANGE + ASRANGE + MKRANGE)],
    'C13': [('base', 't', INSERTS + LOOKUPS + OWNLOOK + ['has_expired']), ('iters', 't', ACCESS + VALID), ('pairs', 't', COPIES + MOVES)],
    'C14': [('base', 't', INSERTS + OWNINS + LOOKUPS + ['erase'] + RESIZE + EXPIRY), ('ranges', 't', INRANGE + MKRANGE), ('pairs', 't', COPIES + MOVES),
            ('iters', 't', ACCESS + STEPS)],
    'C15': [('base', 't', EXPIRY), ('iters', 't', ITEXP)],
    'C16': [('stats', 'ct', ALLOPS + EXPIRY + OWNLOOK)],
    'C17': [('stats', 'ct', ALLOPS + STATS), ('statobj', 's', SO)],
    'C18': [('cbs', 'ct', LOOKUPS + CBS)],
    'C19': [('iters', 'ct', BEGINS + ACCESS + STEPS + ICOPY + VALID)],
    'C20': [('iters', 'ct', CONV + EQ)],
    'C21': [('base', 'ct', ALLOPS + OWNINS + EXPIRY), ('iters', 'ct', ITERASE), ('pairs', 'c', MOVES)],
    'C23': [('base', 'ct', INSERTS + OWNINS), ('ranges', 'ct', INRANGE + ['assign_lrange', 'assign_rrange', 'make_lrange', 'make_rrange', 'make_rrange_nocap'])],
    'C24': [('base', 'ct', INSERTS + LOOKUPS + ['erase', 'functors']), ('pairs', 'c', COPIES + MOVES), ('ranges', 'c', INRANGE + ASRANGE + MKRANGE)],
    'C25': [('wraps', 'wx', WRAPS)],
    'C26': [('wraps', 'wx', WRAPS)],
    'C27': [('statobj', 's', SO), ('base', 'ct', ALLOPS + ENDS + EXPIRY), ('stats', 'c', STATS), ('iters', 'ct', ACCESS + VALID + ITERASE + CONV)],
    'C28': [('base', 'ct', INSERTS + LOOKUPS + ['erase']), ('iters', 'ct', ITERASE)],
    'C30': [('faults', 'ct', INSERTS)],
}
