"""P01: lexing."""
import itertools
from common import call, codes
from hg import *


def record(text, mode='all', ascii_only=True):
    lx = Lexer(text)
    ev = []
    if not ascii_only:
        k, v = call(lx.tokenize)
        e = {'op': 'total', 'got': 'ok' if k == 'ok' else 'err' if isinstance(v, LexerError) else 'other', 'pos': -1}
        if e['got'] == 'err':
            e['pos'] = v.pos if isinstance(v.pos, int) else -5
        elif e['got'] == 'other':
            e['exc'] = k if v is None else type(v).__name__
        return {'text': codes(text), 'ev': [e]}

    def outcome(e, k, v):
        if k == 'exc' and isinstance(v, LexerError):
            e['got'], e['pos'] = 'err', v.pos if isinstance(v.pos, int) else -5
            return True
        if k != 'ok':
            e['got'], e['exc'] = 'other', type(v).__name__
            return True
        return False

    failed = False
    if mode == 'all':
        e = {'op': 'all', 'pos': -1, 'got': 'ok'}
        failed = outcome(e, *call(lx.tokenize))
        ev.append(e)
    else:
        for i in range(len(text) + 4):
            e = {'op': 'next', 'pos': -1, 'tok': tok(None)}
            k, v = call(lx.next)
            failed = outcome(e, k, v)
            if not failed:
                if v is None:
                    e['got'] = 'none'
                else:
                    e['got'], e['tok'] = 'tok', tok(v)
            ev.append(e)
            if failed or v is None:
                break
            if mode == 'cur':
                ev.append({'op': 'cur', 'tok': tok(lx.current())})
            if mode == 'mix' and i == 2:
                e = {'op': 'all', 'pos': -1, 'got': 'ok'}
                failed = outcome(e, *call(lx.tokenize))
                ev.append(e)
                if failed:
                    break
    tl = lx.toke_list()
    tl2 = toks(tl)
    tl.append(None)                       # the caller's copy is the caller's
    ev.append({'op': 'toks', 'toks': tl2})
    ev.append({'op': 'toks', 'toks': toks(lx.toke_list())})
    ev.append({'op': 'atts', 'toks': toks(lx.att_list())})
    k, v = call(lx.token_string)
    ev.append({'op': 'kinds', 'kinds': v.split(' ') if k == 'ok' and isinstance(v, str) else ['?']})
    if not failed:
        k, v = call(lx.tokenize)          # nothing more comes
        ev.append({'op': 'toks', 'toks': toks(lx.toke_list())})
        e = {'op': 'next', 'pos': -1, 'tok': tok(None)}
        k, v = call(lx.next)
        if not outcome(e, k, v):
            e['got'] = 'none' if v is None else 'tok'
        ev.append(e)
    return {'text': codes(text), 'ev': ev}


def texts(ck):
    r = ck.rng
    seen = []
    # every text of up to 2 characters, and of 3 over the characters that start or join lexemes
    full = [chr(i) for i in list(range(9, 14)) + list(range(32, 127))]
    seen.append('')
    seen += full
    two = [a + b for a in full for b in full]
    few = '.1-"=<!a u{_'
    three = [''.join(t) for t in itertools.product(few, repeat=3)]
    if ck.quick:
        two = [t for i, t in enumerate(two) if i % 6 == ck.seed % 6]
        three = [t for i, t in enumerate(three) if i % 2 == ck.seed % 2]
    else:
        three += [''.join(t) for t in itertools.product('.1-"=<a u', repeat=4)]
        three += [''.join(t) for t in itertools.product('.10-', repeat=6)]
        ck.exhaustive_parts.append('all texts of at most 2 characters (tab..CR, space..~)')
    seen += two + three
    # every keyword and category in every letter case
    for w in ['in', 'subset', 'and', 'or', 'true', 'false', 'undef', 'not', 'null']:
        for bits in range(2 ** len(w)):
            if ck.quick and len(w) > 4 and bits % 5:
                continue
            seen.append(''.join(ch.upper() if bits >> i & 1 else ch for i, ch in enumerate(w)))
        seen += [w + s for s in ('x', '1', '_', '.', '.a', '(', '"', '=')] + [w[:-1], ' ' + w + ' ', w + w]
    for w in CATS:
        for bits in range(2 ** len(w)):
            if ck.quick and bits % 3:
                continue
            seen.append(''.join(ch.upper() if bits >> i & 1 else ch for i, ch in enumerate(w)) + '.A1_b')
        seen += [w, w + '.', w + '. a', w + ' .a', w + '.-', w + '.a.b', w + 's.a', w + '.1', w + '._']
    # sequences of lexemes, well spaced, tight, and with one character disturbed
    for i in range(ck.pick(500, 12000)):
        lx = [rlexeme(r) for _ in range(r.choice([1, 2, 3, 4, 6, 9, 14, 25]))]
        t = join(r, lx, r.choice([0, .5, .9, 1]))
        seen.append(t)
        if t:
            k = r.randrange(len(t))
            m = r.randrange(4)
            bad = r.choice('@#$%&*+/:;?[]^`|~\\\'"!.-_0a \t=<{(\x00\x01\x7f')
            seen.append(t[:k] + bad + t[k:] if m == 0 else t[:k] + t[k + 1:] if m == 1 else t[:k] + bad + t[k + 1:] if m == 2 else t[:k])
    for i in range(ck.pick(100, 2000)):
        seen.append(join(r, rpolicy(r, 3), r.choice([0, .5, 1])))
    # long ones: positions beyond 255, long numbers, strings, names and runs of space
    for n in ck.pick((260, 700), (256, 257, 1000, 3000)):
        seen.append(' ' * n + 'user.a')
        seen.append('(' * n + 'TRUE')
        seen.append('user.' + 'a' * n + ' = 1')
        seen.append('"' + 'x' * n + '" = user.a')
        seen.append('"' + 'x' * n)
        seen.append('1' * n + ' > 2')
        seen.append('1' * n + '.')
        seen.append('TRUE' + '\n' * n + '@')
        seen.append('TRUE OR ' * (n // 8) + 'user.z')
    return seen


UNI = ['\u00e9', '\u00b2', '\u0663', '\u2167', '\u00a0', '\u3000', '\u0130', '\u212a', '\u017f', '\u2028', '\U0001d7d8', '\u01c5', '\u0345',
       '\u4e00', '\ufeff', '\u200b', '\u00df', '\ud800', '\u0660', '\u2460', '\x85', '\x1c', '\x1f']


def run(ck):
    cases = []
    ck.design('MCLexer', ck.pick('MCLexer.cfg', 'MCLexerDeep.cfg'), min_states=1000)
    modes = ['all', 'step', 'cur', 'mix']
    ts = texts(ck)
    for i, t in enumerate(ts):
        cases.append(record(t, modes[i % 4] if len(t) < 200 else modes[i % 2]))
    ck.validate('TraceLexer', cases, lambda cs: ''.join(map(chr, cs['text'])), what='ASCII texts, exact tokens')
    r = ck.rng
    uni = []
    for u in UNI:
        for t in (u, 'user.' + u, u + '.a', '"%s"' % u, '1' + u, '-' + u, 'us%ser.a' % u, 'user.a%s = 1' % u, '1.%s' % u, 'TRUE%sAND' % u,
                  'in' + u, '1.5' + u, u * 3, 'user' + u):
            uni.append(t)
    for i in range(ck.pick(100, 3000)):
        t = list(join(r, [rlexeme(r) for _ in range(r.randrange(1, 8))]))
        for _ in range(r.randrange(1, 3)):
            t.insert(r.randrange(len(t) + 1), r.choice(UNI))
        uni.append(''.join(t))
    uni += ['1' * 5000, '-' + '9' * 4301 + ' = user.a']
    ck.validate('TraceLexer', [record(t, ascii_only=False) for t in uni], lambda cs: repr(''.join(map(chr, cs['text'])))[:200],
                what='texts outside ASCII, tokens or a lexical error')
    ck.notes.append('float literals of more than 15 significant digits are compared by kind and position only; '
                    'outside ASCII only the kind of outcome is judged')
