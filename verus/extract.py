#!/usr/bin/env python3
"""Mechanical extraction of /repo functions into Verus units.

A unit is a template (units/*.vrs): Verus text in which `//@ extract ... //@ end` blocks are replaced by the text of
a function taken from /repo's current source. A block may only
  * insert ghost text (spec header, invariants, proof blocks) at structural anchors, and
  * apply the rewrites it lists (each one is recorded in the report).
Everything else of the function text is copied token for token (comments and attributes are dropped).
"""
import re, sys, os, json, hashlib

class LostAnchor(Exception):
    pass

def blank(src):
    """Source of the same length in which comments are blanked and string/char contents are neutralised (for searching)."""
    out = list(src); i = 0; n = len(src)
    def bl(a, b, keep=''):
        for k in range(a, b):
            if out[k] != '\n': out[k] = ' '
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i); j = n if j < 0 else j
            bl(i, j); i = j
        elif src.startswith('/*', i):
            d = 1; j = i + 2
            while j < n and d:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            bl(i, j); i = j
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            for k in range(i + 1, min(j, n)): out[k] = '_'
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", src[i:])
            if m:
                for k in range(i + 1, i + m.end() - 1): out[k] = '_'
                i += m.end()
            else: i += 1
        else: i += 1
    return ''.join(out)

def match_close(s, i):
    """index of the bracket closing the one at i (s is blanked)."""
    pairs = {'(': ')', '[': ']', '{': '}'}
    st = []
    for j in range(i, len(s)):
        c = s[j]
        if c in pairs: st.append(pairs[c])
        elif c in ')]}':
            if not st or st.pop() != c: raise LostAnchor('unbalanced')
            if not st: return j
    raise LostAnchor('unbalanced')

_cache = {}
def load(path):
    if path not in _cache:
        try: raw = open(path).read()
        except OSError: raise LostAnchor('file %s missing' % path)
        b = blank(raw)
        # text without comments, same length
        t = ''.join(r if (k == r or k == '_') or r == '\n' else k for r, k in zip(raw, b))
        _cache[path] = (t, b)
    return _cache[path]

def cut_tests(b):
    m = re.search(r'#\[cfg\(test\)\]\s*mod\s+\w+\s*\{', b)
    return b[:m.start()] if m else b

def body_of_item(b, start):
    """first '{' at bracket depth 0 from start; returns (open, close)."""
    i = start; 
    while i < len(b):
        c = b[i]
        if c in '([': i = match_close(b, i)
        elif c == '{': return i, match_close(b, i)
        elif c == ';': raise LostAnchor('item without body')
        i += 1
    raise LostAnchor('no body')

def find_fn(path, name, impl=None, nth=1):
    """(signature, body-with-braces) of fn `name` in file; `impl` is a regex for the enclosing impl/trait header."""
    t, b = load(path)
    b2 = cut_tests(b)
    lo, hi = 0, len(b2)
    regions = []
    if impl:
        for m in re.finditer(r'\b(impl|trait)\b', b2):
            # header up to '{'
            try: o, c = body_of_item(b2, m.start())
            except LostAnchor: continue
            head = re.sub(r'\s+', ' ', b2[m.start():o])
            if re.search(impl, head): regions.append((o, c))
        if not regions: raise LostAnchor('impl %s not found in %s' % (impl, path))
    else: regions = [(lo, hi)]
    hits = []
    for (lo, hi) in regions:
        for m in re.finditer(r'\bfn\s+%s\b' % re.escape(name), b2[lo:hi]):
            s = lo + m.start()
            try: o, c = body_of_item(b2, s)
            except LostAnchor: continue
            # include pub / unsafe / const qualifiers
            hits.append((s, o, c))
    if not hits: raise LostAnchor('fn %s not found in %s' % (name, path))
    if len(hits) < nth: raise LostAnchor('fn %s: only %d matches' % (name, len(hits)))
    if nth == 1 and len(hits) > 1 and not impl: pass
    s, o, c = hits[nth - 1]
    return t[s:o].strip(), t[o:c + 1], t.count('\n', 0, s) + 1

def find_macro(path, name):
    t, b = load(path)
    m = re.search(r'macro_rules!\s*%s\s*\{' % re.escape(name), b)
    if not m: raise LostAnchor('macro %s not found in %s' % (name, path))
    o = m.end() - 1; c = match_close(b, o)
    inner, ib = t[o + 1:c], b[o + 1:c]
    m2 = re.search(r'=>\s*\{', ib)
    if not m2: raise LostAnchor('macro arm')
    o2 = m2.end() - 1; c2 = match_close(ib, o2)
    body = inner[o2:c2 + 1]; bb = ib[o2:c2 + 1]
    # {{ ... }} -> { ... }
    k = re.match(r'\{\s*\{', bb)
    if k and match_close(bb, k.end() - 1) == bb.rstrip()[:-1].rstrip().__len__() - 1:
        body = body[k.end() - 1: match_close(bb, k.end() - 1) + 1]
    return body, t.count('\n', 0, m.start()) + 1

def split_top(s, sep=','):
    """pieces of s between separators at bracket depth 0"""
    b = blank(s); r = []; a = 0; i = 0
    while i < len(b):
        if b[i] in '([{': i = match_close(b, i)
        elif b[i] == sep: r.append(s[a:i]); a = i + 1
        i += 1
    r.append(s[a:])
    if r and not r[-1].strip(): r.pop()
    return [x.strip() for x in r]

def macro_arms(path, name):
    """[(pattern, body without its braces, line)] of macro_rules! name"""
    t, b = load(path)
    m = re.search(r'macro_rules!\s*%s\s*[\{\(]' % re.escape(name), b)
    if not m: raise LostAnchor('macro %s not found in %s' % (name, path))
    o = m.end() - 1; c = match_close(b, o)
    arms = []; i = o + 1
    while True:
        while i < c and (b[i].isspace() or b[i] == ';'): i += 1
        if i >= c: break
        if b[i] not in '([{': raise LostAnchor('macro %s' % name)
        e = match_close(b, i)
        k = re.match(r'\s*=>\s*', b[e + 1:])
        if not k: raise LostAnchor('macro %s' % name)
        o2 = e + 1 + k.end(); c2 = match_close(b, o2)
        arms.append((t[i + 1:e], t[o2 + 1:c2], t.count('\n', 0, i) + 1)); i = c2 + 1
    return arms

def expand_macro(arms, args):
    """(text, line) of the first arm whose pattern fits; patterns are comma separated pieces `tokens $name: kind`"""
    av = split_top(args)
    for pat, body, line in arms:
        pv = split_top(pat)
        if len(pv) != len(av): continue
        sub = {}; ok = True
        for p, a in zip(pv, av):
            m = re.match(r'^(.*?)\$(\w+)\s*:\s*\w+$', p, re.S)
            if p.count('$') > 1:
                rx = ''.join('(?P<%s>\\w+)' % q.group(1) if q.group(1) else re.escape(re.sub(r'\s+', '', q.group(0)))
                             for q in re.finditer(r'\$(\w+)\s*:\s*ident|[^$]+', p))
                mm = re.match('^' + rx + '$', re.sub(r'\s+', '', a))
                ok = bool(mm)
                if mm: sub.update(mm.groupdict())
            elif not m: ok = re.sub(r'\s+', '', p) == re.sub(r'\s+', '', a); 
            else:
                lit = m.group(1).split()
                toks = a.split(None, len(lit)) if lit else [a]
                if toks[:len(lit)] != lit: ok = False
                else: sub[m.group(2)] = toks[len(lit)] if lit else a
            if not ok: break
        if ok: return re.sub(r'\$(\w+)', lambda m: sub.get(m.group(1), m.group(0)), body), line
    return None, 0

def find_fn_via(path, macro, name, nth=1):
    """fn `name` in the expansion of one of the invocations of `macro` in the file"""
    t, b = load(path); b2 = cut_tests(b)
    arms = macro_arms(path, macro); hits = []
    for m in re.finditer(r'\b%s!\s*[\(\{]' % re.escape(macro), b2):
        o = m.end() - 1; c = match_close(b2, o)
        txt, line = expand_macro(arms, t[o + 1:c])
        if txt is None: continue
        eb = blank(txt)
        for h in re.finditer(r'\bfn\s+%s\b' % re.escape(name), eb):
            o2, c2 = body_of_item(eb, h.start())
            hits.append((txt[h.start():o2].strip(), txt[o2:c2 + 1], line))
    if len(hits) < nth: raise LostAnchor('fn %s not found in invocations of %s!' % (name, macro))
    return hits[nth - 1]

def expand_calls(path, macro, body):
    """all invocations of a macro in a function body are expanded"""
    arms = macro_arms(path, macro); n = 0
    while True:
        b = blank(body)
        m = re.search(r'\b%s!\s*[\(\{]' % re.escape(macro), b)
        if not m: return body, n
        o = m.end() - 1; c = match_close(b, o)
        txt, _ = expand_macro(arms, body[o + 1:c])
        if txt is None: raise LostAnchor('invocation of %s! fits no arm' % macro)
        body = body[:m.start()] + '{' + txt + '}' + body[c + 1:]; n += 1

def find_item(path, kind, name):
    t, b = load(path)
    m = re.search(r'\b%s\s+%s\b' % (kind, re.escape(name)), cut_tests(b))
    if not m: raise LostAnchor('%s %s not found in %s' % (kind, name, path))
    mt = re.match(r'\s*\(', b[m.end():])
    if kind == 'struct' and mt:      # tuple struct
        c = b.index(';', match_close(b, m.end() + mt.end() - 1))
    else: o, c = body_of_item(b, m.start())
    return t[m.start():c + 1], t.count('\n', 0, m.start()) + 1

LOOP = re.compile(r'\b(for|while|loop)\b')
def loops(b):
    """[(keyword_pos, body_open, body_close)] in textual order (b blanked). Skips `for<'a>` and `impl X for Y`."""
    r = []
    for m in LOOP.finditer(b):
        rest = b[m.end():].lstrip()
        if m.group(1) == 'for' and rest.startswith('<'): continue
        if m.group(1) == 'for' and not re.match(r"[^{;]*?\bin\b", b[m.end():]): continue
        i = m.end(); ok = False
        while i < len(b):
            c = b[i]
            if c in '([': i = match_close(b, i)
            elif c == '{': ok = True; break
            elif c == ';': break
            i += 1
        if ok: r.append((m.start(), i, match_close(b, i)))
    return r

def stmt_end(b, i):
    """position just behind the statement starting around i: next ';' at depth 0."""
    while i < len(b):
        c = b[i]
        if c in '([{': i = match_close(b, i)
        elif c == ';': return i + 1
        elif c in ')]}': raise LostAnchor('statement end')
        i += 1
    raise LostAnchor('statement end')

def stmt_start(b, i):
    """start of the statement containing position i (after previous ';', '{' or '}' at the same depth)."""
    depth = 0; j = i - 1
    while j >= 0:
        c = b[j]
        if c in ')]': depth += 1
        elif c in '([': 
            depth -= 1
            if depth < 0: depth = 0
        elif c == '}' and depth == 0: return j + 1
        elif c in ';{' and depth == 0: return j + 1
        j -= 1
    return 0

def closure_arg(body, call, nth=1):
    """(params, closure body) of the last closure argument of the nth call matching regex `call`."""
    b = blank(body)
    ms = list(re.finditer(call + r'\s*\(', b))
    if len(ms) < nth: raise LostAnchor('call %s not found' % call)
    o = ms[nth - 1].end() - 1; c = match_close(b, o)
    m = re.search(r'(?:move\s*)?\|([^|]*)\|\s*', b[o:c])
    if not m: raise LostAnchor('closure of %s not found' % call)
    st = o + m.end()
    params = body[o + m.start(1):o + m.end(1)]
    if b[st] == '{':
        return params, body[st:match_close(b, st) + 1]
    e = c
    txt = body[st:e].rstrip()
    if txt.endswith(','): txt = txt[:-1]
    return params, '{ ' + txt + ' }'

def insert_all(text, ins):
    for pos, s in sorted(ins, key=lambda x: -x[0]):
        text = text[:pos] + s + text[pos:]
    return text

def get_fn(path, kv):
    if 'via' in kv: return find_fn_via(path, kv['via'], kv['fn'], int(kv.get('nth', 1)))
    return find_fn(path, kv['fn'], kv.get('impl'), int(kv.get('nth', 1)))

def render_block(block, repo, dropped=False, probe=False):
    """block: list of lines between `//@ extract` and `//@ end`. Returns (text, info)."""
    head = block[0]
    kv = block_kv(head)
    # sections
    secs = []; cur = None
    for l in block[1:]:
        s = l.strip()
        if s.startswith('//@'):
            d = s[3:].strip()
            k, _, rest = d.partition(' ')
            if k in ('rewrite?', 'rewrite_sig?'): k, rest = k[:-1], '?' + rest
            cur = [k, rest.strip(), []]; secs.append(cur)
        elif cur is not None: cur[2].append(l)
        elif s: raise ValueError('stray line in block: ' + l)
    path = os.path.join(repo, kv['file'])
    info = {'file': kv['file'], 'fn': kv.get('fn') or kv.get('macro') or kv.get('item'), 'impl': kv.get('impl'), 'rewrites': [], 'as': kv.get('as')}
    info['name'] = kv.get('as') or kv.get('fn') or kv.get('macro') or kv.get('item')
    for k in ('props', 'noprobe'):
        if k in kv: info[k] = kv[k]
    sig = None
    if dropped: return dropped_block(secs, kv, path, info), info
    if 'fn' in kv:
        sig, body, line = get_fn(path, kv)
        if 'via' in kv: info['rewrites'].append('invocation of the macro %s! expanded' % kv['via'])
    elif 'macro' in kv:
        body, line = find_macro(path, kv['macro'])
    elif 'item' in kv:
        kind, name = kv['item'].split(':')
        txt, line = find_item(path, kind, name)
        info['line'] = line; info['item_only'] = True
        txt = re.sub(r'#\[[^\]]*\]\s*', '', txt)
        for k, arg, ls in secs:
            if k == 'rewrite': txt = do_rewrite(txt, arg, ls, info)
            elif k == 'prefix': txt = '\n'.join(ls) + '\n' + txt
        return txt, info
    info['line'] = line
    info['sha'] = hashlib.sha256(re.sub(r'\s+', ' ', (sig or '') + body).encode()).hexdigest()[:16]
    for k, arg, ls in secs:
        if k == 'lift':      # closure of a call becomes a function
            m = re.match(r'(.*?)(?:\s+nth=(\d+))?$', arg)
            params, body = closure_arg(body, m.group(1), int(m.group(2) or 1))
            info['lifted_closure'] = params.strip()
            info['rewrites'].append('closure argument of %s lifted to a function; its parameters and captured variables became parameters' % m.group(1))
        elif k == 'sig':     # explicit signature (for macros and lifted closures)
            if sig is not None and not info.get('lifted_closure') and 'macro' not in kv:
                info['rewrites'].append('signature replaced: ' + ' '.join(' '.join(ls).split()))
            sig = '\n'.join(ls)
    if sig is None: raise ValueError('no signature for ' + head)
    body = re.sub(r'#\[[^\]]*\]\s*', '', body)
    for k, arg, ls in secs:
        if k == 'expand':
            for mac in arg.split():
                body, n = expand_calls(path, mac, body)
                info['rewrites'].append('invocations of the macro %s! expanded (%dx)' % (mac, n))
    for k, arg, ls in secs:
        if k == 'rewrite': body = do_rewrite(body, arg, ls, info)
        elif k == 'rewrite_sig': sig = do_rewrite(sig, arg, ls, info)
    if kv.get('as'): sig = re.sub(r'\bfn\s+\w+', 'fn ' + kv['as'], sig, count=1)
    ret = None; spec = ''
    for k, arg, ls in secs:
        if k == 'ret': ret = arg
        elif k == 'spec': spec += '\n' + '\n'.join(ls)
    if ret:
        m = re.search(r'->\s*([^{]*?)\s*(where\b.*)?$', sig, re.S)
        if not m: raise LostAnchor('return type of %s' % head)
        sig = sig[:m.start()] + '-> (%s: %s)' % (ret, m.group(1).strip()) + (' ' + m.group(2) if m.group(2) else '')
    b = blank(body)
    lp = loops(b)
    ins = []
    def loop(n):
        if n > len(lp): raise LostAnchor('loop %d not found (%d loops)' % (n, len(lp)))
        return lp[n - 1]
    nl = [int(a.split()[0]) for k, a, _ in secs if k in ('loop',)]
    if 'loops' in kv and len(lp) != int(kv['loops']): raise LostAnchor('%d loops instead of %s' % (len(lp), kv['loops']))
    for k, arg, ls in secs:
        txt = '\n' + '\n'.join(ls) + '\n'
        if k == 'loop':
            p = arg.split(); kp, o, c = loop(int(p[0]))
            ins.append((o, txt))
            if len(p) > 2 and p[1] == 'iter':
                m = re.match(r'for\s+(.*?)\s+in\s+', body[kp:o], re.S)
                if not m: raise LostAnchor('for loop %s' % p[0])
                ins.append((kp + m.end(), p[2] + ': '))
        elif k == 'loop_start': ins.append((loop(int(arg))[1] + 1, txt))
        elif k == 'loop_end': ins.append((loop(int(arg))[2], txt))
        elif k == 'before_loop': ins.append((loop(int(arg))[0], txt))
        elif k == 'after_loop': ins.append((loop(int(arg))[2] + 1, txt))
        elif k == 'body_start': ins.append((1, txt))
        elif k == 'body_end': ins.append((len(body.rstrip()) - 1, txt))
        elif k in ('before', 'after'):
            m = re.match(r'/(.*)/\s*(\d+)?$', arg)
            hits = list(re.finditer(m.group(1), body))
            n = int(m.group(2) or 1)
            if len(hits) < n: raise LostAnchor('%s /%s/ not found' % (k, m.group(1)))
            h = hits[n - 1]
            ins.append((stmt_start(b, h.start()) if k == 'before' else stmt_end(b, h.start()), txt))
        elif k in ('expand', 'rewrite', 'rewrite_sig', 'ret', 'spec', 'lift', 'sig', 'prefix'): pass
        else: raise ValueError('unknown directive ' + k)
    info['body__'] = body
    body = insert_all(body, ins)
    if probe and not kv.get('noprobe'):
        heads = ' '.join(re.findall(r'\bhide\(\w+\);', body))
        body = re.sub(r'\bhide\(\w+\);', '', body)
        body = '{ %s let probe__ = %s; assert(false); probe__ }' % (heads, body) if ret or '->' in sig else '{ %s %s; assert(false); }' % (heads, body)
    pre = ''.join('\n'.join(ls) + '\n' for k, a, ls in secs if k == 'prefix') + ('pub ' if kv.get('pub') else '')
    return pre + sig.rstrip().rstrip(',') + spec + '\n' + body, info

def dropped_block(secs, kv, path, info):
    """contract of a function whose text could not be used on this run; its body is not verified"""
    info['line'] = 0
    sig = None
    try:
        if 'fn' in kv: sig, _, info['line'] = get_fn(path, kv)
    except LostAnchor: pass
    for k, arg, ls in secs:
        if k == 'sig': sig = '\n'.join(ls)
        elif k == 'rewrite_sig' and sig is not None:
            try: sig = do_rewrite(sig, arg, ls, info)
            except LostAnchor: pass
    if sig is None: raise LostAnchor('no signature left for %s' % info['name'])
    if kv.get('as'): sig = re.sub(r'\bfn\s+\w+', 'fn ' + kv['as'], sig, count=1)
    spec = ''.join('\n' + '\n'.join(ls) for k, a, ls in secs if k == 'spec')
    ret = next((a for k, a, ls in secs if k == 'ret'), None)
    if ret:
        m = re.search(r'->\s*([^{]*?)\s*(where\b.*)?$', sig, re.S)
        if not m: raise LostAnchor('return type')
        sig = sig[:m.start()] + '-> (%s: %s)' % (ret, m.group(1).strip()) + (' ' + m.group(2) if m.group(2) else '')
    return '#[verifier::external_body]\n' + ('pub ' if kv.get('pub') else '') + sig.rstrip().rstrip(',') + spec + '\n{ unimplemented!() }'

def do_rewrite(txt, arg, ls, info):
    """`//@ rewrite[?] /regex/` followed by one line (or more) of replacement text."""
    m = re.match(r'(\?)?\s*/(.*)/\s*$', arg, re.S)
    if not m: raise ValueError('bad rewrite ' + arg)
    rep = '\n'.join(ls)
    new, n = re.subn(m.group(2), rep, txt, flags=re.S)
    if n == 0 and not m.group(1): raise LostAnchor('rewrite /%s/ has no match' % m.group(2))
    if n: info['rewrites'].append('%s -> %s (%dx)' % (m.group(2), ' '.join(rep.split()), n))
    return new

def unroll(lines):
    """`//@ for a b = x1:y1 x2:y2` ... `//@ endfor`: the lines between once per tuple, with @a@, @b@ replaced; may be nested"""
    out = []; i = 0
    while i < len(lines):
        s = lines[i].strip()
        if s.startswith('//@ for '):
            j = i; depth = 0
            while True:
                t = lines[j].strip()
                depth += t.startswith('//@ for '); depth -= t == '//@ endfor'
                if depth == 0: break
                j += 1
            names, _, vals = s[8:].partition(' = ')
            names = names.split(); k = i + 1
            if vals.strip() == '|':       # one tuple per line `//@| x | y`
                tups = []
                while lines[k].strip().startswith('//@|'):
                    tups.append([x.strip() for x in lines[k].strip()[4:].split('|')]); k += 1
            else: tups = [tup.split(':') for tup in vals.split()]
            for v in tups:
                if len(v) != len(names): raise ValueError('bad tuple ' + ':'.join(v))
                body = []
                for l in lines[k:j]:
                    for n, x in zip(names, v): l = l.replace('@%s@' % n, x)
                    body.append(l)
                out += unroll(body)
            i = j + 1
        else: out.append(lines[i]); i += 1
    return out

def render(name, repo, drop=(), probe=False, udir=None):
    """-> (text, infos, header, spans). drop: indices of blocks whose body is replaced (contract kept). spans: (index, first line, last line)."""
    udir = udir or os.path.join(os.path.dirname(os.path.abspath(__file__)), 'units')
    infos = []; hdr = {}; out = []; spans = []
    def proc(lines, contracts=False):
        lines = unroll(lines); i = 0
        while i < len(lines):
            l = lines[i]; s = l.strip()
            if s.startswith('//@ include '):
                w = s.split()   # `//@ include name contracts`: functions of the include are discharged in another unit, only their contracts are used here
                proc(open(os.path.join(udir, w[2] + '.vri')).read().split('\n'), 'contracts' in w[3:]); i += 1
            elif s.startswith('//@ unit-'):
                k, _, v = s[9:].partition(' '); hdr[k] = v.strip(); i += 1
            elif s.startswith('//@ extract '):
                j = i + 1
                while j < len(lines) and lines[j].strip() != '//@ end': j += 1
                if j == len(lines): raise ValueError('no //@ end for ' + s)
                n = len(infos)
                only = contracts and 'item=' not in s
                try: txt, info = render_block(lines[i:j], repo, n in drop or only, probe)
                except LostAnchor as e:
                    kv = block_kv(lines[i])
                    e.block = n if 'item' not in kv else None
                    e.fn = kv.get('as') or kv.get('fn') or kv.get('macro') or kv.get('item')
                    raise
                if only: info['item_only'] = info['contract_only'] = True
                infos.append(info)
                out.append('// ---- %s:%s' % (info['file'], info['line']))
                a = len(out) + 1
                out.extend(txt.split('\n'))
                spans.append((n, a, len(out)))
                i = j + 1
            else: out.append(l); i += 1
    proc(open(os.path.join(udir, name + '.vrs')).read().split('\n'))
    out.extend(constants('\n'.join(out), infos, repo, drop))
    return '\n'.join(out) + '\n', infos, hdr, spans

CONST = r'\bconst\s+%s\s*:\s*([\w:]+)\s*=\s*([\w:.+\-* ]+?)\s*;'
def constants(txt, infos, repo, drop):
    """constants of the source file used by extracted functions, with their values"""
    found = {}
    todo = [(i['file'], i.get('body__', '')) for n, i in enumerate(infos) if n not in drop]
    while todo:
        f, body = todo.pop()
        for c in sorted(set(re.findall(r'(?<![\w:.])[A-Z][A-Z0-9]*_[A-Z0-9_]+\b', body))):
            if c in found or re.search(r'\bconst\s+%s\b' % c, txt): continue
            try: t, b = load(os.path.join(repo, f))
            except LostAnchor: continue
            m = re.search(CONST % c, cut_tests(b))
            if m: found[c] = 'const %s: %s = %s;' % (c, m.group(1), m.group(2)); todo.append((f, m.group(2)))
    for i in infos: i.pop('body__', None)
    return ['verus! {'] + ['// ---- constant\n' + v for v in found.values()] + ['}'] if found else []

def render_unit(name, repo, udir=None):
    t, infos, hdr, _ = render(name, repo, (), False, udir)
    return t, infos, hdr

def block_kv(head):
    kv = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', head))
    return {k: v.strip('"') for k, v in kv.items()}

if __name__ == '__main__':
    t, infos, hdr = render_unit(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '/repo')
    if len(sys.argv) > 3: open(sys.argv[3], 'w').write(t)
    else: print(t)
    for i in infos: print(json.dumps(i), file=sys.stderr)
