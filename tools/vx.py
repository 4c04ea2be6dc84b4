#!/usr/bin/env python3
"""vx: mechanical extraction of Rust functions + contract splicing for Verus.

A template (verus/NAME.vrs) is Verus source in which blocks

    //@fn FILE NAME [ctx=REGEX] [ret=IDENT] [as=NEWNAME] [vis=pub] [nth=K]
    //@ spec            -> text spliced between signature and body
    //@ attrs           -> attribute lines put in front of the function
    //@ loop K KIND     -> invariants spliced into the K-th loop (source order) which must be of KIND
    //@ at WHERE        -> proof text: body.start | body.end | loopK.start | loopK.end | loopK.after
                           | before `tokens` | after `tokens`
    //@ subst `a` => `b`     token-level replacement in the body (must match; `subst?` may match 0 times)
    //@ sigsubst `a` => `b`  same in the signature
    //@end

are replaced by the named function, cut out of the current /repo source.  What extraction drops:
attributes, doc comments, visibility (unless vis= is given); nothing in a function body is dropped or
rewritten except by the listed substitutions.  `$vK` in a payload is the pattern variable of loop K,
`$nK` the name of the K-th parameter (self excluded).

    //@item FILE KIND NAME      copies a const/static/struct/enum/type item verbatim (minus attributes/visibility)
    //@include FILE             includes another template fragment
"""
import re, os, sys

REPO = os.environ.get("VX_REPO", "/repo")

class AnchorLost(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<lc>//[^\n]*)
 | (?P<bc>/\*)
 | (?P<rawstr>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 | (?P<str>[bc]?"(?:\\.|[^"\\])*")
 | (?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])')
 | (?P<life>'[A-Za-z_]\w*)
 | (?P<num>\d[\w]*(?:\.(?!\.)(?![A-Za-z_])\d*[\w]*)?(?:(?<=[eE])[+-]\d+)?)
 | (?P<id>(?:r\#)?[A-Za-z_]\w*)
 | (?P<p>::|->|=>|==>|<==>|\.\.=|\.\.\.|\.\.|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<=|.)
''', re.X | re.S)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        k = m.lastgroup
        if k == 'h': k = 'rawstr'
        if m.group('bc'):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith('/*', j): d += 1; j += 2
                elif s.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        for k in ('ws', 'lc', 'rawstr', 'str', 'chr', 'life', 'num', 'id', 'p'):
            if m.group(k) is not None: break
        if k not in ('ws', 'lc'):
            out.append((k, m.group(0), m.start(), m.end()))
        i = m.end()
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = set(')]}')

def match_close(toks, i):
    d = 0
    for j in range(i, len(toks)):
        t = toks[j][1]
        if toks[j][0] == 'p':
            if t in OPEN: d += 1
            elif t in CLOSE:
                d -= 1
                if d == 0: return j
    raise AnchorLost("unbalanced brackets")

def norm(toks):
    return ' '.join(t[1] for t in toks)

class SrcFile:
    cache = {}
    def __init__(self, rel):
        self.rel = rel
        base, _, mac = rel.partition('#')   # `FILE#MACRO`: what the invocations of a macro of the file expand to
        p = os.path.join(REPO, base)
        if not os.path.exists(p): raise AnchorLost("file %s is gone" % base)
        self.text = open(p, encoding='utf-8').read()
        if mac: self.text = expand_invocations(self.text, mac, rel)
        self.toks = tokenize(self.text)
        self.fns = []     # (name, ctx, idx_fn, idx_body_open, idx_body_close)
        self.items = []   # (kind, name, ctx, i, j)
        self._scan(0, len(self.toks), [])
    @classmethod
    def get(cls, rel):
        if rel not in cls.cache: cls.cache[rel] = SrcFile(rel)
        return cls.cache[rel]
    def _scan(self, i, end, ctx):
        T = self.toks
        while i < end:
            k, t, _, _ = T[i]
            if k == 'id' and t in ('impl', 'trait', 'mod', 'macro_rules'):
                if t == 'macro_rules':
                    j = i
                    while not (T[j][0] == 'p' and T[j][1] in OPEN): j += 1
                    i = match_close(T, j) + 1
                    continue
                j = i
                # `impl Trait` in expression/type position only occurs inside fn, which we skip
                while j < end and not (T[j][0] == 'p' and T[j][1] in '{;'): j += 1
                if j >= end or T[j][1] == ';': i = j + 1; continue
                c = match_close(T, j)
                self._scan(j + 1, c, ctx + [norm(T[i:j])])
                i = c + 1
            elif k == 'id' and t == 'fn' and i + 1 < end and T[i+1][0] == 'id':
                name = T[i+1][1]
                j, d = i, 0
                while j < end:
                    if T[j][0] == 'p':
                        if T[j][1] in '([': d += 1
                        elif T[j][1] in ')]': d -= 1
                        elif T[j][1] == ';' and d == 0: break
                        elif T[j][1] == '{' and d == 0: break
                    j += 1
                if T[j][1] == ';':
                    self.fns.append((name, ' / '.join(ctx), i, None, j)); i = j + 1; continue
                c = match_close(T, j)
                self.fns.append((name, ' / '.join(ctx), i, j, c))
                self._scan_inner(j + 1, c, ctx + ['fn ' + name])
                i = c + 1
            elif k == 'id' and t in ('const', 'static', 'struct', 'enum', 'type', 'union') and i + 1 < end and T[i+1][0] == 'id' and T[i+1][1] not in ('fn', 'unsafe', 'mut'):
                j, d = i, 0
                while j < end:
                    if T[j][0] == 'p':
                        if T[j][1] in OPEN:
                            c = match_close(T, j)
                            if T[j][1] == '{' and t in ('struct', 'enum', 'union'):
                                j = c; break
                            j = c
                        elif T[j][1] == ';': break
                    j += 1
                self.items.append((t, T[i+1][1], ' / '.join(ctx), i, j))
                i = j + 1
            elif k == 'p' and t in OPEN:
                i = match_close(T, i) + 1
            else:
                i += 1
    def _scan_inner(self, i, end, ctx):
        T = self.toks
        while i < end:
            k, t, _, _ = T[i]
            if k == 'id' and t == 'fn' and i + 1 < end and T[i+1][0] == 'id':
                name = T[i+1][1]
                j, d = i, 0
                while j < end:
                    if T[j][0] == 'p':
                        if T[j][1] in '([': d += 1
                        elif T[j][1] in ')]': d -= 1
                        elif T[j][1] in ';{' and d == 0: break
                    j += 1
                if T[j][1] == ';': i = j + 1; continue
                c = match_close(T, j)
                self.fns.append((name, ' / '.join(ctx), i, j, c))
                i = c + 1
            else: i += 1
    def find_fn(self, name, ctx=None, nth=None):
        r = [f for f in self.fns if f[0] == name and f[3] is not None and 'mod tests' not in f[1] and 'mod test' not in f[1]]
        if ctx is not None: r = [f for f in r if re.search(ctx, f[1])]
        if nth is not None and nth < len(r): r = [r[nth]]
        if len(r) != 1:
            raise AnchorLost("%s: %d candidates for fn %s (ctx %s)" % (self.rel, len(r), name, ctx))
        return r[0]
    def find_item(self, kind, name, ctx=None):
        r = [f for f in self.items if f[0] == kind and f[1] == name and 'mod tests' not in f[2]]
        if ctx: r = [f for f in r if re.search(ctx, f[2])]
        if len(r) != 1:
            raise AnchorLost("%s: %d candidates for %s %s" % (self.rel, len(r), kind, name))
        return r[0]

def expand_invocations(text, name, rel):
    """the text that the invocations of macro_rules! NAME in a file expand to (by-example expansion: fragments ident, ty, expr,
    literal, meta, tt and repetitions; the first rule that matches)"""
    T = tokenize(text); rules = []; outs = []
    i = 0
    while i < len(T):
        if T[i][1] == 'macro_rules' and T[i+2][1] == name:
            c = match_close(T, i + 3); j = i + 4
            while j < c:
                a = match_close(T, j); assert T[a+1][1] == '=>'
                b = match_close(T, a + 2)
                rules.append((mac_parse(T[j+1:a], True), mac_parse(T[a+3:b], False))); j = b + 1
                if j < c and T[j][1] == ';': j += 1
            i = c + 1; continue
        if T[i][1] == name and i + 1 < len(T) and T[i+1][1] == '!':
            c = match_close(T, i + 2); arg = T[i+3:c]
            for m, t in rules:
                r = mac_match(m, arg, 0)
                if r and r[1] == len(arg): outs.append(' '.join(mac_emit(t, r[0], []))); break
            else: raise AnchorLost('%s: no rule of %s! matches an invocation' % (rel, name))
            i = c + 1; continue
        i += 1
    if not rules or not outs: raise AnchorLost('%s: macro %s is gone' % (rel, name))
    return '\n'.join(outs)

def expand_uses(text, name, rel):
    """expands the uses of macro_rules! NAME of the file REL in a function body, in place"""
    T = tokenize(SrcFile.get(rel).text); rules = []
    for i in range(len(T) - 3):
        if T[i][1] == 'macro_rules' and T[i+2][1] == name:
            c = match_close(T, i + 3); j = i + 4
            while j < c:
                a = match_close(T, j); b = match_close(T, a + 2)
                rules.append((mac_parse(T[j+1:a], True), mac_parse(T[a+3:b], False))); j = b + 1
                if j < c and T[j][1] == ';': j += 1
            break
    if not rules: raise AnchorLost('%s: macro %s is gone' % (rel, name))
    while True:
        T = tokenize(text)
        h = [i for i in range(len(T) - 2) if T[i][1] == name and T[i+1][1] == '!']
        if not h: return text
        i = h[-1]; c = match_close(T, i + 2); arg = T[i+3:c]
        for m, t in rules:
            r = mac_match(m, arg, 0)
            if r and r[1] == len(arg): break
        else: raise AnchorLost('%s: no rule of %s! matches a use' % (rel, name))
        text = text[:T[i][2]] + '{ ' + ' '.join(mac_emit(t, r[0], [])) + ' }' + text[T[c][3]:]

def mac_parse(T, matcher):
    out = []; i = 0
    while i < len(T):
        t = T[i][1]
        if t == '$' and i + 1 < len(T):
            n = T[i+1]
            if n[1] == '(':
                c = match_close(T, i + 1); sub = mac_parse(T[i+2:c], matcher); c += 1; sep = None
                if T[c][1] not in '*+?': sep = T[c][1]; c += 1
                out.append(('rep', sub, sep, T[c][1])); i = c + 1; continue
            if n[0] == 'id':
                if matcher: out.append(('frag', n[1], T[i+3][1])); i += 4
                else: out.append(('frag', n[1], None)); i += 2
                continue
        if T[i][0] == 'p' and t in OPEN:
            c = match_close(T, i); out.append(('group', t, mac_parse(T[i+1:c], matcher))); i = c + 1; continue
        out.append(('tok', t)); i += 1
    return out

def mac_match(m, T, i):
    b = {}
    for k, e in enumerate(m):
        if e[0] == 'tok':
            if i >= len(T) or T[i][1] != e[1]: return None
            i += 1
        elif e[0] == 'group':
            if i >= len(T) or T[i][1] != e[1]: return None
            c = match_close(T, i); r = mac_match(e[2], T[i+1:c], 0)
            if r is None or r[1] != c - i - 1: return None
            b.update(r[0]); i = c + 1
        elif e[0] == 'frag':
            if i >= len(T): return None
            if e[2] == 'ident':
                if T[i][0] != 'id': return None
                j = i + 1
            elif e[2] in ('literal', 'lifetime'): j = i + (2 if T[i][1] == '-' else 1)
            elif e[2] == 'tt' or e[2] == 'block': j = match_close(T, i) + 1 if T[i][0] == 'p' and T[i][1] in OPEN else i + 1
            else:
                stop = m[k+1][1] if k + 1 < len(m) and m[k+1][0] in ('tok', 'group') else None
                j = i
                while j < len(T) and not (j > i and T[j][1] == stop) and not (stop is None and T[j][1] in (',', ';')):
                    j = match_close(T, j) + 1 if T[j][0] == 'p' and T[j][1] in OPEN else j + 1
            b[e[1]] = [t[1] for t in T[i:j]]; i = j
        else:
            its = []
            while True:
                j = i
                if its and e[2]:
                    if j >= len(T) or T[j][1] != e[2]: break
                    j += 1
                r = mac_match(e[1], T, j)
                if r is None or r[1] == j: break
                its.append(r[0]); i = r[1]
                if e[3] == '?': break
            for n in mac_names(e[1]): b[n] = ('rep', [x[n] for x in its])
    return b, i

def mac_names(m):
    return [n for e in m for n in ([e[1]] if e[0] == 'frag' else mac_names(e[1]) if e[0] == 'rep' else mac_names(e[2]) if e[0] == 'group' else [])]

def mac_emit(t, b, out):
    for e in t:
        if e[0] == 'tok': out.append(e[1])
        elif e[0] == 'group':
            out.append(e[1]); mac_emit(e[2], b, out); out.append(OPEN[e[1]])
        elif e[0] == 'frag':
            if e[1] in b and isinstance(b[e[1]], list): out.extend(b[e[1]])
            else: out.extend(['$', e[1]] if e[1] not in b else [])
        else:
            ns = [n for n in mac_names(e[1]) if n in b and isinstance(b[n], tuple)]
            n = max([len(b[x][1]) for x in ns] or [0])
            for k in range(n):
                if k and e[2]: out.append(e[2])
                bb = dict(b)
                for x in ns:
                    if k < len(b[x][1]): bb[x] = b[x][1][k]
                mac_emit(e[1], bb, out)
    return out

def strip_attrs(text):
    """remove #[..] attributes, comments kept out; operates on text"""
    T = tokenize(text); cut = []
    i = 0
    while i < len(T):
        if T[i][1] == '#' and i + 1 < len(T) and (T[i+1][1] == '[' or (T[i+1][1] == '!' and T[i+2][1] == '[')):
            j = i + 1 if T[i+1][1] == '[' else i + 2
            c = match_close(T, j)
            cut.append((T[i][2], T[c][3])); i = c + 1
        else: i += 1
    for a, b in reversed(cut): text = text[:a] + text[b:]
    return text

def strip_comments(text):
    T = tokenize(text); out = []; last = 0
    # keep original whitespace, drop comments between tokens
    for k, t, a, b in T:
        gap = text[last:a]
        gap = re.sub(r'//[^\n]*', '', gap)
        gap = re.sub(r'/\*.*?\*/', '', gap, flags=re.S)
        out.append(gap); out.append(t); last = b
    return ''.join(out)

def tok_match(T, i, Pt):
    """match pattern tokens Pt at T[i]; `$A` captures a minimal balanced token run (at least one token).
    returns (end index, captures) or None"""
    caps = {}
    def rec(i, k):
        while k < len(Pt):
            if Pt[k].startswith('$'):
                j = i; block = k > 0 and Pt[k-1] == '{' and k + 1 < len(Pt) and Pt[k+1] == '}'   # a whole block body
                while j < len(T):
                    if T[j][0] == 'p' and (T[j][1] in CLOSE or T[j][1] == '{' and Pt[k-1] == 'for'): return None
                    j = match_close(T, j) + 1 if (T[j][0] == 'p' and T[j][1] in OPEN) else j + 1
                    caps[Pt[k]] = (i, j)
                    r = rec(j, k + 1)
                    if r is not None: return r
                    if j < len(T) and T[j][1] == ';' and not block: return None
                return None
            if i >= len(T) or T[i][1] != Pt[k]: return None
            i += 1; k += 1
        return i
    e = rec(i, 0)
    return None if e is None else (e, caps)

def pat_tokens(pat):
    out = []; T = tokenize(pat); i = 0
    while i < len(T):
        if T[i][1] == '$' and i + 1 < len(T) and T[i+1][0] == 'id': out.append('$' + T[i+1][1]); i += 2
        else: out.append(T[i][1]); i += 1
    return out

def tok_sub(text, pat, rep, optional=False, what='subst'):
    Pt = pat_tokens(pat); n = 0; pos = 0
    while True:
        T = [t for t in tokenize(text)]
        i = 0; hit = None
        while i < len(T):
            if T[i][2] >= pos and (Pt[0].startswith('$') or T[i][1] == Pt[0]):
                m = tok_match(T, i, Pt)
                if m: hit = (i, m); break
            i += 1
        if not hit: break
        i, (e, caps) = hit
        r = rep
        for k, (a, b) in sorted(caps.items(), key=lambda x: -len(x[0])): r = r.replace(k, text[T[a][2]:T[b-1][3]])
        a, b = T[i][2], T[e-1][3]
        text = text[:a] + r + text[b:]; pos = a + len(r); n += 1
    if not n and not optional: raise AnchorLost("%s pattern `%s` not found" % (what, pat))
    return text, n

def sub_panics(text, mode):
    """panicking macros: `allow` -> a diverging call (contracts speak about returns), `forbid` -> unreachable"""
    f = 'vx_panic()' if mode == 'allow' else 'vx_unreachable()'
    for _ in range(200):
        T = tokenize(text); done = True
        for i in range(len(T) - 2):
            if T[i][0] == 'id' and T[i+1][1] == '!' and T[i+2][1] in OPEN and T[i][1] in ('panic', 'unreachable', 'todo', 'unimplemented', 'assert', 'debug_assert', 'assert_eq', 'assert_ne', 'debug_assert_eq', 'debug_assert_ne'):
                c = match_close(T, i + 2); nm = T[i][1]
                args = []; d = 0; st = i + 3
                for j in range(i + 3, c + 1):
                    if j < c and T[j][0] == 'p' and T[j][1] in OPEN: d += 1
                    elif j < c and T[j][0] == 'p' and T[j][1] in CLOSE: d -= 1
                    if j == c or (d == 0 and T[j][1] == ','):
                        if j > st: args.append(text[T[st][2]:T[j-1][3]])
                        st = j + 1
                if nm in ('panic', 'todo', 'unimplemented'): r = f
                elif nm == 'unreachable': r = 'vx_unreachable()'
                elif nm in ('assert', 'debug_assert'): r = 'if !(%s) { %s; }' % (args[0], f)
                elif nm.endswith('assert_eq'): r = 'if !((%s) == (%s)) { %s; }' % (args[0], args[1], f)
                else: r = 'if (%s) == (%s) { %s; }' % (args[0], args[1], f)
                text = text[:T[i][2]] + r + text[T[c][3]:]; done = False; break
        if done: return text
    raise AnchorLost('panic rewriting does not terminate')

def expand_macro(text, name):
    """expands a single-arm, repetition-free local macro_rules! in place and removes its definition"""
    T = tokenize(text)
    di = [i for i in range(len(T) - 3) if T[i][1] == 'macro_rules' and T[i+2][1] == name]
    if len(di) != 1: raise AnchorLost('macro %s is gone' % name)
    i = di[0]; ob = i + 3; cb = match_close(T, ob)
    pa = ob + 1; pc = match_close(T, pa)
    if T[pc+1][1] != '=>': raise AnchorLost('macro %s: shape' % name)
    ba = pc + 2; bc = match_close(T, ba)
    if any(T[k][1] not in (';',) for k in range(bc + 1, cb)): raise AnchorLost('macro %s: several arms' % name)
    ps = []; kinds = []
    k = pa + 1
    while k < pc:
        if T[k][1] == '$' and T[k+1][0] == 'id' and T[k+2][1] == ':': ps.append(T[k+1][1]); kinds.append(T[k+3][1]); k += 4
        elif T[k][1] == ',': k += 1
        else: raise AnchorLost('macro %s: pattern' % name)
    mbody = text[T[ba][3]:T[bc][2]]
    s, e = T[i][2], T[cb][3]
    if text[e:].lstrip().startswith(';'): e = e + text[e:].index(';') + 1
    text = text[:s] + text[e:]
    while True:
        T = tokenize(text)
        h = [i for i in range(len(T) - 2) if T[i][1] == name and T[i+1][1] == '!']
        if not h: return text
        i = h[0]; c = match_close(T, i + 2)
        args = []; st = i + 3; d = 0
        for j in range(i + 3, c + 1):
            if j < c and T[j][0] == 'p' and T[j][1] in OPEN: d += 1
            elif j < c and T[j][0] == 'p' and T[j][1] in CLOSE: d -= 1
            if j == c or (d == 0 and T[j][1] == ','):
                if j > st: args.append(text[T[st][2]:T[j-1][3]])
                st = j + 1
        if len(args) != len(ps): raise AnchorLost('macro %s: arguments' % name)
        # an `expr` fragment is one operand wherever it is put
        args = ['(%s)' % x if kd == 'expr' and len(tokenize(x)) > 1 else x for x, kd in zip(args, kinds)]
        b = mbody
        for p, a in sorted(zip(ps, args), key=lambda x: -len(x[0])): b = re.sub(r'\$' + p + r'\b', lambda m: a, b)
        text = text[:T[i][2]] + '{ ' + b + ' }' + text[T[c][3]:]

def array_match(text):
    """match X { [p, q, ..] => A, .., _ => Z } with X a variable and literal or `_` elements, as a chain of ifs"""
    while True:
        T = tokenize(text); hit = None
        for i in range(len(T) - 4):
            if T[i][1] != 'match': continue
            j = i + 1 + (T[i+1][1] == '&'); j0 = j
            while j + 1 < len(T) and (T[j][0] == 'id' or T[j][1] == '.'): j += 1
            if j > j0 and T[j][1] == '{' and j + 1 < len(T) and (T[j+1][1] == '[' or T[j+1][0] == 'str' and T[j+1][1].startswith('b"')): hit = i; break
        if hit is None: return text
        i = hit; x = text[T[j0][2]:T[j-1][3]]; cb = match_close(T, j); k = j + 1; out = []; last = None
        while k < cb:
            conds = []; alts = []; bind = None
            while True:
                if T[k][1] == '[':
                    c = match_close(T, k); es = [t[1] for t in T[k+1:c] if t[1] != ',']
                    if any(not re.match(r"(\d|b')", e) and e != '_' for e in es): raise AnchorLost('array pattern that is not literal')
                    alts.append(' && '.join('%s[%d] == %s' % (x, n, e) for n, e in enumerate(es) if e != '_') or 'true'); k = c + 1
                elif T[k][0] == 'str' and T[k][1].startswith('b"'):
                    alts.append(' && '.join('%s[%d] == %d' % (x, n, e) for n, e in enumerate(bytes_of(T[k][1]))) or 'true'); k += 1
                elif T[k][1] == '_': alts = None; k += 1
                elif T[k][0] == 'id' and T[k+1][1] == '=>': bind = T[k][1]; alts = None; k += 1
                else: raise AnchorLost('array match: pattern')
                if T[k][1] == '|' : k += 1; continue
                break
            if T[k][1] != '=>': raise AnchorLost('array match: guard')
            k += 1; s0 = k
            if T[k][1] == '{': e = match_close(T, k); arm = text[T[k][2]:T[e][3]]; k = e + 1
            else:
                while k < cb and T[k][1] != ',':
                    k = match_close(T, k) + 1 if T[k][0] == 'p' and T[k][1] in OPEN else k + 1
                arm = '{ ' + text[T[s0][2]:T[k-1][3]] + ' }'
            if k < cb and T[k][1] == ',': k += 1
            if alts is None: last = '{ let %s = &%s; %s }' % (bind, x, arm) if bind else arm; break
            out.append('if ' + ' || '.join('(%s)' % a for a in alts) + ' ' + arm)
        text = text[:T[i][2]] + ' else '.join(out) + (' else ' + last if last else '') + text[T[cb][3]:]

def find_closures(text):
    """(start of first |, params text, body start, body end, is_block) in source order"""
    T = tokenize(text); out = []; i = 0
    while i < len(T):
        k, t, a, b = T[i]
        prev = T[i-1][1] if i else '('
        if k == 'p' and t in ('|', '||') and (prev in ('(', ',', '=', '{', ';', 'return', '=>', 'move') or (i and T[i-1][1] == 'move')):
            if t == '||': j = i
            else:
                j = i + 1; d = 0
                while j < len(T):
                    if T[j][0] == 'p' and T[j][1] in OPEN: d += 1
                    elif T[j][0] == 'p' and T[j][1] in CLOSE: d -= 1
                    elif T[j][1] == '|' and d == 0: break
                    j += 1
            ps = '' if t == '||' else text[T[i][3]:T[j][2]]
            s = j + 1
            if s < len(T) and T[s][1] == '->': i = j + 1; continue
            e = s
            while e < len(T):
                if T[e][0] == 'p' and T[e][1] in OPEN: e = match_close(T, e) + 1; continue
                if T[e][0] == 'p' and (T[e][1] in CLOSE or T[e][1] in ',;'): break
                e += 1
            out.append((a, ps.strip(), T[s][2], T[e-1][3], T[s][1] == '{'))
            i = j + 1
        else: i += 1
    return out

def closure_body(body, name, fn):
    if name.startswith('#'):   # the k-th closure of the function
        C = find_closures(body)
        if int(name[1:]) >= len(C): raise AnchorLost('fn %s: closure %s is gone' % (fn, name))
        a, ps, s, e, blk = C[int(name[1:])]
        return body[s:e] if blk else '{ ' + body[s:e] + ' }'
    T = tokenize(body)
    for i, t in enumerate(T):
        if t[1] == 'let' and i + 4 < len(T):
            j = i + 1
            if T[j][1] == 'mut': j += 1
            if T[j][1] == name and T[j+1][1] == '=':
                k = j + 2
                if T[k][1] == 'move': k += 1
                if T[k][1] != '|': continue
                k += 1; d = 0
                while not (T[k][1] == '|' and d == 0):
                    if T[k][0] == 'p' and T[k][1] in OPEN: d += 1
                    elif T[k][0] == 'p' and T[k][1] in CLOSE: d -= 1
                    k += 1
                while T[k][1] != '{': k += 1
                return body[T[k][2]:T[match_close(T, k)][3]]
    raise AnchorLost('fn %s: closure %s is gone' % (fn, name))

def find_loops(text):
    """loops of a function body text in source order: (kind, kw_pos, open_brace_pos, close_brace_pos, pattern)"""
    T = tokenize(text); out = []
    for i, (k, t, a, b) in enumerate(T):
        if k != 'id' or t not in ('for', 'while', 'loop'): continue
        if t == 'for' and i + 1 < len(T) and T[i+1][1] == '<': continue
        j, d, pat = i + 1, 0, None
        while j < len(T):
            if T[j][0] == 'p':
                if T[j][1] in '([': d += 1
                elif T[j][1] in ')]': d -= 1
                elif T[j][1] == '{' and d == 0: break
            if T[j][0] == 'id' and T[j][1] == 'in' and pat is None and d == 0: pat = norm(T[i+1:j])
            j += 1
        c = match_close(T, j)
        kind = t
        if t == 'while' and T[i+1][1] == 'let': kind = 'whilelet'
        out.append((kind, a, T[j][2], T[c][2], pat))
    return out

class Extracted:
    pass

def extract(directive, blocks, vacuity=False, probes=None):
    """directive: dict(file,name,ctx,ret,as,vis,nth); blocks: list of (head, payload)"""
    f = SrcFile.get(directive['file'])
    T = f.toks
    if directive.get('init'):
        # the initialiser of a constant or static, as a function without parameters
        it = f.find_item(directive['init'], directive['name'], directive.get('ctx'))
        toks = T[it[3]:it[4] + 1]
        e = [n for n, t in enumerate(toks) if t[1] == '=']; c = [n for n, t in enumerate(toks) if t[1] == ':']
        if not e or not c: raise AnchorLost('%s has no initialiser' % directive['name'])
        ty = f.text[toks[c[0]][3]:toks[e[0]][2]].strip(); last = toks[-2] if toks[-1][1] == ';' else toks[-1]
        sig = 'fn %s() -> %s ' % (directive['name'], ty); body = '{ ' + f.text[toks[e[0]][3]:last[3]].strip() + ' }'
        fn = (None, '', it[3], None, None)
    else:
        fn = f.find_fn(directive['name'], directive.get('ctx'), directive.get('nth'))
        sig = f.text[T[fn[2]][2]:T[fn[3]][2]]
        body = f.text[T[fn[3]][2]:T[fn[4]][3]]
    sig = strip_attrs(strip_comments(sig)).strip()
    body = strip_attrs(strip_comments(body))
    clo_sub = None
    if directive.get('closure'):
        # the body of a named local closure, as a function whose signature (captured variables as parameters) is given
        body = closure_body(body, directive['closure'], directive['name'])
        sg = [re.match(r'`(.*)`\s*$', (h.split(None, 1)[1] + ' ' + pl).strip(), re.S) for h, pl in blocks if h.split(None, 1)[0] == 'sig']
        sig = sg[0].group(1).strip(); blocks = [(h, pl) for h, pl in blocks if h.split(None, 1)[0] != 'sig']
        clo_sub = ('closure %s of %s' % (directive['closure'], directive['name']), sig, 1)
    ex = Extracted(); ex.file = directive['file']; ex.name = directive['name']; ex.ctx = fn[1]; ex.subs = [clo_sub] if clo_sub else []
    src_line = f.text.count('\n', 0, T[fn[2]][2]) + 1
    ex.src_line = src_line
    # parameter names
    st = tokenize(sig); params = []
    i = 0
    while st[i][1] != '(':
        if st[i][1] == '<':
            d = 0
            while True:
                if st[i][1] == '<': d += 1
                elif st[i][1] == '>': d -= 1
                elif st[i][1] == '->' : pass
                if d == 0: break
                i += 1
        i += 1
    pc = match_close(st, i)
    d = 0; start = i + 1; j = i + 1; ang = 0
    segs = []
    while j <= pc:
        t = st[j][1]
        if st[j][0] == 'p':
            if t in OPEN: d += 1
            elif t in CLOSE and j != pc: d -= 1
            elif t == '<': ang += 1
            elif t == '>': ang -= 1
        if j == pc or (t == ',' and d == 0 and ang == 0):
            if j > start: segs.append(st[start:j])
            start = j + 1
        j += 1
    for s in segs:
        w = [t[1] for t in s]
        if 'self' in w[:4] and ':' not in w: continue
        if 'self' in w[:2]: continue
        if ':' not in w: continue
        nm = [x for x in w[:w.index(':')] if x not in ('mut', '&')]
        params.append(''.join(nm))
    spec = ''; attrs = ''; loops = {}; ats = []; nsub = []
    panics = None; closures = {}; nclosures = None; nloops_expected = None; forvecs = []; forpats = {}; itnames = {}; macros = []; arrm = False; inl = False; slices = None; fmtw = None
    for head, payload in blocks:
        h = head.split(None, 1)
        if h[0] == 'spec': spec += payload
        elif h[0] == 'attrs': attrs += payload
        elif h[0] == 'loop':
            a = h[1].split(); loops[int(a[0])] = (a[1] if len(a) > 1 else None, payload)
            for o in a[2:]:
                if o.startswith('it='): itnames[int(a[0])] = o[3:]
        elif h[0] == 'forvec': forvecs.append((h[1] + ' ' + payload).strip())
        elif h[0] == 'expandmacro': macros.append(h[1].split())
        elif h[0] == 'arraymatch': arrm = True
        elif h[0] == 'inline':
            inl = True
            # integer constants of the same file by their literals
            for it2 in f.items:
                if it2[0] in ('static', 'const'):
                    tk = T[it2[3]:it2[4] + 1]; eq = [n for n, t in enumerate(tk) if t[1] == '=']
                    v = [t for t in tk[eq[0] + 1:] if t[1] != ';'] if eq else []
                    if len(v) == 1 and v[0][0] == 'num': nsub.append(('subst?', it2[1], v[0][1]))
        elif h[0] == 'bytes': nsub += [('subst?', d + '_' + o + '_bytes', 'vx_' + d + '_' + o + '_bytes') for d in ('to', 'from') for o in ('be', 'le', 'ne')]
        elif h[0] == 'fmt': fmtw = (h[1] if len(h) > 1 else '').replace('own=', '').split(',')
        elif h[0] == 'slices': slices = (h[1] if len(h) > 1 else '').replace('own=', '').split(',')
        elif h[0] == 'panics': panics = h[1].strip()
        elif h[0] == 'closure': closures[int(h[1].split()[0])] = (h[1].split(None, 1)[1], payload)
        elif h[0] == 'closures': nclosures = int(h[1])
        elif h[0] == 'loops': nloops_expected = h[1].split()
        elif h[0] == 'at': ats.append((h[1].strip(), payload))
        elif h[0] in ('subst', 'subst?', 'sigsubst', 'sigsubst?'):
            m = re.match(r'`(.*?)`\s*=>\s*`(.*)`\s*$', (h[1] + ' ' + payload).strip(), re.S)
            if not m: raise Exception("bad subst in template: " + head + payload)
            nsub.append((h[0], m.group(1), m.group(2)))
        else: raise Exception("unknown directive //@ " + head)
    if fmtw is not None:
        body, n = fmt_writes(body, fmtw, ex.name); ex.subs.append(('write!(w, "..{x}..")', 'one vx_lit/vx_num per piece of the format string', n))
    if arrm:
        body = array_match(body); ex.subs.append(('match on array patterns', 'if/else chain on the elements', 1))
    for mn in macros:
        body = expand_macro(body, mn[0]) if len(mn) == 1 else expand_uses(body, mn[0], mn[1]); ex.subs.append(('macro_rules! %s' % mn[0], 'expanded in place', 1))
    if panics: body = sub_panics(body, panics)
    for kind, a, b in nsub:
        if kind.startswith('sig'): sig, n = tok_sub(sig, a, b, kind.endswith('?'))
        else: body, n = tok_sub(body, a, b, kind.endswith('?'))
        if n: ex.subs.append((a, b, n))
    if inl:
        # `x * (-c)` as `-(x * c)`: overflows whenever the original does
        body, n = re.subn(r'(\b[a-z]\w*|\([^()]*\)) \* \(-(\d[\d_]*)\)', r'(-(\1 * \2))', body); ex.subs.append(('integer constants', 'their literals', n))
    if slices is not None:
        body, n = slice_ranges(body, slices); ex.subs.append(('range indexing of slices', 'helpers of verus/slices.vrs', n))
    bl = [t for t in tokenize(body) if t[0] == 'str' and t[1].startswith('b')]
    for t in reversed(bl): body = body[:t[2]] + '(&[' + ', '.join('%du8' % x for x in bytes_of(t[1])) + '])' + body[t[3]:]
    if bl: ex.subs.append(('byte string literals', 'array literals', len(bl)))
    # return name
    if directive.get('ret'):
        st = tokenize(sig); d = 0; arrow = None; wh = len(sig)
        for k, t, a, b in st:
            if k == 'p' and t in '([': d += 1
            elif k == 'p' and t in ')]': d -= 1
            elif t == '->' and d == 0 and arrow is None: arrow = b
            elif t == 'where' and d == 0: wh = a; break
        if arrow is None: raise AnchorLost("fn %s has no return type" % ex.name)
        sig = sig[:arrow] + ' (' + directive['ret'] + ': ' + sig[arrow:wh].strip() + ') ' + sig[wh:]
    if directive.get('as'):
        sig = re.sub(r'^fn\s+\w+', 'fn ' + directive['as'], sig)
    # closures get types and contracts; their bodies stay as they are
    if closures:
        C = find_closures(body)
        if len(C) != (nclosures if nclosures is not None else max(closures) + 1): raise AnchorLost("fn %s: %d closures" % (ex.name, len(C)))
        for k in sorted(closures, reverse=True):
            hd, pl = closures[k]; a, ps, s, e, blk = C[k]
            m = re.match(r'^\((.*)\)\s*(->.*)$', hd.strip(), re.S)
            types = [x.strip() for x in m.group(1).split('|')] if m.group(1).strip() else []
            names = [x.split(':')[0].strip() for x in re.split(r',(?![^(]*\))', ps)] if ps else []
            names = [n for n in names if n]
            if len(names) != len(types): raise AnchorLost("fn %s: closure %d has %d parameters" % (ex.name, k, len(names)))
            pl2 = re.sub(r'\$p(\d+)', lambda mm: re.sub(r'^(&\s*)?(mut\s+)?', '', names[int(mm.group(1))]), pl)
            pl2 = re.sub(r'\$n(\d+)', lambda mm: params[int(mm.group(1))], pl2)
            hdr = '|' + ', '.join('%s: %s' % (n, ty) for n, ty in zip(names, types)) + '| ' + m.group(2) + ' ' + pl2
            bd = body[s:e]
            body = body[:a] + hdr + (bd if blk else '{ ' + bd + ' }') + body[e:]
    # iterator adaptors Verus does not know: `for PAT in ITER BODY` becomes an index loop over the vector of
    # the iterator's items (assumed contract of the std adaptor), evaluated once at the same place
    for fv in forvecs:
        m = re.match(r'(\d+)\s+`(.*?)`\s*=>\s*`(.*)`$', fv, re.S)
        if not m: raise Exception('bad forvec ' + fv)
        k = int(m.group(1)); L0 = find_loops(body)
        if k >= len(L0) or L0[k][0] not in ('for', 'while'): raise AnchorLost("fn %s: loop %d is gone" % (ex.name, k))
        bt0 = tokenize(body)
        a, ob = L0[k][1], L0[k][2]
        hd = [t for t in bt0 if a <= t[2] < ob]
        ii = [n for n, t in enumerate(hd) if t[1] == 'in']
        if not ii: raise AnchorLost("fn %s: loop %d header" % (ex.name, k))
        expr = norm(hd[ii[0]+1:])
        want = norm(tokenize(m.group(2)))
        # $A, $B.. in the pattern capture token runs
        rx = re.escape(want).replace(r'\ ', ' ')
        names = re.findall(r'\\\$ (\w)(?!\w)', rx)
        rx = re.sub(r'\\\$ (\w)(?!\w)', r'(?P<\1>.+?)', rx)
        mm = re.match('^' + rx + '$', expr)
        if not mm: raise AnchorLost("fn %s: loop %d iterates over `%s`, contract expects `%s`" % (ex.name, k, expr, want))
        rep = re.sub(r'\$n(\d+)', lambda q: params[int(q.group(1))], m.group(3))
        for nm in names: rep = rep.replace('$' + nm, mm.group(nm))
        pat = body[hd[0][3]:hd[ii[0]][2]].strip()
        new = "let vxi%d = %s; let mut vxk%d: usize = 0; while vxk%d < vxi%d.len() " % (k, rep, k, k, k)
        der = '*' if re.match(r'^&\s*[A-Za-z_]\w*$', pat) else ''   # `for &x in ..`
        if der: pat = pat[1:].strip()
        body = body[:a] + new + '{ let %s = %svxi%d[vxk%d]; vxk%d = vxk%d + 1; ' % (pat, der, k, k, k, k) + body[ob+1:]
        ex.subs.append(('for %s in %s' % (pat, expr), 'index loop over ' + rep, 1))
        forpats[k] = pat
    L = find_loops(body)
    L = [(l[0] if k not in forpats else 'forvec',) + tuple(l[1:4]) + ((forpats[k],) if k in forpats else (l[4],)) for k, l in enumerate(L)]
    kinds = [l[0] for l in L]
    if nloops_expected is not None and kinds != nloops_expected:
        raise AnchorLost("fn %s: loops are %s, contract expects %s" % (ex.name, kinds, nloops_expected))
    if loops and nloops_expected is None and len(L) != max(loops) + 1:
        raise AnchorLost("fn %s: %d loops, contract expects %d" % (ex.name, len(L), max(loops) + 1))
    if not loops and nloops_expected is None and L:
        raise AnchorLost("fn %s: %d loops, contract expects none" % (ex.name, len(L)))
    def fill(p):
        def v(m):
            k = int(m.group(2))
            if m.group(1) == 'v':
                if k >= len(L) or L[k][4] is None: raise AnchorLost("fn %s: no loop pattern %d" % (ex.name, k))
                pt = L[k][4]
                if not re.match(r'^[A-Za-z_]\w*$', pt): raise AnchorLost("fn %s: loop %d pattern `%s`" % (ex.name, k, pt))
                return pt
            if k >= len(params): raise AnchorLost("fn %s: no parameter %d" % (ex.name, k))
            return params[k]
        return re.sub(r'\$([vn])(\d+)', v, p)
    ins = []  # (pos, order, text)
    for k, (kind, payload) in loops.items():
        if kind and L[k][0] != kind: raise AnchorLost("fn %s: loop %d is `%s`, contract expects `%s`" % (ex.name, k, L[k][0], kind))
        if L[k][0] == 'for' and L[k][4] == '_':
            # Verus needs a named variable to state invariants: name the wildcard
            pass
        ins.append((L[k][2], 5, '\n' + fill(payload)))
        if k in itnames:
            # name the loop's ghost iterator: `for PAT in NAME: ITER`
            hd = [t for t in tokenize(body) if L[k][1] <= t[2] < L[k][2]]
            ip = next(t for t in hd if t[1] == 'in')
            ins.append((ip[3], 1, ' %s:' % itnames[k]))
    bt = tokenize(body)
    for where, payload in ats:
        payload = '\n' + fill(payload)
        m = re.match(r'loop(\d+)\.(start|end|after|before)$', where)
        if where == 'body.start': ins.append((1, 0, payload))
        elif where == 'body.end': ins.append((len(body) - 1, 9, payload))
        elif m:
            k = int(m.group(1))
            if k >= len(L): raise AnchorLost("fn %s: loop %d is gone" % (ex.name, k))
            pos = {'start': L[k][2] + 1, 'end': L[k][3], 'after': L[k][3] + 1, 'before': L[k][1]}[m.group(2)]
            ins.append((pos, 4, payload))
        else:
            m = re.match(r'(before|after)(\?)?\s+`(.*)`(?:\s+(\d+))?$', where, re.S)
            if not m: raise Exception("bad at: " + where)
            pt = [t[1] for t in tokenize(m.group(3))]
            hits = [i for i in range(len(bt) - len(pt) + 1) if [t[1] for t in bt[i:i+len(pt)]] == pt]
            if m.group(4) is not None: hits = hits[int(m.group(4)):int(m.group(4))+1]
            if len(hits) != 1:
                if m.group(2): continue
                raise AnchorLost("fn %s: %d matches for proof anchor `%s`" % (ex.name, len(hits), m.group(3)))
            i = hits[0]
            ins.append((bt[i][2] if m.group(1) == 'before' else bt[i+len(pt)-1][3], 5, payload))
    PROBE = '\nif vx_nondet() { assert(false); /*VXPROBE*/ }\n'
    if vacuity and 'vx_noprobe' not in attrs:
        ins.append((1, -1, PROBE))
        for l in L:
            ins.append((l[2] + 1, -1, PROBE))
    ins.sort(key=lambda x: (x[0], x[1]))
    out = []; last = 0
    for pos, _, tx in ins:
        out.append(body[last:pos]); out.append(tx); last = pos
    out.append(body[last:])
    body2 = ''.join(out)
    attrs = attrs.replace('vx_noprobe', '')
    ex.text = attrs + ((directive.get('vis') + ' ') if directive.get('vis') else '') + sig + '\n' + fill(spec) + '\n' + body2 + '\n'
    ex.nloops = len(L)
    ex.has_probe = vacuity
    return ex

def parse_kv(s):
    out = {}; pos = []
    for m in re.finditer(r'(\w+)=("(?:[^"]*)"|\S+)|(\S+)', s):
        if m.group(1): out[m.group(1)] = m.group(2).strip('"')
        else: pos.append(m.group(3))
    return pos, out

def load_template(path):
    out = []
    for ln in open(path, encoding='utf-8').read().split('\n'):
        m = re.match(r'\s*//@include\s+(\S+)', ln)
        if m: out += load_template(os.path.join(os.path.dirname(path), m.group(1)))
        else: out.append(ln)
    return out

def slice_ranges(body, own):
    """range indexing of slices (`&x[a..b]`, `&mut x[a..b]`, `x[a..b].copy_from_slice(e)`, `x[a..b].m()`) becomes calls of
    the helpers of verus/slices.vrs, which have the documented contract of core; `own` are bases that are owned values"""
    n = 0
    while True:
        T = tokenize(body); hit = None
        for i, t in enumerate(T):
            if t[1] != '[' or t[0] != 'p' or i == 0: continue
            pv = T[i - 1]
            if not (pv[0] == 'id' and pv[1] not in ('in', 'return', 'let', 'mut', 'match', 'if', 'else') or pv[1] in (')', ']')): continue
            j = match_close(T, i)
            d = 0; dots = None
            for k in range(i + 1, j):
                if T[k][0] == 'p':
                    if T[k][1] in OPEN: d += 1
                    elif T[k][1] in CLOSE: d -= 1
                    elif T[k][1] in ('..', '..=') and d == 0: dots = k
            if dots is None: continue
            hit = (i, j, dots)
        if hit is None: return body, n
        # the last one found is innermost-last: handle it, then rescan
        i, j, dots = hit
        b = i - 1
        while True:   # base: ident(.ident | ::ident | [..] | (..))*
            if T[b][1] in (')', ']'):
                d = 0
                while True:
                    if T[b][0] == 'p' and T[b][1] in CLOSE: d += 1
                    if T[b][0] == 'p' and T[b][1] in OPEN:
                        d -= 1
                        if d == 0: break
                    b -= 1
                if T[b - 1][0] == 'id' and T[b - 1][1] not in ('in', 'return', 'let', 'mut', 'match', 'if', 'else') or T[b - 1][1] in (')', ']'): b -= 1; continue
                if T[b - 1][1] in ('.', '::'): b -= 2; continue
                break
            if T[b - 1][1] in ('.', '::'): b -= 2; continue
            break
        base = body[T[b][2]:T[i - 1][3]]
        lo = body[T[i][3]:T[dots][2]].strip(); hi = body[T[dots][3]:T[j][2]].strip()
        if T[dots][1] == '..=': hi = '(%s) + 1' % hi
        root = norm(T[b:i]).replace(' ', '')
        mb = ('&mut ' + base) if root in own else base
        st, en = T[b][2], T[j][3]
        kind = 'value'
        if T[b - 1][1] == '&': kind = 'ref'; st = T[b - 1][2]
        elif T[b - 1][1] == 'mut' and T[b - 2][1] == '&': kind = 'mut'; st = T[b - 2][2]
        nx = [x[1] for x in T[j + 1:j + 4]]
        if nx[:2] == ['.', 'copy_from_slice'] and kind == 'value':
            c = match_close(T, j + 3); arg = body[T[j + 3][3]:T[c][2]].strip().rstrip(','); en = T[c][3]
            if lo and hi: new = 'vx_copy_into(%s, %s, %s, %s)' % (mb, lo, hi, arg)
            elif hi: new = 'vx_copy_into(%s, 0, %s, %s)' % (mb, hi, arg)
            elif lo: new = 'vx_copy_from(%s, %s, %s)' % (mb, lo, arg)
            else: new = 'vx_copy_all(%s, %s)' % (mb, arg)
        elif kind == 'mut' or (kind == 'value' and nx[:1] == ['.'] and len(nx) > 1 and nx[1].endswith('_mut') or kind == 'value' and nx[:2] == ['.', 'fill']):
            if lo and hi: new = 'vx_slice_mut(%s, %s, %s)' % (mb, lo, hi)
            elif hi: new = 'vx_slice_mut(%s, 0, %s)' % (mb, hi)
            elif lo: new = 'vx_from_mut(%s, %s)' % (mb, lo)
            else: new = 'vx_all_mut(%s)' % mb
        else:
            if lo and hi: new = 'vx_idx(&%s, %s, %s)' % (base, lo, hi)
            elif hi: new = 'vx_idx(&%s, 0, %s)' % (base, hi)
            elif lo: new = 'vx_from(&%s, %s)' % (base, lo)
            else: new = 'vx_all(&%s)' % base
        body = body[:st] + new + body[en:]; n += 1

def fmt_writes(body, own, name):
    """`write!(w, "a {x} b", ..)` and `writeln!` become the writes of their pieces in order, stopping at the first error
    (documented behaviour of write_fmt with plain `{}`/`{x}` placeholders); other format specifications are refused"""
    n = 0
    while True:
        T = tokenize(body); hit = None
        for i, t in enumerate(T):
            if t[0] == 'id' and t[1] in ('write', 'writeln') and i + 2 < len(T) and T[i+1][1] == '!' and T[i+2][1] == '(': hit = i; break
        if hit is None: return body, n
        i = hit; j = match_close(T, i + 2); args = []; st = i + 3; d = 0
        for k in range(i + 3, j):
            if T[k][0] == 'p':
                if T[k][1] in OPEN: d += 1
                elif T[k][1] in CLOSE: d -= 1
                elif T[k][1] == ',' and d == 0: args.append(T[st:k]); st = k + 1
        if st < j: args.append(T[st:j])
        if len(args) < 1 or len(args) >= 2 and (len(args[1]) != 1 or not args[1][0][1].startswith('"')): raise AnchorLost('fn %s: write! arguments' % name)
        w = body[args[0][0][2]:args[0][-1][3]]; ws = norm(args[0]).replace(' ', '')
        wr = '&mut ' + w if ws in own else '&mut *' + w
        lit = bytes_of('b' + args[1][0][1]) if len(args) > 1 else []
        lit = bytes(lit).decode('latin1')
        if t[1] == 'writeln' or T[i][1] == 'writeln': lit += '\n'
        rest = [body[a[0][2]:a[-1][3]] for a in args[2:]]; pieces = []; cur = ''; p = 0
        while p < len(lit):
            if lit[p:p+2] in ('{{', '}}'): cur += lit[p]; p += 2; continue
            if lit[p] == '{':
                q = lit.index('}', p); x = lit[p+1:q]
                if x and not re.match(r'^[A-Za-z_]\w*$', x): raise AnchorLost('fn %s: format specification {%s}' % (name, x))
                if not x:
                    if not rest: raise AnchorLost('fn %s: format arguments' % name)
                    x = rest.pop(0)
                if cur: pieces.append(('l', cur)); cur = ''
                pieces.append(('n', x)); p = q + 1; continue
            cur += lit[p]; p += 1
        if cur: pieces.append(('l', cur))
        if rest: raise AnchorLost('fn %s: format arguments' % name)
        e = 'Ok(())'
        for k, (kind, x) in reversed(list(enumerate(pieces))):
            call = 'vx_num(%s, %s)' % (wr, x) if kind == 'n' else 'vx_lit(%s, &[%s])' % (wr, ', '.join('%du8' % ord(c) for c in x))
            e = call if k == len(pieces) - 1 else 'match %s { Ok(vxu) => { %s } Err(vxe) => Err(vxe) }' % (call, e)
        body = body[:T[i][2]] + '(' + e + ')' + body[T[j][3]:]; n += 1

def bytes_of(lit):
    import ast
    if lit.startswith('br') or lit.startswith('r'): raise AnchorLost('raw string in a table')
    lit = re.sub(r'\\\n\s*', '', lit).replace('\\0', '\\x00')
    return list(ast.literal_eval(lit))

def table_spec(toks):
    """a literal table (arrays, tuples, byte strings, numbers, paths) as a Verus spec expression"""
    e = [n for n, t in enumerate(toks) if t[1] == '=']
    if not e: raise AnchorLost('table without a value')
    toks = toks[e[0] + 1:]
    if toks and toks[-1][1] == ';': toks = toks[:-1]
    def lst(i, close):
        r = []
        while toks[i][1] != close:
            v, i = val(i); r.append(v)
            if toks[i][1] == ';': raise AnchorLost('repeat expression in a table')
            if toks[i][1] == ',': i += 1
        return r, i + 1
    def val(i):
        while toks[i][1] == '&': i += 1
        k, t = toks[i][0], toks[i][1]
        if t == '[':
            r, j = lst(i + 1, ']'); return 'seq![' + ', '.join(r) + ']', j
        if t == '(':
            r, j = lst(i + 1, ')'); return '(' + ', '.join(r) + ')', j
        if k == 'str' and t.startswith('b'):
            return 'seq![' + ', '.join('%du8' % x for x in bytes_of(t)) + ']', i + 1
        if k == 'chr' and t.startswith('b'): return '%du8' % bytes_of(t.replace("b'", 'b"', 1)[:-1] + '"')[0], i + 1
        if k == 'num' or (k == 'id' and t in ('true', 'false')): return t, i + 1
        if k == 'id':
            j = i + 1; r = t
            while j + 1 < len(toks) and toks[j][1] == '::': r += '::' + toks[j + 1][1]; j += 2
            return r, j
        raise AnchorLost('token `%s` in a table' % t)
    v, j = val(0)
    if j != len(toks): raise AnchorLost('table is not a plain literal')
    return v

class Generated:
    pass

def generate(path, vacuity=False, only=None, tolerate=None):
    """Returns Generated with .text, .fns (list of dict name,file,start,end), .lost list"""
    lines = load_template(path)
    g = Generated(); g.fns = []; g.lost = []; g.items = []
    out = []
    def cur(): return sum(x.count('\n') + 1 for x in out) + 1
    i = 0
    while i < len(lines):
        ln = lines[i]; s = ln.strip()
        m = re.match(r'//@item\s+(.*)', s)
        if m:
            pos, kv = parse_kv(m.group(1))
            try:
                f = SrcFile.get(pos[0]); it = f.find_item(pos[1], pos[2], kv.get('ctx'))
                tx = f.text[f.toks[it[3]][2]:f.toks[it[4]][3]]
                tx = strip_attrs(strip_comments(tx))
                if kv.get('pub') and pos[1] in ('struct',):
                    pass
                if kv.get('sub'):
                    for ab in kv['sub'].split(';;'):
                        a, b = ab.split('=>'); tx, _ = tok_sub(tx, a, b)
                if pos[1] == 'static': tx = re.sub(r'^static', 'const', tx)
                out.append((kv.get('attrs', '') + ' ' + kv.get('vis', '') + ' ' + tx).strip())
                g.items.append({'file': pos[0], 'name': pos[2], 'kind': pos[1]})
            except AnchorLost as e:
                g.lost.append(str(e))
            i += 1; continue
        m = re.match(r'//@table\s+(.*)', s)
        if m:
            pos, kv = parse_kv(m.group(1))
            try:
                f = SrcFile.get(pos[0]); it = f.find_item(pos[1], pos[2], kv.get('ctx'))
                out.append('pub open spec fn %s() -> %s { %s }' % (kv['as'], kv['type'], table_spec(f.toks[it[3]:it[4] + 1])))
                g.items.append({'file': pos[0], 'name': pos[2], 'kind': pos[1] + ' as spec table'})
            except AnchorLost as e:
                g.lost.append(str(e))
            i += 1; continue
        m = re.match(r'//@fn\s+(.*)', s)
        if not m:
            out.append(ln); i += 1; continue
        pos, kv = parse_kv(m.group(1))
        d = {'file': pos[0], 'name': pos[1]}
        d.update(kv)
        if 'nth' in d: d['nth'] = int(d['nth'])
        blocks = []; i += 1
        while True:
            s = lines[i].strip()
            if s == '//@end': i += 1; break
            m2 = re.match(r'//@\s+(.*)', s)
            if m2: blocks.append([m2.group(1), '']); i += 1; continue
            if not blocks: raise Exception("text before first //@ block in %s" % path)
            blocks[-1][1] += lines[i] + '\n'; i += 1
        try:
            ex = extract(d, blocks, vacuity)
            st = cur(); out.append(ex.text)
            g.fns.append({'name': d.get('as') or d['name'], 'src': d['name'], 'file': d['file'], 'src_line': ex.src_line,
                          'ctx': ex.ctx, 'start': st, 'end': cur() - 1, 'subs': ex.subs, 'loops': ex.nloops})
        except AnchorLost as e:
            g.lost.append('%s:%s: %s' % (d['file'], d['name'], e))
            g.fns.append({'name': d.get('as') or d['name'], 'src': d['name'], 'file': d['file'], 'lost': str(e), 'start': -1, 'end': -1, 'subs': [], 'loops': 0, 'src_line': 0, 'ctx': ''})
    g.text = '\n'.join(out)
    if vacuity:
        g.text = g.text.replace('verus! {', 'verus! {\n#[verifier::external_body] pub fn vx_nondet() -> bool { unimplemented!() }\n', 1) if False else g.text
    return g

if __name__ == '__main__':
    vac = '--vacuity' in sys.argv
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    g = generate(args[0], vac)
    for l in g.lost: print('LOST', l, file=sys.stderr)
    print(g.text)
