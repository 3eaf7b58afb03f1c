"""Parser for the contract files (Gobra-style //@ clauses in /verif/contracts)."""
import re, os, glob

TOK = re.compile(r'\s*(?:(\d+|0x[0-9a-fA-F]+)|([A-Za-z_][A-Za-z_0-9.]*)|(==>|::|\.\.|==|!=|<=|>=|&&|\|\||:=|[-+*/%<>!()\[\]:,{}]))')

class ParseError(Exception):
    pass

def lex(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '':
                break
            raise ParseError('bad token at %r' % s[i:])
        if m.group(1): out.append(('n', int(m.group(1), 0)))
        elif m.group(2): out.append(('i', m.group(2)))
        else: out.append(('o', m.group(3)))
        i = m.end()
    return out

class P:
    def __init__(self, s):
        # '..' directly after a number or identifier: identifiers may contain single dots only
        s = re.sub(r'\.\.', ' .. ', s)
        self.t = lex(s); self.i = 0; self.src = s
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('e', None)
    def eat(self, v):
        if self.peek() == ('o', v) or self.peek() == ('i', v):
            self.i += 1
            return True
        return False
    def need(self, v):
        if not self.eat(v):
            raise ParseError('expected %r at %r in %r' % (v, self.t[self.i:self.i+3], self.src))
    def done(self):
        return self.i >= len(self.t)
    def expr(self):
        if self.peek() == ('i', 'forall'):
            self.i += 1
            var = self.peek()[1]; self.i += 1
            self.need('in')
            a = self.add(); self.need('..'); b = self.add(); self.need('::')
            body = self.expr()
            return ('forall', var, a, b, body)
        a = self.or_()
        if self.eat('==>'):
            return ('imp', a, self.expr())
        return a
    def or_(self):
        a = self.and_()
        while self.eat('||'):
            a = ('or', a, self.and_())
        return a
    def and_(self):
        a = self.cmp()
        while self.eat('&&'):
            a = ('and', a, self.cmp())
        return a
    def cmp(self):
        a = self.add()
        r = None
        while self.peek()[0] == 'o' and self.peek()[1] in ('==', '!=', '<', '<=', '>', '>='):
            op = self.peek()[1]; self.i += 1
            b = self.add()
            c = ('cmp', op, a, b)
            r = c if r is None else ('and', r, c)
            a = b
        return r or a
    def add(self):
        a = self.mul()
        while self.peek()[0] == 'o' and self.peek()[1] in '+-':
            op = self.peek()[1]; self.i += 1
            a = ('bin', op, a, self.mul())
        return a
    def mul(self):
        a = self.un()
        while self.peek()[0] == 'o' and self.peek()[1] in ('*', '/', '%'):
            op = self.peek()[1]; self.i += 1
            a = ('bin', op, a, self.un())
        return a
    def un(self):
        if self.eat('!'):
            return ('not', self.un())
        if self.eat('-'):
            return ('bin', '-', ('num', 0), self.un())
        return self.post()
    def post(self):
        k, v = self.peek()
        if k == 'n':
            self.i += 1
            a = ('num', v)
        elif k == 'i':
            self.i += 1
            if self.eat('('):
                args = []
                if not self.eat(')'):
                    while True:
                        args.append(self.expr())
                        if self.eat(')'):
                            break
                        self.need(',')
                a = ('call', v, args)
            else:
                a = ('var', v)
        elif self.eat('('):
            a = self.expr()
            self.need(')')
        else:
            raise ParseError('unexpected %r in %r' % (self.peek(), self.src))
        while self.eat('['):
            if self.eat(':'):
                lo = ('num', 0); hi = None if self.peek() == ('o', ']') else self.expr()
                self.need(']'); a = ('slice', a, lo, hi); continue
            lo = self.expr()
            if self.eat(':'):
                hi = None if self.peek() == ('o', ']') else self.expr()
                self.need(']'); a = ('slice', a, lo, hi); continue
            self.need(']')
            a = ('idx', a, lo)
        return a

def parse(s):
    p = P(s)
    e = p.expr()
    if not p.done():
        raise ParseError('trailing input in %r' % s)
    return e

def parse_list(s):
    p = P(s); r = []
    if p.done():
        return r
    while True:
        r.append(p.expr())
        if p.done():
            return r
        p.need(',')

class Clause:
    __slots__ = ('tag', 'e', 'text', 'kind')
    def __init__(self, kind, tag, e, text):
        self.kind = kind; self.tag = tag; self.e = e; self.text = text

class Contract:
    def __init__(self, name, params, res):
        self.name = name; self.params = params; self.res = res
        self.level = 'leaf'
        self.split = []
        self.requires = []; self.ensures = []; self.modifies = []
        self.fresh = False
        self.progress = None
        self.measures = []; self.words = []; self.done = []
        self.cpu = None
        self.cpuimplied = None
        self.distinct = []
        self.arch = None
        self.opts = {}
        self.lets = []
        self.bounds = []
        self.ghosts = []
        self.file = ''
    def opts_bounds(self):
        return self.bounds

KW = re.compile(r'^(func|ghost|level|bound|split|requires|modifies|ensures|fresh|progress|measure|word|done|cpuimplied|cpu|distinct|arch|opt|let)\b(?:\[(\w+)\])?\s*(.*)$')

def load(dirname):
    cs = {}
    for f in sorted(glob.glob(os.path.join(dirname, '*.spec'))):
        cur = None
        lines = []
        for ln in open(f):
            ln = ln.rstrip('\n')
            m = re.match(r'^\s*//@\s?(.*)$', ln)
            if not m:
                continue
            t = m.group(1)
            if t.strip().startswith('|'):       # continuation
                lines[-1] += ' ' + t.strip()[1:]
            elif t.strip():
                lines.append(t.strip())
        for t in lines:
            m = KW.match(t)
            if not m:
                raise ParseError('%s: %r' % (f, t))
            kw, tag, rest = m.groups()
            if kw == 'func':
                mm = re.match(r'^([\w./#$]+)\(([^)]*)\)\s*(?:\(([^)]*)\))?$', rest)
                if not mm:
                    raise ParseError('%s: %r' % (f, t))
                names = [x.strip() for x in mm.group(2).split(',') if x.strip()]
                res = [x.strip() for x in (mm.group(3) or '').split(',') if x.strip()]
                cur = Contract(mm.group(1), names, res)
                cur.file = os.path.basename(f)
                cs[cur.name] = cur
                continue
            if kw == 'level': cur.level = rest
            elif kw == 'ghost': cur.ghosts.append(tuple(rest.split()))
            elif kw == 'split':
                mm = re.match(r'^(.*?)\s+in\s+(.*)$', rest)
                vals = []
                for x in mm.group(2).split(','):
                    x = x.strip()
                    if x == 'else': vals.append('else')
                    elif '..' in x:
                        a, b = x.split('..'); vals += list(range(int(a), int(b) + 1))
                    else: vals.append(int(x))
                cur.split.append((parse(mm.group(1)), vals))
            elif kw in ('requires', 'ensures'):
                getattr(cur, kw).append(Clause(kw, tag or ('num' if kw == 'requires' else 'func'), parse(rest), rest))
            elif kw == 'modifies':
                for e in parse_list(rest): cur.modifies.append(e)
            elif kw == 'bound': cur.bounds.append((rest, parse(rest)))
            elif kw == 'fresh': cur.fresh = True
            elif kw == 'progress':
                mm = re.match(r'^(\w+)\s+in\s+(.*)$', rest)
                p = P(mm.group(2)); a = p.add(); p.need('..'); b = p.add()
                cur.progress = (mm.group(1), a, b)
            elif kw == 'measure': cur.measures += parse_list(rest)
            elif kw == 'word': cur.words += parse_list(rest)
            elif kw == 'done': cur.done.append(rest if rest.startswith('fresh') else rest); cur.done[-1] = parse_done(rest)
            elif kw == 'cpu': cur.cpu = [x.strip() for x in rest.split(',') if x.strip()]
            elif kw == 'cpuimplied': cur.cpuimplied = [x.strip() for x in rest.split(',') if x.strip()]
            elif kw == 'distinct': cur.distinct.append([x.strip() for x in rest.split(',')])
            elif kw == 'arch': cur.arch = [x.strip() for x in rest.split(',')]
            elif kw == 'opt':
                k, _, v = rest.partition('='); cur.opts[k.strip()] = v.strip()
            elif kw == 'let':
                k, _, v = rest.partition(':='); cur.lets.append((k.strip(), parse(v)))
    return cs

def parse_done(s):
    """done out[a:b] i -> expr     |   done fresh[a:b] i -> expr"""
    m = re.match(r'^(\w+)\[(.*)\]\s+(\w+)\s*->\s*(.*)$', s)
    obj, rng, var, body = m.groups()
    p = P(rng); a = p.expr(); p.need(':'); b = p.expr()
    return (obj, a, b, var, parse(body))
