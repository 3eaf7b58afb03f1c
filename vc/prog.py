"""The SSA program as dumped by the front end."""
import json

SIGNED = {'int': None, 'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64, 'rune': 32, 'untyped int': None, 'untyped rune': 32}
UNSIGNED = {'uint': None, 'uint8': 8, 'byte': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64, 'uintptr': None}

class Fn:
    pass

class Prog:
    def __init__(self, data):
        self.arch = data['arch']
        self.errors = data['errors']
        self.own = data.get('own') or {}
        self.other = data.get('other') or {}
        self.types = data.get('types') or []
        self.globals = data.get('globals') or {}
        self.consts = data.get('consts') or {}
        self.inits = data.get('inits') or []
        self.wordbits = 32 if self.arch in ('386', 'arm', 'mips', 'mipsle') else 64
        self.funcs = {}
        for n, f in (data.get('funcs') or {}).items():
            o = Fn()
            o.name = f['name']; o.pkg = f['pkg']; o.short = f['short']; o.exported = f['exported']
            o.params = f['params'] or []; o.free = f['free'] or []; o.results = f['results'] or []
            o.blocks = f['blocks'] or []; o.pos = f['pos']; o.synth = f.get('synth', '')
            o.key = (o.pkg.rsplit('/', 1)[-1] + '.' + o.short)
            o.loops = self._loops(o)
            self.funcs[n] = o
        self.bykey = {}
        for f in self.funcs.values():
            if '(' not in f.name:
                self.bykey.setdefault(f.key, f)

    def ty(self, i):
        return self.types[i]
    def kind(self, i):
        """('int', bits) | ('uint', bits) | other kind string in a 1-tuple"""
        k = self.types[i]['k']
        if k in SIGNED: return ('int', SIGNED[k] or self.wordbits)
        if k in UNSIGNED: return ('uint', UNSIGNED[k] or self.wordbits)
        return (k, 0)

    def _loops(self, f):
        """natural loops: header -> set of blocks"""
        n = len(f.blocks)
        if n == 0: return {}
        idom = [b['idom'] for b in f.blocks]
        def dom(a, b):
            while b != -1:
                if a == b: return True
                b = idom[b]
            return False
        loops = {}
        for u, b in enumerate(f.blocks):
            for h in b['succs']:
                if dom(h, u):
                    body = loops.setdefault(h, {h})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(f.blocks[x]['preds'])
        return loops

def load(path):
    return Prog(json.load(open(path)))
