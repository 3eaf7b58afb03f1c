"""The properties: functions under contract they rest on, kinds of obligations, lemmas."""
import re
FUN = {'func', 'size', 'num', 'panic', 'inv', 'term', 'frame'}
MEM = {'mem', 'size', 'num', 'panic', 'inv', 'term', 'frame', 'fresh'}
ARCH32 = ['386', 'arm', 'mips', 'mipsle']
ARCH64 = ['arm64', 'mips64', 'mips64le', 'ppc64', 'ppc64le', 'riscv64', 's390x', 'loong64']

W = ['writer.WriteAll', 'writer.WriteAllScalar', 'writer.WriteAllFast']
WD = ['writer.WriteAllDelta', 'writer.WriteAllDeltaScalar', 'writer.WriteAllDeltaFast']
R = ['reader.ReadAll', 'reader.ReadAllScalar', 'reader.ReadAllFast']
RD = ['reader.ReadAllDelta', 'reader.ReadAllDeltaScalar', 'reader.ReadAllDeltaFast']
P8 = ['encode.Put8uint32', 'encode.Put8uint32Scalar', 'encode.Put8uint32Fast', 'encode.Put8uint32FastAsm']
P8D = ['encode.Put8uint32Delta', 'encode.Put8uint32DeltaScalar', 'encode.Put8uint32DeltaFast', 'encode.Put8uint32DeltaFastAsm']
P4 = ['encode.Put4uint32Scalar']
P4D = ['encode.Put4uint32DeltaScalar']
G8 = ['decode.Get8uint32', 'decode.Get8uint32Scalar', 'decode.Get8uint32Fast', 'decode.Get8uint32FastAsm']
G8D = ['decode.Get8uint32Delta', 'decode.Get8uint32DeltaScalar', 'decode.Get8uint32DeltaFast', 'decode.Get8uint32DeltaFastAsm']
G4 = ['decode.Get4uint32Scalar']
G4D = ['decode.Get4uint32DeltaScalar']
PART = ['encode.PutUint32Scalar', 'encode.PutUint32DeltaScalar', 'decode.GetUint32Scalar', 'decode.GetUint32DeltaScalar']
SIZES = ['shared.ControlByteToSize', 'shared.ControlByteToSizeTwo']
GENERAL = ['writer.WriteAll', 'writer.WriteAllDelta', 'reader.ReadAll', 'reader.ReadAllDelta', 'encode.Put8uint32', 'encode.Put8uint32Delta', 'decode.Get8uint32', 'decode.Get8uint32Delta']
MODES = ['encode.GetMode', 'decode.GetMode']
ALLFUNCS = W + WD + R + RD + P8 + P8D + P4 + P4D + G8 + G8D + G4 + G4D + PART + SIZES
STREAMLEM = ['sizes', 'offsets']

def asmlem(*l): return STREAMLEM + ['rows'] + list(l)

VARINT = ['util.PutVarint', 'util.GetVarint', 'util.PutDeltaVarint', 'util.GetDeltaVarint']
UTIL = ['util.Delta', 'util.RandUint32', 'util.GenUint32', 'util.SortUint32']
def rand_search(c, b, bad):
    import search
    return search.rand_search(c, b, bad)

def trees(c):
    import regen
    return regen.run(c)
def gen_search(c, b, bad):
    import regen
    return regen.search(c, b, bad)
def tool(c):
    import tool
    return tool.run(c)
def tool_search(c, b, bad):
    import tool
    return tool.search(c, b, bad)
def content(c):
    import tool
    return tool.run(c, 'content.py')
def content_search(c, b, bad):
    import tool
    return tool.search(c, b, bad, tool.says)
ASMF = [k for k in P8 + P8D + G8 + G8D if k.endswith('Asm')]

PROPS = {
    'C01': dict(roots=W, tags=FUN, lemmas=asmlem('padding')),
    'C02': dict(roots=WD, tags=FUN, lemmas=asmlem('padding')),
    'C03': dict(roots=R, tags=FUN, lemmas=asmlem()),
    'C04': dict(roots=RD, tags=FUN, lemmas=asmlem()),
    'C05': dict(roots=W + WD + R + RD, tags=FUN, lemmas=asmlem('padding', 'roundtrip')),
    'C06': dict(roots=P8 + P8D + P4 + P4D, tags=FUN, lemmas=asmlem()),
    'C07': dict(roots=G8 + G8D + G4 + G4D, tags=FUN, lemmas=asmlem()),
    'C08': dict(roots=PART, tags=FUN | {'mem'}, lemmas=['sizes'], cone=False),
    'C09': dict(roots=R + RD, tags=MEM, lemmas=STREAMLEM),
    'C10': dict(roots=W + WD, tags=MEM, lemmas=STREAMLEM + ['padding']),
    'C11': dict(roots=SIZES, tags=FUN, lemmas=['sizes', 'tables'], tables=True),
    'C12': dict(roots=GENERAL + MODES, tags=FUN | {'cpu'}, cone=False, lemmas=STREAMLEM),
    'C13': dict(roots=GENERAL + MODES, tags=FUN | MEM | {'cpu'}, archs=['386', 'arm64'], compile=ARCH32 + ARCH64, lemmas=STREAMLEM + ['padding']),
    'C14': dict(roots=[k for k in P8 + P8D + G8 + G8D if 'Scalar' not in k] + G4 + G4D + SIZES, tags=FUN | MEM | {'cpu'}, cone=False, lemmas=asmlem('tables'), compile=['386', 'arm64'], tables=True, trees=trees, search=gen_search),
    'C15': dict(roots=VARINT, tags=FUN, archs=['amd64', '386'], lemmas=['varint']),
    'C16': dict(roots=UTIL, tags=FUN | {'fresh'}, archs=['amd64', '386'], search=rand_search),
    'C17': dict(roots=ALLFUNCS, tags={'frame', 'fresh', 'size', 'num', 'panic'}, lemmas=STREAMLEM),
    'C18': dict(roots=W + WD + R + RD + P8 + P8D + G8 + G8D, tags=FUN, lemmas=asmlem('padding', 'agree')),
    'C19': dict(roots=WD + RD + P8D + G8D + P4D + G4D + ['encode.PutUint32DeltaScalar', 'decode.GetUint32DeltaScalar'], tags=FUN, lemmas=asmlem('padding', 'chain', 'roundtrip')),
    'C20': dict(roots=[], tags={'func', 'panic'}, custom=tool, search=tool_search, search_only=True),
    'C21': dict(roots=[], tags={'func', 'panic'}, custom=content, search=content_search, search_only=True, content=True),
}

WEIGHT = {'writer.WriteAllDeltaFast': 45, 'writer.WriteAllFast': 25, 'writer.WriteAllScalar': 12, 'writer.WriteAllDeltaScalar': 14, 'reader.ReadAllDeltaFast': 12,
          'reader.ReadAllFast': 9, 'reader.ReadAllScalar': 5, 'reader.ReadAllDeltaScalar': 5, 'encode.PutUint32DeltaScalar': 60, 'encode.PutUint32Scalar': 40,
          'encode.Put4uint32DeltaScalar': 20, 'encode.Put4uint32Scalar': 12, 'decode.GetUint32Scalar': 9, 'decode.GetUint32DeltaScalar': 10,
          'decode.Get4uint32Scalar': 4, 'decode.Get4uint32DeltaScalar': 4, '@rows': 6}
SLICES = {'encode.PutUint32DeltaScalar': 8, 'encode.PutUint32Scalar': 6, 'encode.Put4uint32DeltaScalar': 4, 'encode.Put4uint32Scalar': 3, 'decode.GetUint32Scalar': 2,
          'decode.GetUint32DeltaScalar': 2}
def weight(k): return WEIGHT.get(k, 1)
def slices(k): return SLICES.get(k, 1)
