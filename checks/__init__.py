"""property id -> (module, function)"""
REGISTRY = {}


def reg(mod, *ids):
    for i in ids:
        REGISTRY[i] = (mod, i.lower())


reg('paths', 'S01', 'S02', 'S08')
reg('symsorter', 'Y01', 'Y02', 'Y03', 'Y04', 'Y05', 'Y06', 'Y07')
reg("sources", "S03", "S04", "S05", "S06", "S07", "S09", "S10", "S11", "S12", "S13", "S14", "S15", "S16")
reg('caching', 'C01', 'C03', 'C04')
reg('cacher', 'C02', 'C08', 'C11')
reg('app', 'R01', 'R02', 'R03')
reg('cleanup', 'C09')
reg('shared', 'C12')
reg('jslookup', 'J05', 'J06')
reg('minidump', 'N06', 'N07', 'N08')
reg('wiring', 'C13')
reg('denylist', 'X04')
reg('wire', 'T02', 'T03', 'R04', 'R05')
reg('download', 'D01', 'D02', 'D03', 'D04', 'X03')
reg('files', 'C07', 'D05')
reg('listing', 'D06', 'D07')
reg('jvm', 'M01', 'M02', 'M03')
reg('native', 'N01', 'N02', 'N03', 'N04', 'N05', 'T01')
reg('objects', 'O01')
reg('lookups', 'N09', 'N10')
reg('metrics', 'R06', 'R07')
reg('memory', 'C14')
reg('js', 'J01', 'J02', 'J03', 'J04')
reg('keys', 'C05', 'C06', 'C10')
reg('cli', 'A01', 'A02', 'A03')
reg('event', 'A04')
reg('wasm', 'W01', 'W02', 'W03', 'W04', 'W05')

ABS = ('abstract interpretation of the syntax trees (trace partitioning over a term and string-template domain), each partition compared with the '
       'rule of the property, no solver and no execution')
EFF = ABS + '; effect-order and typestate rules over the recorded effects; rules over resolved items and serde attributes'
TECHNIQUE = {'event': ABS, 'lookups': ABS, 'memory': EFF, 'metrics': EFF, 'cli': EFF, 'app': EFF, 'wire': EFF, 'minidump': ABS, 'wiring': ABS, 'jslookup': ABS, 'denylist': EFF, 'shared': EFF, 'caching': EFF, 'download': EFF, 'cacher': EFF, 'cleanup': EFF, 'files': EFF, 'js': EFF, 'listing': EFF, 'objects': ABS, 'jvm': ABS, 'keys': EFF, 'native': ABS, 'paths': ABS, 'sources': EFF, 'symsorter': EFF, 'wasm': EFF}
