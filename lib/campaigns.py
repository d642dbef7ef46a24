"""What each check runs: (variant, program, arguments, weight[, slots]). {obj} expands to each object of the list."""
COMB = ['ccsynch', 'dsmsynch', 'hsynch', 'osci', 'fc', 'oyama']
UNIV = ['sim', 'lfuobject']
BQ = ['ccqueue', 'dsmqueue', 'hqueue', 'osciqueue', 'fcqueue']
NQ = ['simqueue', 'msqueue', 'lcrq']
BS = ['ccstack', 'dsmstack', 'hstack', 'oscistack', 'fcstack']
NS = ['simstack', 'lfstack']
HT = ['clhhash', 'dsmhash']
LK = ['clh', 'mcs']
ALL = COMB + UNIV + BQ + NQ + BS + NS + HT + LK
BLOCK = COMB + BQ + BS + HT + LK
RECLAIM = ['ccqueue', 'dsmqueue', 'hqueue', 'osciqueue', 'fcqueue', 'ccstack', 'dsmstack', 'hstack', 'oscistack', 'fcstack', 'simstack']
HASFIB = ['hsynch', 'osci', 'hqueue', 'osciqueue', 'hstack', 'oscistack']


class Job:
    def __init__(self, variant, prog, args, weight=1.0, slots=1, slice=4.0):
        self.variant, self.prog, self.args, self.weight, self.slots, self.slice = variant, prog, args, weight, slots, slice


def each(objs, variant, args, weight=1.0, slots=1, slice=4.0):
    return [Job(variant, 'mon', '--obj %s %s' % (o, args), weight, slots, slice) for o in objs]


def lin(objs):
    j = []
    j += each(objs, 'asm', '--camp lin --mode ctrl', 4)
    j += each(objs, 'tsan', '--camp lin --mode ctrl', 3)
    j += each(objs, 'asm', '--camp lin --mode ctrl --minposix 4 --maxposix 9', 1)
    j += each(objs, 'asm', '--camp lin --mode ctrl --fibpct 100', 1)
    j += each(objs, 'asm', '--camp lin --mode ctrl --minposix 60 --maxposix 130 --fibpct 0 --ops 2', .8 if objs[0] in UNIV + NQ + NS else .3)
    j += each(objs, 'asm', '--camp big --mode ctrl', 3 if objs[0] in UNIV + NQ + NS else .7)
    j += each(objs, 'tsan', '--camp big --mode delay', 1, 2)
    j += each(objs, 'rel', '--camp big --mode free --maxposix 8', 1, 3)
    j += each(objs, 'rel', '--camp lin --mode free --maxposix 8', .6, 3, 2.0)
    return j


def misc(variant, camp, mode='ctrl', weight=1.0, slots=1, extra='', slice=3.0):
    return Job(variant, 'misc', '--camp %s --mode %s %s' % (camp, mode, extra), weight, slots, slice)


def several(camp, variants, modes, extra=''):
    return [misc(v, camp, m, 1, 1 if m == 'ctrl' else 3, extra) for v in variants for m in modes]


MISC = ['pool', 'barrier', 'runtime', 'fibers', 'place', 'prim', 'tvec', 'rand', 'args']


def plan(pid):
    """(core-seconds of the quick tier, jobs)"""
    if pid == 'C01': return 300, lin(COMB)
    if pid == 'C02': return 200, lin(UNIV)
    if pid == 'C03': return 300, lin(BQ)
    if pid == 'C04': return 320, lin(NQ) + each(['lcrq'], 'ring', '--camp lin --mode ctrl', 5) + each(['lcrq'], 'ring', '--camp big --mode delay', 2, 2) + each(['lcrq'], 'ring', '--camp lin --mode ctrl --minposix 10 --maxposix 24 --fibpct 0 --ops 6', 4)
    if pid == 'C05': return 300, lin(BS)
    if pid == 'C06': return 250, lin(NS)
    if pid == 'C07': return 200, lin(HT)
    if pid == 'C08': return 180, lin(LK) + each(LK, 'asm', '--camp fifo --mode ctrl', 3) + each(LK, 'tsan', '--camp fifo --mode ctrl', 3)
    if pid == 'C09':
        return 260, (each(NQ + NS + UNIV, 'asm', '--camp progress --mode ctrl', 3) + each(NQ + NS + UNIV, 'tsan', '--camp progress --mode ctrl', 2)
                     + each(['lcrq'], 'ring', '--camp progress --mode ctrl', 3)
                     + each(['sim', 'simqueue', 'simstack'], 'asm', '--camp waitfree --mode ctrl', 2)
                     + each(['sim', 'simqueue', 'simstack'], 'tsan', '--camp waitfree --mode ctrl', 1))
    if pid == 'C10':
        return 340, (each(BLOCK, 'asm', '--camp lin --mode ctrl --longstall 10', 3)
                     + each(BLOCK, 'asm', '--camp lin --mode ctrl --ncores 1 --maxposix 8 --fibpct 50', 2)
                     + each(BLOCK, 'rel', '--camp lin --mode free --minposix 12 --maxposix 24 --wd 60', 1, 4, 3.0)
                     + each(BLOCK, 'rel', '--camp lin --mode free --fibpct 100 --maxfib 8 --ncores 8 --wd 60', 1, 3, 3.0))
    if pid == 'C11':
        return 380, (each(ALL, 'asan', '--camp lin --mode ctrl', 2) + each(ALL, 'asan', '--camp big --mode free', 1, 3, 3.0)
                     + each(ALL, 'asan', '--camp lin --mode ctrl --minposix 5 --maxposix 12 --fibpct 60', 1)
                     + each(ALL, 'asan', '--camp lin --mode ctrl --minposix 40 --maxposix 130 --fibpct 0 --ops 2', .6)
                     + [misc('asan', c, 'ctrl', 1) for c in MISC] + [misc('asan', c, 'free', .7, 3) for c in ('runtime', 'fibers', 'barrier', 'pool')])
    if pid == 'C12':
        return 260, (each(RECLAIM, 'rel', '--camp foot --mode free', 2, 3, 5.0) + each(RECLAIM, 'tsan', '--camp foot --mode free --chunk 4000', 1, 3, 5.0)
                     + [misc('rel', 'poolbig', 'free', 2), misc('asan', 'poolbig', 'free', 2), misc('asan', 'runtime', 'free', 3, 3), misc('asan', 'pool', 'free', 2)])
    if pid == 'C13':
        return 120, [misc(v, c, m, 1, 1) for v in ('tsan', 'asan', 'nocompact', 'norec', 'rel') for c in ('pool', 'poolbig') for m in ('ctrl', 'free') if not (v == 'rel' and m == 'ctrl')]
    if pid == 'C14':
        return 200, (several('runtime', ('tsan', 'asm', 'asan', 'nonuma'), ('ctrl', 'free')) + several('runtime', ('rel',), ('free',)) + several('runtime', ('tsan',), ('delay',))
                     + several('fibers', ('tsan', 'asm', 'asan', 'nonuma'), ('ctrl', 'free')) + several('fibers', ('rel',), ('free',)))
    if pid == 'C15':
        return 140, several('barrier', ('tsan', 'asm'), ('ctrl', 'ctrl', 'delay', 'free')) + several('barrier', ('rel',), ('free',)) + several('barrier', ('asm',), ('ctrl',), '--maxposix 8')
    if pid == 'C16': return 90, several('place', ('tsan', 'asm', 'rel', 'asan', 'nonuma'), ('free',))
    if pid == 'C17':
        return 140, several('prim', ('tsan', 'asm', 'emu', 'debug', 'nonuma'), ('ctrl', 'delay')) + several('prim', ('rel', 'asm', 'emu'), ('free',))
    if pid == 'C18':
        return 240, (each(ALL, 'asm', '--camp lin --mode ctrl --val 4', 2, slice=2.0) + each(ALL, 'tsan', '--camp lin --mode ctrl --val 5', 1, slice=2.0)
                     + each(ALL, 'asm', '--camp lin --mode ctrl --val 1', 1, slice=2.0) + each(ALL, 'rel', '--camp lin --mode free --val 4', .5, 3, 1.0)
                     + each(ALL, 'tsan', '--camp lin --mode ctrl --val 2', .5, slice=2.0))
    if pid == 'C19': return 260, each(ALL, 'asm', '--camp two --mode ctrl', 2) + each(ALL, 'tsan', '--camp two --mode ctrl', 1)
    if pid == 'C20':
        j = []
        for v in ('nonuma', 'nocompact', 'norec', 'debug', 'emu', 'nobk'):
            x = ' --fill 165' if v == 'nonuma' else ''
            j += each(ALL, v, '--camp lin --mode ctrl' + x, 1, slice=2.0)
            if v in ('nonuma', 'nocompact'):
                j += each(ALL, v, '--camp lin --mode ctrl --minposix 20 --maxposix 90 --fibpct 0 --ops 2' + x, .5, slice=1.5)
            j += [misc(v, c, 'ctrl', .5, slice=2.0) for c in ('pool', 'runtime', 'prim', 'barrier', 'fibers')]
        return 380, j + each(['lcrq'], 'ring', '--camp lin --mode ctrl', 3) + each(ALL, 'asmdebug', '--camp lin --mode ctrl', 1, slice=2.0)
    if pid == 'C21':
        return 160, each(COMB, 'asm', '--camp bounded --mode ctrl', 3) + each(COMB, 'tsan', '--camp bounded --mode ctrl', 2) + each(COMB, 'rel', '--camp bounded --mode free', 1, 3)
    if pid == 'C22': return 60, several('tvec', ('tsan', 'asm', 'asan'), ('ctrl', 'free')) + several('tvec', ('rel',), ('free',))
    if pid == 'C23': return 60, several('rand', ('tsan', 'asm', 'asan'), ('ctrl',)) + several('rand', ('rel',), ('free',))
    if pid == 'C24': return 50, several('args', ('tsan', 'asan', 'rel'), ('free',))
    if pid == 'C25': return 60, several('stats', ('debug',), ('ctrl', 'free', 'delay')) + several('stats', ('asmdebug',), ('ctrl', 'free')) + [misc('reldebug', 'statsbig', 'free', 1, 4)]
    raise KeyError(pid)
