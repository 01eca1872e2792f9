"""What is explored for every property."""
import scen
import calcs
import worlds
from mbt import Model
from gen import (G, MODEL_TYPES, TEXT_TYPES, RESULT_TYPES, HYDRO_TYPES, PLAIN, TD, WIDE)

# which kinds of broken clauses break which property
CONTENT = {'run', 'outcome', 'content'}
ANSWER = {'run', 'outcome', 'content', 'answer'}


NOTE = ('Exhaustive over the states of the specification for the histories of each run; the '
        'histories are generated (seeded), so inputs are sampled, not exhausted. The oracle is the '
        'TLA+ specification only.')


class Plan:
    def __init__(self, name, tags, gens, quick, models=(), systematic=None, waves=True,
                 note='', mbt=()):
        self.name, self.tags, self.gens, self.quick = name, tags, gens, quick
        self.note, self.mbt, self.replays = note or NOTE, mbt, bool(mbt)
        self._models, self.systematic, self.waves = models, systematic, waves

    def models(self, tier):
        return [(m, c if tier == 'quick' else c.replace('.cfg', '_t.cfg') if th else c, list(x))
                for m, c, th, x in self._models]

    def budget(self, tier):
        return 0 if tier == 'quick' else 420

    def cases(self, seed, tier, wave):
        out = []
        if wave == 0 and self.systematic:
            out += self.systematic('%s-%s' % (self.name, seed))
        n = self.quick if tier == 'quick' else max(self.quick, 160) * 3
        for k in range(n):
            idx = wave * n + k
            g = G('%s-%s-%s-%d' % (self.name, seed, 'q' if tier == 'quick' else 't', idx))
            fn, args = self.gens[idx % len(self.gens)]
            name = '%s-%s-%d' % (fn.__name__, self.name, idx)
            out.append(fn(g, name, *args))
        return out


def content_plan(name, sets):
    def systematic(seed):
        out = []
        for letter, types in sets:
            out += scen.systematic(seed, types, letter)
        return out
    return Plan(name, CONTENT, [(scen.content, s) for s in sets], 240, systematic=systematic)


M1 = ('T', list(PLAIN) + ['GELMNT1', 'GNODE', 'GCOORD', 'GELREF1'])
M2 = ('T', TEXT_TYPES)
M2b = ('L', TEXT_TYPES + ['GNODE', 'GCOORD'])
M3 = ('R', RESULT_TYPES)
M4 = ('G', HYDRO_TYPES)

STORE = Model('store', 'SifSystem', worlds.store, length=25, quick=64)
HIERT = Model('hiert', 'SifSystem', worlds.hierarchy('T'), length=25, quick=32,
              thorough_world=worlds.hierarchy('T', 3))
HIERR = Model('hierr', 'SifSystem', worlds.hierarchy('R'), length=25, quick=32,
              thorough_world=worlds.hierarchy('R', 3))
LIFET = Model('lifet', 'SifSystem', worlds.life('T'), length=20, quick=48)
LIFER = Model('lifer', 'SifSystem', worlds.life('R'), length=20, quick=48)
VTU = Model('vtu', 'SifVtuModel', worlds.writer(5), length=14, quick=1500,
            thorough_world=worlds.writer(6))


WORDS = {k: Model('words' + k, 'SifReader', worlds.reader(k[0], t, 3), length=40, quick=160,
                  thorough=2500, thorough_world=worlds.reader(k[0], t, 3, 7))
         for k, t in (('T', MODEL_TYPES), ('Tx', TEXT_TYPES), ('R', RESULT_TYPES), ('G', HYDRO_TYPES))}


def asking(name, *a, quick=60, **kw):
    big = dict(kw, big=True, nel=6, nsets=3)
    return Model(name, 'SifQuery', worlds.queries(*a, **kw), length=20, quick=quick,
                 thorough_world=worlds.queries(*a, **big))


NODEVALS = ('RVNODDIS', 'RVNODVEL')
SELECT = asking('select', ['mix', 'mixthick'], ['get_elements', 'get_elementnumbers'])
CONNECT = asking('connect', ['mix', 'mixthick'], ['get_nodes', 'get_nodenumbers', 'get_elements'])
NODERES = asking('noderes', ['mix', 'mixthick', 'beams'], ['get_noderesults'],
                 ['displacement', 'velocity', 'acceleration'], vals=NODEVALS)
BEAMRES = asking('thinres', ['beam2', 'thin', 'mix'], ['get_elementresults'],
                 ['beamforce', 'generalstress', 'decomposedstress'], vals=('RVFORCES', 'RVSTRESS'))
THICKRES = asking('thickres', ['thick', 'mixthick'], ['get_elementresults'],
                  ['beamforce', 'generalstress', 'decomposedstress'], poss=('nodes', 'respts'),
                  vals=('RVFORCES', 'RVSTRESS'))
CASES = asking('cases', ['mix', 'thin'], ['get_noderesults', 'get_elementresults'],
               ['displacement', 'beamforce', 'generalstress'], nsets=0, runs=2, ncase=3,
               cpl=('real', 'complex', 'mixed'), vals=('RVNODDIS', 'RVFORCES', 'RVSTRESS'))
SECTIONS = asking('sections', ['mix', 'mixthick'], ['get_section_properties', 'get_shell_thicknesses'])

PLACET = Model('placet', 'SifPlace', worlds.placement('T'), length=20,
               thorough_world=worlds.placement('T', 12))
PLACER = Model('placer', 'SifPlace', worlds.placement('R'), length=20,
               thorough_world=worlds.placement('R', 12))

def sessions(name, what, quick, n=40, handles=1, **kw):
    return Model(name, 'SifSession', worlds.session(what, n, handles), length=kw.pop('length', 50), quick=quick,
                 thorough_world=worlds.session(what, n + n // 2, handles))


SESSIONS = [sessions('askthin', ['mix', 'thin'], 50), sessions('askthick', ['mixthick', 'thick'], 50),
            sessions('askhydro', 'hydro', 50), sessions('askhier', 'hier', 50)]
BOTH = [sessions('bothstruc', ['mix', 'mixthick'], 40, 12, 2), sessions('bothhydro', 'hydro', 40, 12, 2),
        sessions('bothhier', 'hier', 40, 12, 2)]

WAVES = Model('waves', 'SifWaves', worlds.waves('responses'), length=20, quick=60)
HYDROS = Model('hydros', 'SifWaves', worlds.waves('system'), length=20, quick=60)

STRESS = Model('stress', 'SifCalcModel', worlds.stresses(5, 2, 3), length=100,
               thorough_world=worlds.stresses(8, 3, 4))
PAIRS = Model('pairs', 'SifCalcModel', worlds.pairs(3, [2, 3]), length=20, quick=200,
              thorough_world=worlds.pairs(4, [2, 3, 4]))

EXPORTS = [Model('drawthin', 'SifExportModel', worlds.exports(['beam2', 'thin', 'beam3']), length=9, quick=40,
                 thorough_world=worlds.exports(['beams', 'thin', 'mix'], 2)),
           Model('drawthick', 'SifExportModel', worlds.exports(['thick', 'mixthick'], nel=3), length=9, quick=40,
                 thorough_world=worlds.exports(['thick', 'mixthick'], 2))]

PLANS = {
    'C01': content_plan('C01', [M1, ('T', MODEL_TYPES), ('L', MODEL_TYPES)]),
    'C02': content_plan('C02', [M2, M2b]),
    'C03': content_plan('C03', [M3]),
    'C04': content_plan('C04', [M4]),
    'C05': Plan('C05', CONTENT, [(scen.encodings, ())], 160, systematic=scen.endings,
                mbt=[WORDS['T'], WORDS['R']]),
    'C06': Plan('C06', CONTENT, [(scen.skipping, ()), (scen.wished_together, ())], 240, systematic=scen.foreign,
                mbt=[WORDS['Tx'], WORDS['G']]),
    'C07': Plan('C07', {'run', 'outcome', 'content', 'leak', 'open'}, [(scen.history, ()), (scen.history, ()), (scen.history, ()), (scen.rewritten, ())], 360,
                mbt=[STORE]),
    'C08': Plan('C08', {'run', 'outcome', 'content', 'ret', 'disk'}, [(scen.appending, ()), (scen.appending, ()), (scen.rewritten, ())], 240,
                mbt=[STORE]),
    'C09': Plan('C09', {'run', 'outcome', 'content', 'report'}, [(scen.hierarchy_files, ())] * 4 + [(scen.rewritten, ())], 250,
                mbt=[HIERT, HIERR]),
    'C10': Plan('C10', {'run', 'outcome', 'answer', 'kinds', 'ask', 'open', 'disk', 'leak'},
                [(scen.both_ways, ())] * 4 + [(scen.replaced, ())], 150, mbt=BOTH),
    'C11': Plan('C11', {'run', 'outcome', 'kinds', 'ask', 'open', 'answer'},
                [(scen.lifecycle, ()), (scen.lifecycle, ()), (scen.kinds, ())], 180, mbt=[LIFET, LIFER]),
    'C12': Plan('C12', ANSWER, [(scen.selection, ())], 160, mbt=[SELECT]),
    'C13': Plan('C13', ANSWER, [(scen.connectivity, ())], 160, mbt=[CONNECT]),
    'C14': Plan('C14', ANSWER, [(scen.noderes, ())], 160, mbt=[NODERES]),
    'C15': Plan('C15', ANSWER, [(scen.elemres, (f, False)) for f in ('beam2', 'thin', 'mix')], 160,
                mbt=[BEAMRES]),
    'C16': Plan('C16', ANSWER, [(scen.elemres, (f, True)) for f in
                                ('beam3', 'thick', 'beams', 'mixthick')], 160,
                mbt=[THICKRES]),
    'C17': Plan('C17', ANSWER, [(scen.rescases, ())], 160, mbt=[CASES]),
    'C18': Plan('C18', ANSWER, [(scen.transforms, ())], 200, mbt=[PLACET, PLACER]),
    'C19': Plan('C19', ANSWER, [(scen.hydro_response, ())], 200, mbt=[WAVES]),
    'C20': Plan('C20', ANSWER, [(scen.hydro_system, ())], 200, mbt=[HYDROS]),
    'C21': Plan('C21', ANSWER, [(scen.props, ())], 200, mbt=[SECTIONS]),
    'C22': Plan('C22', {'run', 'answer', 'args', 'disk', 'open'}, [(scen.repeated, ())] * 4 + [(scen.replaced, ())], 150, mbt=SESSIONS),
    'C23': Plan('C23', {'run', 'order', 'doc', 'args'}, [(calcs.vtu_case, ())], 1800,
                mbt=[VTU]),
    'C26': Plan('C26', {'run', 'outcome', 'export', 'args'}, [(scen.export, ())], 200, mbt=EXPORTS),
    'C24': Plan('C24', {'run', 'calc', 'single', 'args'}, [(calcs.calc_case, ())], 2000, mbt=[STRESS]),
    'C25': Plan('C25', {'run', 'calc', 'single', 'args'}, [(calcs.pairs_case, ())], 1200, mbt=[PAIRS]),
}
