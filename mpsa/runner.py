"""Selects cases and variants for a property, explores them in parallel, writes evidence and verdict."""
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback

from . import cases as C

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC_MODULES = ('specs_core', 'specs_struct', 'specs_more', 'specs_algo', 'specs_povm', 'specs_rng', 'specs_opts', 'specs_reject',
                'specs_io', 'specs_utils', 'specs_stats', 'specs_ranks', 'specs_local', 'specs_factory', 'specs_long')
F8, C16, F4, C8 = 'float64', 'complex128', 'float32', 'complex64'


def load_specs():
    for m in SPEC_MODULES:
        if os.path.exists(os.path.join(HERE, 'mpsa', m + '.py')):
            importlib.import_module('mpsa.' + m)


# cases of other properties in which an option with a non-default value decides the outcome
OPTION_CASES = (r'(sumup|dot|partialdot|chain|sandwich|partialtrace|trace|sum|get|axis_iter|diag|prune|transpose|pad_ranks|'
                r'from_array\w*|zero|canonicalize|singularvals|embed_slice|local_sum\w*|inject|pmps_dm_to_array\w*|reductions_\w+|'
                r'svd_(rank|relerr|nocanon)|var_\w+|special_sumup|eig|eig_sum|pmf_as_array|pmf|expectations|'
                r'block_pmfs_\w+|mppovmlist_\w+|mppovm_(embed|block|repeat)|random_\w+|randomized_svd(_rng)?|'
                r'approx_range_finder|matdot_axes|block_diag|truncated_svd|layouts|sample_rng|compression_var_rng|split_sites|'
                r'group_sites|split|localpovm_\w+|lt_\w+|sample\w*|est_\w+|lfun\w*)(\[|$)')


class Variant(object):
    def __init__(self, name, aspect, cf=None, bonds=None, dt=None, regime=None):
        self.name, self.aspect, self.cf, self.bonds, self.dt, self.regime = name, aspect, cf, bonds, dt, regime


def cf_pair(l, r):
    """Every operand claims (l, r), counted from the ends when negative, clipped to its length."""
    def mode(name, L):
        a = l if l >= 0 else L + l
        b = r if r > 0 else L + r
        return (min(max(a, 0), L - 1), min(max(b, 1), L))
    return mode


def cf_per_name(table):
    def mode(name, L):
        m = table.get(name)
        return m(name, L) if m else (0, L)
    return mode


def bonds_const(v):
    return lambda w, name, L: [v] * (L - 1)


def bonds_alt(w, name, L):
    return [1 if i % 2 == 0 else w.dim('%sb%d' % (name, i + 1)) for i in range(L - 1)]


def variants_for(prop, tier):
    """(selector, variants): which cases and under which operand contexts."""
    V = Variant
    th = tier == 'thorough'
    if prop == 'C01':
        vs = [V('none', 'cform', cf_pair(0, 0)), V('left', 'cform', cf_pair(-1, 0)), V('right', 'cform', cf_pair(0, 1)),
              V('mixed', 'cform', cf_pair(1, -1)), V('site1', 'cform', cf_pair(1, 2)),
              V('both1', 'cform', cf_pair(1, 1)), V('all', 'cform', cf_pair(-1, 1)),
              V('left1', 'cform', cf_pair(1, 0)), V('right-1', 'cform', cf_pair(0, -1)),
              V('A-left', 'cform', cf_per_name({'A': cf_pair(-1, 0)})),
              V('AB-opposite', 'cform', cf_per_name({'A': cf_pair(0, 1), 'B': cf_pair(-1, 0)})),
              V('left,bond1', 'cform', cf_pair(-1, 0), bonds_const(1)),
              V('right,bond1', 'cform', cf_pair(0, 1), bonds_const(1))]
        if th:
            vs += [V('2,2', 'cform', cf_pair(2, 2)), V('-2,-1', 'cform', cf_pair(-2, -1)),
                   V('2,3', 'cform', cf_pair(2, 3)), V('all,alt', 'cform', cf_pair(-1, 1), bonds_alt),
                   V('mixed,real', 'cform', cf_pair(1, -1), None, {None: F8}),
                   V('left,real', 'cform', cf_pair(-1, 0), None, {None: F8})]
        return lambda c: 'cform' in c.aspects, vs
    if prop == 'C13':
        vs = [V('none', 'alias'), V('left', 'alias', cf_pair(-1, 0)), V('right', 'alias', cf_pair(0, 1)),
              V('bond1', 'alias', None, bonds_const(1))]
        if th:
            vs += [V('mixed', 'alias', cf_pair(1, -1)), V('real', 'alias', None, None, {None: F8}),
                   V('alt', 'alias', None, bonds_alt)]
        return lambda c: 'alias' in c.aspects, vs
    if prop == 'C18':
        dts = [('A real, B complex', {'A': F8, None: C16}), ('A complex, B real', {'A': C16, None: F8}),
               ('all real', {None: F8}), ('last operand complex', {'C': C16, 'w1': C16, None: F8}),
               ('mixed sites', {None: [F8, C16, F8]}), ('A float64, B complex64', {'A': F8, None: C8}),
               ('A complex64, B float64', {'A': C8, None: F8}), ('only B complex', {'B': C16, None: F8})]
        if th:
            dts += [('mixed sites 2', {None: [C16, F8, F8]}), ('A float32, B complex64', {'A': F4, None: C8}),
                    ('all float32', {None: F4}), ('all complex64', {None: C8}),
                    ('B mixed', {'A': F8, None: [F8, F8, C16]})]
        return lambda c: 'dtype' in c.aspects, [V(n, 'dtype', None, None, d) for n, d in dts]
    if prop == 'C19':
        vs = [V('none', 'rank'), V('left', 'rank', cf_pair(-1, 0)), V('bond1', 'rank', None, bonds_const(1))]
        return lambda c: 'rank' in c.aspects, vs
    if prop == 'C15':
        rx = re.compile(OPTION_CASES)
        return lambda c: bool(rx.match(c.cid)), [V('none', 'value')]
    vs = [V('none', 'value'), V('left', 'value', cf_pair(-1, 0)), V('right', 'value', cf_pair(0, 1)),
          V('mixed', 'value', cf_pair(1, -1)), V('bond1', 'value', None, bonds_const(1)),
          V('real', 'value', None, None, {None: F8}), V('mixed types', 'value', None, None, {None: [F8, C16, F8]})]
    if th:
        vs += [V('alt', 'value', None, bonds_alt), V('left,bond1', 'value', cf_pair(-1, 0), bonds_const(1)),
               V('site1', 'value', cf_pair(1, 2)), V('A real', 'value', None, None, {'A': F8, None: C16}),
               V('mixed types 2', 'value', None, None, {None: [C16, F8]}),
               V('equal dims', 'value', None, None, None, 'eq'), V('right,real', 'value', cf_pair(0, 1), None,
                                                                     {None: F8})]
    return None, vs


class DtMap(dict):
    """Operand name -> dtype; None is the default entry."""

    def get(self, k, d=None):
        if k in self:
            return self[k]
        return dict.get(self, None, d)


LONG = ('none', 'mixed', 'A real, B complex', 'mixed sites')      # contexts for long chains


def jobs_for(prop, tier, only_case=None, only_variant=None):
    sel, vs = variants_for(prop, tier)
    out = []
    for c in C.CASES:
        if c.tier == 'thorough' and tier != 'thorough':
            continue
        few = c.tier == 'long' and tier != 'thorough'
        if only_case and c.cid != only_case:
            continue
        if sel is not None and sel(c):
            for v in vs:
                if not c.variants and v is not vs[0] or few and v.name not in LONG:
                    continue
                if only_variant and v.name != only_variant:
                    continue
                out.append((c, v))
        if c.prop == prop and not (sel is not None and prop == 'C15' and sel(c)):
            own = [Variant('none', 'value')] if (sel is not None or not c.variants) else vs
            for v in own:
                if few and v.name not in LONG:
                    continue
                if only_variant and v.name != only_variant:
                    continue
                out.append((c, v))
    return out


# -- workers ------------------------------------------------------------------------------------
_W = None
_JOBS = None
_OPT = {}


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def _limit():
    """A runaway analysis (e.g. materialising an infinite iterator) ends itself, not the machine."""
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def _explore(w, c, v):
    from .interp import TR
    TR.functions = set()
    w.aspects = {v.aspect}
    w.cfmode = v.cf
    w.bondmode = v.bonds
    w.dtmap = DtMap(v.dt) if v.dt else {}
    w.regime_default = v.regime
    return w.explore(c.cid, c.fn)


def run_job(i):
    global _W
    from . import world
    from .interp import Anchor, TR
    c, v = _JOBS[i]
    out = dict(i=i, case=c.cid, variant=v.name, aspect=v.aspect, status='undecided', note='', where='', paths=0,
               obligations=0, seconds=0.0, functions=[])
    t0 = time.time()
    try:
        if _W is None:
            _W = world.World(_OPT['root'])
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(_OPT['case_limit'])
        try:
            r = _explore(_W, c, v)
            if (r.status == 'undecided' and v.regime is None and r.note.startswith('not analysable')) or \
                    os.environ.get('MPSA_FORCE_SMALL'):
                # a construct the engine cannot follow for symbolic dimensions: decide it for fixed ones
                first = r
                r = _explore(_W, c, Variant(v.name, v.aspect, v.cf, v.bonds, v.dt, 'small'))
                if r.status == 'violated':
                    r.note += ' [dimensions fixed]'
                elif r.status != 'proved':
                    r = first
            if (r.status == 'violated' and v.aspect == 'dtype' and 'cast to real' not in r.note and
                    'result of dtype' not in r.note):
                # a wrong value that does not depend on the operand types is not a matter of types
                base = _explore(_W, c, Variant(v.name, 'dtype', v.cf, v.bonds, None, v.regime))
                if base.status == 'violated' and r.note.startswith('raises'):
                    base = _explore(_W, c, Variant(v.name, 'dtype', v.cf, v.bonds, {None: F8}, v.regime))
                if base.status == 'violated':
                    r.status, r.note = 'undecided', 'deviates for uniform types as well: ' + base.note
        finally:
            signal.alarm(0)
        out.update(status=r.status, note=r.note, where=r.where, paths=r.paths, obligations=r.obligations,
                   functions=sorted(TR.functions))
    except Timeout:
        out['note'] = 'time limit'
    except Anchor as e:
        out['note'] = str(e)
    except world.AnalysisSignal as e:
        out['note'] = 'not analysable: %s' % e
    except Exception as e:
        out['note'] = 'engine: %s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()[-1500:]
    out['seconds'] = time.time() - t0
    return out


def run_chunk(idx):
    return [run_job(i) for i in idx]


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--variant')
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    global _JOBS
    load_specs()
    from . import evalten
    evalten.BASE_SEED = seed
    _JOBS = jobs_for(a.property, a.tier, a.case, a.variant)
    _OPT.update(root=a.root, case_limit=(90 if len(_JOBS) < 3000 else 20) if a.tier == 'quick' else 300)
    budget = 600 if a.tier == 'quick' else 6 * 3600
    results = []
    order = list(range(len(_JOBS)))
    lint = []
    if not (a.case or a.variant):
        from . import lints
        lint = lints.run(a.property, a.root)
    if a.jobs == 1 or len(order) < 4:
        for i in order:
            results.append(run_job(i))
    else:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(a.jobs, initializer=_limit)
        try:
            n = max(1, min(16, len(order) // (4 * a.jobs)))
            chunks = [order[i:i + n] for i in range(0, len(order), n)]
            it = pool.imap_unordered(run_chunk, chunks)
            for _ in chunks:
                left = budget - (time.time() - t0)
                if left <= 0:
                    break
                try:
                    results.extend(it.next(timeout=left))
                except mp.TimeoutError:
                    break
        finally:
            pool.terminate()
            pool.join()
    results.sort(key=lambda r: r['i'])
    return finish(a, seed, t0, results, lint)


def finish(a, seed, t0, results, lint):
    prop = a.property
    cnt = {}
    funcs = set()
    for r in results:
        cnt[r['status']] = cnt.get(r['status'], 0) + 1
        funcs.update(r['functions'])
    skipped = len(_JOBS) - len(results)
    viol, known = [], []
    findings = [f for f in known_findings() if f.get('status') == 'open' and f['property'] == prop]
    for r in results:
        if r['status'] == 'violated':
            f = next((f for f in findings if re.fullmatch(f['case'], r['case']) and f['match'] in r['note']), None)
            (known if f else viol).append((r, f))
    lviol = []
    for l in lint:
        if l['status'] == 'violated':
            f = next((f for f in findings if re.fullmatch(f['case'], l['case']) and f['match'] in l['note']), None)
            (known if f else lviol).append((l, f))
    if a.verbose:
        for r in results:
            if r['status'] not in ('proved',) and not (r['status'] == 'vacuous' and r['aspect'] != 'value'):
                print(r['case'], '|', r['variant'], '|', r['status'], '|', r['note'][:300], '|', r['where'][:200],
                      '%.1fs' % r['seconds'])
                if 'trace' in r:
                    print(r['trace'])
        for l in lint:
            if l['status'] != 'proved':
                print(l)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    undec = [r for r in results if r['status'] == 'undecided']
    vac = [r for r in results if r['status'] == 'vacuous' and r['aspect'] == 'value']
    decided = [r for r in results if r['status'] in ('proved', 'violated')]
    samples = [dict(case=r['case'], context=r['variant'], rule=r['aspect'], verdict=r['status'],
                    obligations=r['obligations'], paths=r['paths'], functions=r['functions'][:12])
               for r in decided[::max(1, len(decided) // 12)][:14]]
    lints_ok = [l for l in lint if l['status'] == 'proved']
    obligations = sum(r['obligations'] for r in results) + len(lint)
    evidence = dict(
        property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='other',
        coverage=dict(
            explanation='abstract interpretation of /repo/mpnum sources (never imported or executed) over the '
                        'leg-provenance domain; one analysis per operation case and operand context',
            rule='a case is one public operation on abstract operands (symbolic dimensions, arbitrary entries); '
                 'non-trivial: at least one obligation was evaluated on a normally terminating abstract path',
            evaluations=len(results) + len(lint), distinct_nontrivial=len(decided) + len(lint),
            analyses=len(results), abstract_paths=sum(r['paths'] for r in results),
            obligations=obligations,
            discharged=sum(r['obligations'] for r in results if r['status'] == 'proved') + len(lints_ok),
            proved=cnt.get('proved', 0), undecided=len(undec), not_relevant=cnt.get('vacuous', 0) - len(vac),
            vacuous=len(vac), skipped_for_time=skipped, functions_analysed=len(funcs),
            source_rules=len(lint), source_rule_samples=lint[:6],
            undecided_samples=[dict(case=r['case'], context=r['variant'], why=r['note'][:200], where=r['where'][:200])
                               for r in (undec + vac)[:10]],
            functions=sorted(funcs)[:200], samples=samples),
        assumptions=['the numpy/scipy/h5py models in /verif/mpsa/npm.py and models.py describe those libraries',
                     'exact arithmetic; chain lengths, legs per site and option values as enumerated in the cases'],
        wall_s=round(time.time() - t0, 2), violations=len(viol) + len(lviol))
    with open(os.path.join(ev, '%s.json' % prop), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)
    rep = os.path.join(ev, '%s_report.txt' % prop)
    seen = set()
    for r, f in known:
        if f['id'] not in seen:
            seen.add(f['id'])
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    print('%s: %d analyses, %s, %d source rules, %d functions, %d obligations, %.1fs' % (
        prop, len(results), ', '.join('%s %d' % kv for kv in sorted(cnt.items())), len(lint), len(funcs), obligations,
        time.time() - t0))
    if viol or lviol:
        with open(rep, 'w') as fh:
            for r, _ in viol + lviol:
                fh.write('VIOLATED %s\n  case %s, operands: %s\n  %s\n  at %s\n' % (
                    prop, r['case'], r.get('variant', '-'), r['note'], r['where']))
                if 'variant' in r:
                    fh.write("  reproduce: python3-vt check.py %s --case '%s' --variant '%s' --verbose\n" % (
                        prop, r['case'], r['variant']))
        for r, _ in (viol + lviol)[:5]:
            print('  %s [%s]: %s (%s)' % (r['case'], r.get('variant', '-'), r['note'][:300], r['where'][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if os.path.exists(rep):
        os.remove(rep)
    if not decided and not lints_ok:
        print('no case could be analysed')
        for r in results[:5]:
            print('  %s: %s' % (r['case'], r['note']))
        return 2
    return 0
