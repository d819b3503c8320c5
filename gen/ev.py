"""Shared construction of evaluator suites (sessions judged by FuelTrace)."""
import os
import vlib
CFG = 'SPECIFICATION Spec\nINVARIANT Laws\nPROPERTY StepProperty\nVIEW View\n'
KEYS = ('out', 'ty', 'tx', 'sv', 'exc', 'msg', 'line', 'start', 'stop', 'module', 'stack')

def norm(c):
    """a case: program text, list of texts, or dict(codes, fresh, tracing, files, input, module)"""
    if isinstance(c, str): c = [c]
    if isinstance(c, list): c = dict(codes=c)
    c = dict(dict(codes=[], fresh=False, tracing=False, files={}, input='', module='main', indep=False, expand=False, report='', lib='', fuelpath='', mode='', args=[], compiler='', pure=False, lib21=False), **c)
    if not c['mode']: c['mode'] = 'save' if c['report'] else 'sess'
    return c

def library():
    return open(os.path.join(vlib.REPO, 'Library', 'fuellib.fuel'), encoding='latin-1', newline='').read()

def drive(c):
    c = norm(c)
    r = [('mode', c['mode']), ('module', c['module'])]
    if c['report'] == 'verbose': r.append(('verbose', '1'))
    if c['lib']: r.append(('lib', c['lib']))
    if c['fuelpath']: r.append(('fuelpath', c['fuelpath']))
    if c['expand']: r.append(('expand', '1'))
    if c['fresh']: r.append(('fresh', '1'))
    if c['tracing']: r.append(('tracing', '1'))
    if c['input']: r.append(('input', c['input']))
    r += [('file:' + k, library() if v == '<library>' else v) for k, v in c['files'].items()]
    r += [('code', x) for x in c['codes']]
    r += [('arg', x) for x in c['args']]
    if 'limit' in c: r.append(('limit', str(c['limit'])))
    return r

def record(c, o):
    d = norm(c)
    if d['report']: d['fresh'] = True
    d['compiler'] = o.get('compiler', '')
    d['crash'] = o['crash']
    d['steps'] = o.get('steps', [])
    d['after'] = o.get('files', {})
    if d['lib21']:                   # the library's text is no concern of the specification: it knows what the definitions mean
        d['after'] = {k: '<library>' if k in d['files'] and d['files'][k] == '<library>' and v == library() else v for k, v in d['after'].items()}
    return d

def suite(name, cases, chunk=4000, indep=False):
    """indep: the programs of a case are independent questions (see PassOver in FuelTrace)"""
    cases = [norm(c) for c in cases]
    if indep: cases = [dict(c, indep=True) for c in cases]
    files = any(isinstance(c, dict) and (c.get('files') or c.get('disk')) for c in cases)
    return dict(name=name, module='FuelTrace', cfg=CFG, batch=False, cases=cases, record=record, drive=drive, chunk=chunk)
