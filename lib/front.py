"""Driving the front end of the real tool and writing what it did as events for FrontTrace.tla."""
import json, os, re, tempfile
from common import *
from manyrun import many

LINES = ('F|%%func_symbol%%|%%type%%|%%args%%|%%param_names%%|%%return%%\n'
         'O|%%obj_symbol%%|%%obj_type%%\n')


def static_tool():
    return build_tool(flags=('-O1', '-static'), tag="static")


_tpl = None


def tpl_dir():
    global _tpl
    if _tpl is None:
        d = sub('fronttpl')
        for f in ('license.h', 'filename_macros.h', 'common.h', 'common.c', 'c.c', 'C.h', 'C.c', 'cxx.hpp', 'plugin.h', 'plugin.c',
                  'minimal.h', 'minimal_cxxeh.hpp'):
            open(os.path.join(d, f), 'w').close()
        with open(os.path.join(d, 'c.h'), 'w') as f:
            f.write(LINES)
        _tpl = d
    return _tpl


TOK = re.compile(rb'\.\.\.|[A-Za-z0-9_]+|[^\sA-Za-z0-9_]')


def toks(b):
    return [t.decode('latin-1') for t in TOK.findall(b)]



def parse_out(so):
    """-> fn, ob, td, inc, other lines"""
    fn, ob, td, inc = [], [], [], []
    for l in so.split(b'\n'):
        if l.startswith(b'F|'):
            p = l.split(b'|')
            if len(p) != 6:
                p = [b'F', b'?'] + [b''] * 4
            fn.append({'name': p[1].decode('latin-1'), 'type': toks(p[2]), 'args': toks(p[3]),
                       'pn': [x for x in toks(p[4]) if x != ','], 'ret': p[5].decode('latin-1').strip()})
        elif l.startswith(b'O|'):
            p = (l.split(b'|') + [b'', b''])[:3]
            ob.append({'name': p[1].decode('latin-1'), 'type': toks(p[2])})
        elif l.startswith(b'typedef '):
            td.append(toks(l[8:].rstrip().rstrip(b';')))
        elif l.startswith(b'#include "'):
            inc.append(l[10:-1].decode('latin-1'))
    return fn, ob, td, inc


def missing(se):
    """the symbols an error message lists as missing"""
    m = se.split(b'following symbols were not found:', 1)
    return [] if len(m) == 1 else [x.decode('latin-1') for x in re.findall(rb'[A-Za-z0-9_]+', m[1])]


ATOMS = [b' ', b'/', b'*', b'#', b"'", b'"', b'\\', b'int a(void)', b'int b', b';', b'{', b'}', b'struct', b'typedef', b'%option ', b'%', b'include=x', b'x.',
         b'.', b'(', b',', b'extern ', b'1', b'\n', b'\r\n', b'\t', b'\\\n', b'\\ \n', b'\xef\xbb\xbf', b'\x0b', b'\\\x0c\n', b'\\\n\\\n', b'"\\\\"', b'"a\\"', b"'\\''", b'*\\\n\\\r\n/']


class Case:
    """one input with a selection and a parameter mode"""
    __slots__ = ('text', 'p', 'sy', 'mode', 'note')

    def __init__(self, text, p=(), sy=(), mode='skip', note=''):
        self.text = text if isinstance(text, bytes) else text.encode('latin-1')
        self.p, self.sy, self.mode, self.note = list(p), list(sy), mode, note

    def args(self):
        a = ['-format=C', '-templates-path=' + tpl_dir(), '-param=' + self.mode]
        a += ['-P' + x for x in self.p] + ['-S' + x for x in self.sy]
        return a + ['-']


def judge_cases(tool, cases, ck, what, jobs=JOBS, event=None, module='FrontTrace'):
    """run all cases, let TLC judge them, report; returns the results"""
    res = many(tool, [(c.args(), c.text) for c in cases])
    ev = []
    for c, r in zip(cases, res):
        if crash(r[0]):
            ck.violation('crash ' + repr(c.text[:80]), f'{what}: the tool ' + ('was too slow' if r[0] == -14 else f'ended with status {r[0]}'),
                         {'input': c.text.decode('latin-1'), 'args': c.args()[2:], 'status': r[0], 'stderr': r[2][-300:].decode('latin-1')})
    ok = [i for i in range(len(cases)) if not crash(res[i][0])]
    ev = [(event or globals()['event'])(cases[i], res[i]) for i in ok]
    bad, n = judge(ev, module, jobs=jobs)
    for k, why in sorted(bad, key=lambda b: len(ev[b[0]]['s']))[:20]:
        c, r, e = cases[ok[k]], res[ok[k]], ev[k]
        ck.violation(why + ' ' + repr(c.text[:80]), f'{what}: {why}: input {c.text[:200]!r} options {" ".join(c.args()[2:])}',
                     {'input': c.text.decode('latin-1'), 'args': c.args()[2:], 'reason': why, 'status': r[0],
                      'stderr': r[2][-300:].decode('latin-1'), 'functions': e['fn'], 'objects': e['ob'], 'typedefs': e['td']})
    return res, ev, len(bad)


def crash(st):
    return st < 0 or st not in (0, 1)


def event(c, res):
    st, so, se = res
    fn, ob, td, inc = parse_out(so) if st == 0 else ([], [], [], [])
    return {'s': c.text.decode('latin-1'), 'cs': list(c.text), 'p': c.p, 'sy': c.sy, 'mode': c.mode,
            'st': 0 if st == 0 else 1, 'msg': bool(se.strip()), 'miss': missing(se), 'inc': inc, 'fn': fn, 'ob': ob, 'td': td}


CFG = 'SPECIFICATION Spec\nPOSTCONDITION Complete\n'


def judge(events, module='FrontTrace', jobs=JOBS, heap='2g', timeout=850):
    """-> list of (index, reason); number of events judged"""
    if not events:
        return [], 0
    n = max(1, min(jobs, len(events) // 200 + 1))
    chunks = [list(range(k, len(events), n)) for k in range(n)]

    def one(idx):
        fd, path = tempfile.mkstemp(suffix='.ndjson', dir=scratch())
        with os.fdopen(fd, 'w') as f:
            for i in idx:
                f.write(json.dumps(events[i]) + '\n')
        rc, out = tlc(module, CFG, env={'TRACE': path}, heap=heap, timeout=timeout)
        os.unlink(path)
        gen_, dist = tlc_numbers(out)
        if rc or dist != len(idx) + 1:
            raise Broken(f'{module}: TLC stopped (rc {rc}, {dist} of {len(idx) + 1}): ' + out[-1500:])
        bad = []
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
            bad.append((idx[int(m.group(1)) - 1], m.group(2)))
        return bad
    bad = [x for r in pmap(one, chunks, jobs) for x in r]
    return sorted(set(bad)), len(events)
