"""Obligations, verdicts, evidence, replay files."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import harness as hn
from . import terms as T
from .harness import H, Missing, Out
from .prove import same, always, Res, has_unk
from .terms import TRUE, FALSE, band

HERE = hn.HERE


class Rec(dict):
    pass


class Ob:
    """what one obligation worker records"""

    def __init__(self, name, where):
        self.name, self.where = name, where
        self.recs = []
        self.visited = set()
        self.stmts = 0
        self.calls = 0

    def rec(self, what, status, detail='', at=None):
        self.recs.append(dict(what=what, status=status, detail=str(detail)[:1500], at=at or self.where))

    def missing(self, e):
        private = str(e).split('.')[-1].startswith('_')
        self.rec('public name exists: ' + str(e), 'undecided' if private else 'violated', f'{e} is not defined any more')

    def h(self, *a, **k):
        h = H(*a, **k)
        self._hs = getattr(self, '_hs', []) + [h]
        return h

    def fin(self):
        for h in getattr(self, '_hs', []):
            self.visited |= {q for q in h.it.visited if not q.startswith('spec')}
            self.stmts += h.it.visited_stmts
            self.calls += h.it.calls

    def tiers(self, levels, fn):
        """modular analysis first: fn(ob, level) with callees summarised.  If that reports anything (a refactoring may have
        moved the boundary of a summarised function), the next, more transparent level decides."""
        for i, lv in enumerate(levels):
            sub = Ob(self.name, self.where)
            try:
                fn(sub, lv)
            except Missing as e:
                sub.missing(e)
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)
                sub.rec('analysis', 'undecided', f'engine: {type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}')
            self._hs = getattr(self, '_hs', []) + getattr(sub, '_hs', [])
            if i == len(levels) - 1 or all(r['status'] in ('proved', 'known') for r in sub.recs):
                self.recs += sub.recs
                return

    # -------------------------------------------------------------- verdict helpers
    def eq(self, what, a, b, pre=TRUE, at=None, **k):
        """value graphs equal under pre"""
        r = same(a, b, pre, **k)
        self.put(what, r, a, b, at)
        return r

    def eq_known(self, what, a, b, defective, kid, pre=TRUE, at=None, **k):
        """equal to the reference, or exactly the listed defective behaviour"""
        r = same(a, b, pre, **k)
        if r.status != 'proved':
            kf = [x for x in known() if x.get('id') == kid and x.get('status') == 'known']
            if kf and same(a, defective, pre, **k).status == 'proved':
                self.rec(what, 'known', kf[0]['where'] + ': ' + kf[0]['what'], at)
                return r
        self.put(what, r, a, b, at)
        return r

    def put(self, what, r, a=None, b=None, at=None):
        if r.status == 'proved':
            self.rec(what, 'proved', f'{r.steps} steps', at)
        elif r.status == 'differs':
            dt = f'separating valuation {r.info}'
            if a is not None:
                dt += '\n  code: ' + T.show(a)[:400] + '\n  spec: ' + T.show(b)[:400]
            self.rec(what, 'violated', dt, at)
        else:
            self.rec(what, 'undecided', r.info, at)

    def holds(self, what, c, pre=TRUE, at=None, **k):
        r = always(c, pre, **k)
        self.put(what, r, c, TRUE, at)
        return r

    def true(self, what, ok, detail='', at=None):
        self.rec(what, 'proved' if ok else 'violated', detail, at)

    def maybe(self, what, ok, detail='', at=None):
        """ok: True proved / False violated / None undecided"""
        self.rec(what, 'proved' if ok else 'undecided' if ok is None else 'violated', detail, at)

    def returns(self, what, o, pre=TRUE, at=None):
        """the call completes for every input satisfying pre"""
        bad = [e for e in o.events if e.kind in ('typeerror', 'attrnone') and not T.simp(e.pc, pre) is FALSE]
        if o.dead:
            self.rec(what + ': completes', 'violated', 'no path returns; raises ' + ', '.join(sorted({str(e.data) for e in o.events if e.kind == 'raise'})), at)
            return False
        if bad:
            self.rec(what + ': completes', 'undecided', str(bad[0])[:300], at)
        r = always(o.pc, pre)
        self.put(what + ': completes', r, o.pc, TRUE, at)
        return bool(r)

    def noevents(self, what, o, kinds, pre=TRUE, at=None, filt=None):
        """no event of these kinds happens when pre holds"""
        for e in o.events:
            if e.kind not in kinds or (filt and not filt(e)):
                continue
            c = T.band(e.pc, pre)
            if c is FALSE:
                continue
            r = same(e.pc, FALSE, pre)
            if r.status == 'proved':
                continue
            st = 'violated' if r.status == 'differs' else 'undecided'
            self.rec(what, st, f'{e.kind} {str(e.data)[:300]} when {T.show(e.pc)[:300]}', at or str(getattr(e, 'loc', '')) or None)
            return False
        self.rec(what, 'proved', f'{len(o.events)} events')
        return True

    def count(self, what, o, kinds, want, pre=TRUE, filt=None, at=None):
        """the number of events of these kinds equals the term `want`"""
        r = ecount(o.events, kinds, filt)
        if r is None:
            self.rec(what, 'undecided', 'event inside a loop with early exits', at)
            return
        self.eq(what, r, want, band(o.pc, pre), at)

    def fn(self, what, code, spec, mk, pre=TRUE, h=None, sel=None, post=None, at=None, kwspec=None, **k):
        """code(args) == spec(args) for all args built by mk(h) -> (args, kw)"""
        h = h or self.h()
        a, kw = mk(h)
        o = h.call(code, a, kw)
        if not self.returns(what, o, pre, at):
            if o.dead:
                return None
        ve = o.enc if sel is None else h.it.enc(sel(h, o.val))
        a2, kw2 = mk(h)
        s = h.call(spec, a2, kw2)
        se = s.enc
        p = T.band(T.band(pre, o.pc), s.pc)
        self.eq(what, ve, se, p, at, **k)
        return o

    def rejects(self, what, o, pre=TRUE, at=None):
        """the call never returns normally when pre holds"""
        if o.dead or T.band(o.pc, pre) is FALSE:
            self.rec(what, 'proved', 'no path returns', at)
            return
        if has_unk(o.pc):
            self.rec(what, 'undecided', 'return condition unknown: ' + T.show(o.pc)[:200], at)
            return
        r = same(o.pc, FALSE, pre)
        self.put(what, r, o.pc, FALSE, at)


def ecount(events, kinds, filt=None):
    """number of events as a term (sums over the enclosing loops); None when it cannot be counted"""
    tot = T.ZERO
    for e in events:
        if e.kind == 'loop':
            r = ecount(e.loc if False else (e.sub or []), kinds, filt)
            if r is None:
                return None
            if r is T.ZERO:
                continue
            if e.data.get('exits'):
                return None
            tot = T.add(tot, T.ite(e.pc, T.mk_sum([(e.data['t'], e.data['N'])], r), T.ZERO))
        elif e.kind in kinds and (filt is None or filt(e)):
            tot = T.add(tot, T.ite(e.pc, T.ONE, T.ZERO))
    return tot


def walk(events, loops=()):
    """all events with their enclosing loops"""
    for e in events:
        yield e, loops
        if e.kind == 'loop':
            yield from walk(e.sub or [], loops + (e,))


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []

    def add(self, name, where, fn, timeout=None, heavy=False):
        """fn(ob) runs in its own process"""
        self.obs.append((name, where, fn, timeout, heavy))

    @property
    def thorough(self):
        return self.tier == 'thorough'


def _work(name, where, fn, conn):
    o = Ob(name, where)
    t0 = time.time()
    try:
        fn(o)
    except Missing as e:
        o.missing(e)
    except MemoryError:
        o.rec('analysis', 'undecided', 'out of memory')
    except RecursionError:
        o.rec('analysis', 'undecided', 'recursion limit')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        o.rec('analysis', 'undecided', f'engine: {type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}')
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    try:
        o.fin()
    except Exception:
        pass
    conn.send(dict(name=name, where=where, recs=o.recs, visited=sorted(o.visited), stmts=o.stmts, calls=o.calls, s=round(time.time() - t0, 2)))
    conn.close()


def run(chk, jobs=None, deadline=None):
    jobs = jobs or min(8, os.cpu_count() or 4)
    t0 = time.time()
    deadline = deadline or (600 if chk.tier == 'quick' else 800)
    hn.repo()
    ctx = mp.get_context('fork')
    pend = sorted(chk.obs, key=lambda x: not x[4])
    live = []
    done = []
    while pend or live:
        if deadline == 0:
            pend = []
        while pend and len(live) < jobs:
            name, where, fn, to, heavy = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(name, where, fn, b))
            p.start()
            b.close()
            live.append((p, a, name, where, time.time(), to or 400))
        nl = []
        for (p, a, name, where, ts, to) in live:
            got = False
            try:
                if a.poll(0.01):
                    done.append(a.recv())
                    got = True
            except EOFError:
                done.append(dict(name=name, where=where, recs=[dict(what='analysis', status='undecided', detail='worker died', at=where)], visited=[], stmts=0, calls=0, s=round(time.time() - ts, 2)))
                got = True
            if got and os.environ.get('VERIF_FAST') and any(r['status'] == 'violated' for r in done[-1]['recs']):
                deadline = 0
            if got:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
            elif time.time() - ts > to or time.time() - t0 > deadline:
                p.kill()
                p.join()
                a.close()
                done.append(dict(name=name, where=where, recs=[dict(what='analysis', status='undecided', detail='time budget', at=where)], visited=[], stmts=0, calls=0, s=round(time.time() - ts, 2)))
            else:
                nl.append((p, a, name, where, ts, to))
        live = nl
    done.sort(key=lambda x: x['name'])
    return done, time.time() - t0


def known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def main(pid, builder, tier, seed, level, technique, note):
    chk = Check(pid, tier, seed)
    builder(chk)
    done, wall = run(chk)
    kf = [x for x in known() if x.get('property') == pid and x.get('status') == 'known']
    nproved = nviol = nund = 0
    viol, und, kfound = [], [], []
    visited = set()
    stmts = calls = 0
    for d in done:
        visited |= set(d['visited'])
        stmts += d['stmts']
        calls += d['calls']
        for r in d['recs']:
            if r['status'] == 'proved':
                nproved += 1
            elif r['status'] == 'known':
                kfound.append((d, r))
            elif r['status'] == 'violated':
                viol.append((d, r))
            else:
                und.append((d, r))
    evd = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    rp = os.path.join(evd, f'{pid}.replay.txt')
    errs = [x for x in hn.repo().errors if '/spec/' not in x[0]]
    total = nproved + len(viol) + len(und) + len(kfound)
    out = 0
    if viol or errs:
        out = 1
        with open(rp, 'w') as f:
            f.write(f'property {pid}: {len(viol)} violated obligation(s)\nre-run: cd {HERE} && python3 run.py {pid} --tier {tier}\n\n')
            for e in errs:
                f.write(f'does not parse: {e}\n')
            for d, r in viol:
                f.write(f'obligation {d["name"]} | {r["what"]}\n  construct: {r["at"]}\n  {r["detail"]}\n\n')
    elif os.path.exists(rp):
        os.remove(rp)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(wall, 2), 'violations': len(viol) + len(errs),
        'coverage': {
            'explanation': note,
            'rule': technique,
            'obligations': total, 'discharged': nproved, 'undecided': len(und), 'known_findings': len(kfound),
            'checker_cmd': f'python3 run.py {pid} --tier {tier}',
            'trusted_base': ['sa/ (abstract interpreter, term normaliser, library models)', 'spec/ (reference definitions)', 'CPython ast parser'],
            'functions_analysed': sorted(visited), 'functions_analysed_count': len(visited),
            'statements_interpreted': stmts, 'call_sites_resolved': calls,
            'units': [dict(name=d['name'], where=d['where'], seconds=d['s'], proved=sum(r['status'] == 'proved' for r in d['recs']), rules=[r['what'] for r in d['recs']][:60]) for d in done],
            'undecided_list': [f'{d["name"]} | {r["what"]} | {r["detail"]}'[:400] for d, r in und],
            'violations_list': [f'{d["name"]} | {r["what"]} | {r["at"]}'[:400] for d, r in viol],
        },
    }
    with open(os.path.join(evd, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for t in sorted({r['detail'] for d, r in kfound}):
        print(f'KNOWN-FINDING: property={pid} {t}')
    print(f'{pid}: {total} obligations, {nproved} proved, {len(und)} undecided, {len(viol)} violated, {len(visited)} functions, {wall:.1f}s')
    for d, r in und[:20]:
        print(f'  undecided: {d["name"]} | {r["what"]} | {r["detail"][:200]}')
    for d, r in viol[:20]:
        print(f'  violated: {d["name"]} | {r["what"]} | {r["at"]}')
        print('    ' + r['detail'][:600].replace('\n', '\n    '))
    if out:
        print(f'VIOLATION property={pid} replay={rp}')
    return out
