"""Obligations, verdicts, known findings and evidence of one check."""
import json
import os
import re
import sys
import time
import traceback

from .interp import AbsRaise, Unsupported, OutOfFuel, REPO
from .names import never_defined

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


DEADLINE = 3 * 3600 if os.environ.get('VERIF_TIER') == 'thorough' else 780
ENOUGH = 300 if DEADLINE < 1000 else 2400


def missing_name(where, name):
    """Does the file of `where` (file:function:line) use a name that nothing in it defines?"""
    return never_defined(os.path.join(REPO, str(where).split(':')[0]), str(name))


class Broken(Exception):
    """The analysis itself cannot be carried out (anchor vanished)."""


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.assumptions = list(assumptions)
        self.obls = []
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.functions = set()
        self.notes = []
        self.minimum = 1
        self.broken = None
        self.stmts = set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def obl(self, rule, construct, verdict, detail='', where=''):
        if verdict is False and re.search(r'(?<!\w)TOP(?!\w)', str(detail)):
            verdict = None          # evidence that rests on a value the analysis does not know
        self.obls.append(dict(rule=rule, construct=construct, verdict=verdict, detail=str(detail)[:1500], where=where))
        return verdict

    def saw(self, it):
        """Record what an interpreter run analysed."""
        self.functions |= set(f'{m}:{q}' for m, q in it.fvisited)
        self.stmts |= it.visited

    def pmap(self, fn, tasks):
        """fn(check, *task) for every task, in worker processes; order of obligations is kept."""
        tasks = list(tasks)
        n = min(int(os.environ.get('VERIF_JOBS', '0') or 0) or os.cpu_count() or 1, len(tasks))
        if n <= 1:
            for t in tasks:
                fn(self, *t)
            return
        import multiprocessing as mp
        chunk = max(1, len(tasks) // (n * 6))
        parts = [tasks[i:i + chunk] for i in range(0, len(tasks), chunk)]
        global _JOB
        _JOB = (fn, self)
        with mp.get_context('fork').Pool(n) as pool:
            res = pool.imap(_work, parts)
            for k in range(len(parts)):
                left = (DEADLINE if not any(o['verdict'] is False for o in self.obls) else ENOUGH) - (time.time() - self.t0)
                try:
                    o, f, s, nt, br = res.next(max(left, 1))
                except mp.TimeoutError:
                    self.notes.append(f'stopped after {time.time() - self.t0:.0f} s with {len(parts) - k} of {len(parts)} parts not analysed')
                    self.obls += [dict(rule='analysis within the time limit', construct=f'part {q}', verdict=None, detail='', where='')
                                  for q in range(k, len(parts))]
                    pool.terminate()
                    return
                self.obls += o
                self.functions |= f
                self.stmts |= s
                self.notes += nt
                if br:
                    raise Broken(br)

    class _Guard:
        def __init__(self, ck, rule, construct, on_raise):
            self.ck, self.rule, self.construct, self.on_raise = ck, rule, construct, on_raise

        def __enter__(self):
            return self

        def __exit__(self, t, e, tb):
            if t is None:
                return False
            if issubclass(t, AbsRaise):
                on = self.on_raise
                if on is None and e.exc == 'NameError' and e.eargs and missing_name(e.where, e.eargs[0]):
                    on = False
                self.ck.obl(self.rule, self.construct, on,
                            f'evaluation raises {e.exc}{e.eargs!r} at {e.where}', e.where or '')
                return True
            if issubclass(t, (Unsupported, OutOfFuel, RecursionError)):
                self.ck.obl(self.rule, self.construct, None, f'not analysable: {t.__name__} {e}')
                return True
            if issubclass(t, LookupError) and 'anchor' in str(e):
                raise Broken(str(e)) from e
            if os.environ.get('VERIF_DEBUG'):
                return False
            if issubclass(t, (Broken, SystemExit, KeyboardInterrupt)):
                return False
            self.ck.obl(self.rule, self.construct, None, f'analysis failed: {t.__name__}: {e} '
                        + traceback.format_exc(limit=-2)[-400:])
            return True

    def guard(self, rule, construct, on_raise=None):
        return Check._Guard(self, rule, construct, on_raise)

    def known(self):
        out = []
        p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
        if os.path.isfile(p):
            for l in open(p, encoding='utf-8'):
                l = l.strip()
                if l.startswith('known: ') and f'property={self.pid} ' in l:
                    key = l.split('key=', 1)[1].split(' ', 1)
                    out.append((key[0], key[1] if len(key) > 1 else ''))
        return out

    @staticmethod
    def key(o):
        return (o['rule'] + '|' + o['construct']).replace(' ', '_')

    def finish(self, maxund=0.34):
        n = len(self.obls)
        bad = [o for o in self.obls if o['verdict'] is False]
        und = [o for o in self.obls if o['verdict'] is None]
        ok = n - len(bad) - len(und)
        known = self.known()
        new, hit = [], {}
        for o in bad:
            k = [x for x in known if x[0] == self.key(o)]
            if k:
                hit[k[0]] = hit.get(k[0], 0) + 1
            else:
                new.append(o)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        rp = os.path.join(ROOT, 'evidence', f'replay-{self.pid}.txt')
        if new:
            with open(rp, 'w', encoding='utf-8') as f:
                f.write(f'property {self.pid}: {self.rule}\nanalysed tree: {REPO}\n\n')
                for o in new:
                    f.write(f"rule {o['rule']}\nconstruct {o['construct']}\nwhere {o['where']}\n{o['detail']}\n\n")
        elif os.path.exists(rp):
            os.remove(rp)
        rules = {}
        for o in self.obls:
            r = rules.setdefault(o['rule'], dict(obligations=0, discharged=0, undecided=0))
            r['obligations'] += 1
            r['discharged'] += o['verdict'] is True
            r['undecided'] += o['verdict'] is None
        ev = dict(
            property=self.pid, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick', seed=self.seed,
            level='other', violations=len(new), wall_s=round(time.time() - self.t0, 3),
            assumptions=self.assumptions,
            coverage=dict(
                explanation=self.rule, obligations=n, discharged=ok, undecided=len(und),
                rules=rules, functions_analysed=len(self.functions), functions=sorted(self.functions),
                statements_analysed=len(self.stmts),
                constructs=sorted({o['construct'] for o in self.obls})[:400],
                undecided_list=[f"{o['rule']} {o['construct']}: {o['detail'][:160]}" for o in und][:60],
                samples=[dict(rule=o['rule'], construct=o['construct'], verdict=str(o['verdict'])) for o in self.obls[:8]],
                notes=self.notes))
        with open(os.path.join(ROOT, 'evidence', f'{self.pid}.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1)
        print(f'{self.pid}: {n} obligations, {ok} discharged, {len(und)} undecided, {len(bad)} violated; '
              f'{len(self.functions)} functions; {time.time() - self.t0:.1f}s')
        for o in und[:int(os.environ.get('VERIF_SHOW', '12'))]:
            print(f"  undecided {o['rule']} {o['construct']}: {o['detail'][:300]}")
        for (k, d), c in sorted(hit.items()):
            print(f'KNOWN-FINDING: property={self.pid} {k} {d}')
        if new:
            seen = set()
            for o in new:
                if self.key(o) in seen:
                    continue
                seen.add(self.key(o))
                print(f"  violated {o['rule']} at {o['construct']} {o['where']}: {o['detail'][:400]}")
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        if self.broken:
            print('analysis broken:', self.broken)
            return 2
        if n < self.minimum:
            print(f'analysis broken: {n} obligations, at least {self.minimum} expected')
            return 2
        if und and len(und) > maxund * n:
            print('analysis broken: too many undecided obligations')
            return 2
        return 0


_JOB = None


def _work(part):
    fn, ck = _JOB
    c = Check(ck.pid, ck.rule)
    br = None
    try:
        for t in part:
            t0 = time.time()
            fn(c, *t)
            if os.environ.get('VERIF_TIMES') and time.time() - t0 > 2:
                print(f'{time.time() - t0:.1f}s {str(t)[:200]}', file=sys.stderr)
    except (Broken, LookupError) as e:
        br = f'{type(e).__name__}: {e}'
    except Exception as e:
        br = f'{type(e).__name__}: {e} ' + traceback.format_exc(limit=-3)
    return c.obls, c.functions, c.stmts, c.notes, br


def main(pid, rule, fn, minimum=1, assumptions=(), maxund=0.34):
    ck = Check(pid, rule, assumptions)
    ck.minimum = minimum
    try:
        fn(ck)
    except (Broken, LookupError) as e:
        ck.broken = f'{type(e).__name__}: {e}'
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except Exception as e:  # an internal failure is an error of the check, never a verdict
        ck.broken = f'{type(e).__name__}: {e}\n' + traceback.format_exc(limit=-4)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    sys.exit(ck.finish(maxund))
