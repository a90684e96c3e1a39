"""Obligations, evidence, violations and known findings."""
import json
import os
import sys
import time
import traceback

from .program import AnchorMissing
from .engine import TooComplex

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.proved = []        # (rule, where, n)
        self.refuted = []       # (rule, where, key, detail)
        self.unknown = []       # (rule, where, why)
        self.rules = {}
        self.assumptions = []
        self.analysed = {}      # label -> count or list
        self.minimum = {}
        self.functions = set()

    # ------------------------------------------------------------ recording
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, where, n=1):
        self.proved.append((rule, str(where), n))

    def bad(self, rule, where, detail, key=None):
        item = (rule, str(where), key or '', detail)
        if item not in self.refuted:
            self.refuted.append(item)

    def unk(self, rule, where, why):
        item = (rule, str(where), str(why))
        if item not in self.unknown:
            self.unknown.append(item)

    def check(self, cond, rule, where, detail, key=None):
        """True: discharged; False: refuted; None: undecided"""
        if cond is None:
            self.unk(rule, where, detail)
        elif cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, detail, key)
        return cond

    def count(self, label, n=1):
        self.analysed[label] = self.analysed.get(label, 0) + n

    def section(self, name, f, *args):
        """run one group of obligations; an analysis that does not apply to the code any more
        leaves its obligations undecided"""
        try:
            return f(*args)
        except AnchorMissing as e:
            self.unk(name, 'anchor', 'not found: %s' % e)
        except TooComplex as e:
            self.unk(name, 'analysis', 'outside the abstraction: %s' % e)
        except RecursionError:
            self.unk(name, 'analysis', 'recursion limit')
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unk(name, 'analysis', 'analysis error %s: %s (%s:%s)' % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))

    # ------------------------------------------------------------ outcome
    def finish(self, technique):
        known = load_known(self.pid)
        viol, knownhits = [], []
        for rule, where, key, detail in self.refuted:
            fn = where.split(' in ')[-1]
            hit = None
            for k in known:
                if k['rule'] == rule and k['where'] == fn and (k['key'] == key or k['key'] == '*'):
                    hit = k
                    break
            (knownhits if hit else viol).append((rule, where, key, detail, hit))
        nproved = sum(n for _, _, n in self.proved)
        byrule = {}
        for r, w, n in self.proved:
            byrule.setdefault(r, {'discharged': 0, 'undecided': 0, 'refuted': 0})['discharged'] += n
        for r, w, y in self.unknown:
            byrule.setdefault(r, {'discharged': 0, 'undecided': 0, 'refuted': 0})['undecided'] += 1
        for r, w, k, d in self.refuted:
            byrule.setdefault(r, {'discharged': 0, 'undecided': 0, 'refuted': 0})['refuted'] += 1
        replay = None
        if viol:
            rd = os.path.join(VERIF, 'replay')
            os.makedirs(rd, exist_ok=True)
            replay = os.path.join(rd, self.pid + '.txt')
            with open(replay, 'w') as f:
                f.write('property %s\nreproduce: python3 /verif/check.py %s --tier %s\n\n' % (self.pid, self.pid, self.tier))
                for rule, where, key, detail, _ in viol:
                    f.write('rule     %s%s\nwhere    %s\nproblem  %s\n\n' % (
                        rule, (': ' + self.rules[rule]) if rule in self.rules else '', where, detail))
        cov = {
            'explanation': 'Static analysis of the current source of pdfme (parsed on this run, not executed). '
                           'Each obligation is one construct (function partition, call site, table entry, write or '
                           'path) to which a rule is applied; it is discharged, refuted (a violation naming the '
                           'construct) or undecided (reported here, never as a violation).',
            'technique': technique,
            'obligations_discharged': nproved,
            'obligations_undecided': len(self.unknown),
            'obligations_refuted': len(self.refuted),
            'by_rule': byrule,
            'rules': self.rules,
            'analysed': self.analysed,
            'functions_analysed': sorted(self.functions),
            'sites': sorted({w for _, w, _ in self.proved})[:200],
            'undecided': [{'rule': r, 'where': w, 'why': y} for r, w, y in self.unknown][:80],
            'known_findings': ['%s %s %s' % (r, w, d) for r, w, k, d, h in knownhits],
        }
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other', 'coverage': cov, 'assumptions': self.assumptions or ['see DESIGN.md'],
            'wall_s': round(time.time() - self.t0, 3),
            'violations': [{'rule': r, 'where': w, 'detail': d} for r, w, k, d, _ in viol],
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations discharged, %d undecided, %d refuted (%.2fs)' % (
            self.pid, nproved, len(self.unknown), len(self.refuted), time.time() - self.t0))
        if os.environ.get('VERIF_VERBOSE'):
            for r, w, y in self.unknown:
                print('  undecided %s @ %s: %s' % (r, w, y))
        for rule, where, key, detail, hit in knownhits:
            print('KNOWN-FINDING: property=%s %s at %s: %s' % (self.pid, rule, where, detail))
        for rule, where, key, detail, _ in viol:
            print('  [%s] %s: %s' % (rule, where, detail))
        if viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        if nproved == 0:
            print('no obligation could be decided')
            return 2
        return 0


def load_known(pid):
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith('known: '):
            continue
        d = {}
        body = line[len('known: '):]
        for part in body.split(' | ')[0].split():
            if '=' in part:
                k, v = part.split('=', 1)
                d[k] = v
        if d.get('property') == pid:
            d.setdefault('key', '*')
            out.append({'rule': d.get('rule'), 'where': d.get('where'), 'key': d['key']})
    return out
