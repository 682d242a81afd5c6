"""Second opinion (thorough tier): obligations discharged by z3 are handed to
cvc5 as SMT-LIB text.  `unsat` counts as agreement, `sat` is a disagreement
between the two back ends and makes the obligation unknown, anything else is a
time out of cvc5 and leaves the verdict of z3."""
import subprocess
import z3

from . import theory
from .prover import is_quant


class Cross:
    def __init__(self, limit_ms=3000, most=150):
        self.limit, self.most = limit_ms, most
        self.n = dict(agree=0, unknown=0, disagree=0, skipped=0)
        self.bad = []

    def __call__(self, o, hyps, f):
        if not isinstance(f, z3.ExprRef) or sum(self.n.values()) >= self.most:
            self.n['skipped'] += 1
            return
        ground = [h for h in hyps if not is_quant(h)]
        r = 'unknown'
        for hs in ([ground, list(hyps)] if len(ground) < len(hyps) else [ground]):
            r = self.ask(list(hs) + [z3.Not(f)])
            if r == 'unsat':
                break
        if r == 'unsat':
            self.n['agree'] += 1
        elif r == 'sat':
            self.n['disagree'] += 1
            self.bad.append(o.label)
            o.status, o.detail = 'unknown', 'cvc5 has a model where z3 has none'
        else:
            self.n['unknown'] += 1

    def ask(self, fs):
        s = z3.Solver()
        s.add(*fs)
        s.add(*theory.axioms(theory.names_in(fs)))
        text = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={self.limit}', '-'],
                               input=text, capture_output=True, text=True,
                               timeout=self.limit / 1000 + 5)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        out = p.stdout.split()
        return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'

    def summary(self):
        return dict(self.n, disagreements=self.bad[:10])
