"""iterators obey the iterator protocol: G01"""
import importlib, re
from .. import ir
from ..spec import Checker
from .cst import witnesses

STEP = re.compile(r'^h_[a-z]?(inc|dec)(r|p)?$|^h_[a-z]?(eq|ne|diff|minus|sub)$|^h_[a-z]?(deref|arrow)$|^h_(conv|begin|end|r?c?c?r?begin|r?c?c?r?end|before_begin|cbefore_begin|ccbefore_begin)$')


class Everything:
    def __contains__(self, x):
        return True

    def __and__(self, o):
        return o


ENDS = re.compile(r'^h_[rc]*(begin|end)$')


class Only(Checker):
    """the scenarios of another check that concern iterators"""
    def __init__(self, ck, pid, pattern=STEP):
        super().__init__(pid, (), ck.verbose)
        self.tags = Everything()
        self.ran = set()
        self.pattern = pattern

    def run(self, scenario, mod, entry, st, args, models, allow=()):
        if not self.pattern.match(entry):
            return []
        self.ran.add(entry)
        return super().run(scenario, mod, entry, st, args, models, allow)


def take(ck, f, name, least):
    for attr in ('obl', 'proved', 'loops', 'accel', 'insns'):
        setattr(ck, attr, getattr(ck, attr) + getattr(f, attr))
    ck.functions |= f.functions
    ck.lines |= f.lines
    ck.findings += f.findings
    ck.undecided += f.undecided
    ck.scen += f.scen
    if ck.verbose:
        print(name, sorted(f.ran), f.obl)
    if len(f.ran) < least:
        raise ir.Broken('%s: only %d iterator operations were analysed' % (name, len(f.ran)))


def run(ck):
    witnesses(ck, 'itr.cpp', 'iterator types', 100)
    for m, pid, least in (('lst', 'L01', 15), ('lst', 'F01', 10), ('deq', 'D02', 15), ('vec', 'V02', 2), ('str', 'S02', 2)):
        f = Only(ck, pid, ENDS if m in ('vec', 'str') else STEP)
        importlib.import_module('sa.adts.' + m).run(f)
        take(ck, f, pid, least)
    tre = importlib.import_module('sa.adts.tre')
    for name in ('set', 'map'):
        f = Only(ck, 'T03')
        X = tre.Tre(f, name)
        tre.iterators(f, X)
        tre.observers(f, X)
        take(ck, f, name, 6)
