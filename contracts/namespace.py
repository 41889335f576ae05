"""src/namespace.cc: one namespace per instance of the top of the symbol table"""
import z3
from hvc.contract import Contract, Assumed, Pure, Havoc, NoEffect, Loop, Cx
from hvc.sym import Val, Iter, PtrTo, PyObj, Temp, Local, Unsupported
from .common import *

SRC = 'src/namespace.cc'
MODE = 'int'
M = 'hgdb::DebuggerNamespaceManager'
N = 'hgdb::DebuggerNamespace'
R = 'hgdb::RTLSimulatorClient'


class Tokens(Pure):
    name = 'hgdb::util::get_tokens'


def all_(cx, st=None):
    return cx.my('namespaces_', st)


def mapped(cx, st=None):
    return cx.my('mapped_namespaces_', st)


def inv(cx, st=None):
    i = I('i')
    v = all_(cx, st)
    al = cx.ex.allocd(st or cx.st)
    e = lambda i: cx.el(v, i)
    rtl = lambda i: cx.fld(e(i), N, 'rtl', st)
    return [('namespaces', fa([i], IMP(AND(i >= 0, i < cx.len(v)), AND(e(i) > 0, SEL(al, e(i)), rtl(i) > 0, SEL(al, rtl(i)))), e(i)))]


class DefaultNs(Contract):
    name = M + '::default_namespace'

    def pre(self, cx):
        return inv(cx)

    def post(self, cx):
        v = all_(cx)
        return [('the-first', cx.ret.t == z3.If(cx.len(v) == 0, z3.IntVal(0), cx.el(v, z3.IntVal(0))))]


class DefaultRtl(Contract):
    name = M + '::default_rtl'

    def pre(self, cx):
        return inv(cx)

    def post(self, cx):
        v = all_(cx)
        return [('of-the-first', cx.ret.t == z3.If(cx.len(v) == 0, z3.IntVal(0), cx.fld(cx.el(v, z3.IntVal(0)), N, 'rtl')))]


class Get(Contract):
    """the namespaces of the definition that the instance name starts with"""
    name = M + '::get_namespaces'

    def post(self, cx):
        ex = cx.ex
        a = cx.arg(0)
        toks = ex.uf('pure:hgdb::util::get_tokens', ex.Str, ex.Str, ex.sort(('vec', ('str',))))(cx.val(a), ex.lit('.'))
        d = cx.el(toks, z3.IntVal(0))
        m = mapped(cx, cx.old)
        known = AND(cx.has(a), cx.len(toks) > 0, cx.has(m, d))
        r = cx.ret.t
        return [('of-its-top', IMP(known, r == cx.val(m, d))), ('none-otherwise', IMP(NOT(known), cx.len(r) == 0))]


class Compute(Contract):
    """every namespace is listed under its definition, once, in order"""
    name = M + '::compute_mapping'

    def pre(self, cx):
        s = z3.Const('s', cx.ex.Str)
        return inv(cx) + [('nothing-mapped-yet', fa([s], NOT(cx.has(mapped(cx), s)), cx.has(mapped(cx), s)))]

    def modifies(self, cx):
        return [('field', cx.thisref, M, 'mapped_namespaces_')]

    @staticmethod
    def listed(cx, n, st0):
        """mapped_namespaces_ holds exactly the first n namespaces"""
        v = all_(cx, st0)
        m = mapped(cx)
        i, j, s = I('i'), I('j'), z3.Const('s', cx.ex.Str)
        d = lambda x: cx.fld(x, N, 'def_name', st0)
        l = lambda s: cx.val(m, s)
        return [('all', fa([i], IMP(AND(i >= 0, i < n), AND(cx.has(m, d(cx.el(v, i))), z3.Exists([j], AND(j >= 0, j < cx.len(l(d(cx.el(v, i)))), cx.el(l(d(cx.el(v, i))), j) == cx.el(v, i))))), cx.el(v, i))),
                ('only', fa([s, j], IMP(AND(cx.has(m, s), j >= 0, j < cx.len(l(s))), AND(d(cx.el(l(s), j)) == s, z3.Exists([i], AND(i >= 0, i < n, cx.el(v, i) == cx.el(l(s), j))))), cx.el(l(s), j)))]

    def post(self, cx):
        return self.listed(cx, cx.len(all_(cx, cx.old)), cx.old)

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        return Compute.listed(cx, L.idx, L.old)
    loops = [Loop(_inv)]


class LookUp(Contract):
    """the namespace whose instance has that full name"""
    name = M + '::look_up'

    def pre(self, cx):
        i = I('i')
        v = all_(cx)
        mp = lambda i: cx.ex.acc(cx.fld(cx.fld(cx.el(v, i), N, 'rtl'), R, 'hierarchy_name_prefix_map_'), 1)
        return inv(cx) + [('prefixes-end-in-a-dot', fa([i], IMP(AND(i >= 0, i < cx.len(v)), cx.ex.slen(mp(i)) >= 1), cx.el(v, i)))]

    @staticmethod
    def match(cx, i, st):
        ex = cx.ex
        v = all_(cx, st)
        p = ex.acc(cx.fld(cx.fld(cx.el(v, i), N, 'rtl', st), R, 'hierarchy_name_prefix_map_', st), 1)
        return cx.arg(0, st) == ex.uf('substr', ex.Str, ex.size, ex.size, ex.Str)(p, z3.IntVal(0), ex.slen(p) - 1)

    def post(self, cx):
        i = I('i')
        v = all_(cx)
        n = cx.len(v)
        r = cx.ret.t
        return [('matches', IMP(r != 0, z3.Exists([i], AND(i >= 0, i < n, cx.el(v, i) == r, self.match(cx, i, cx.st))))),
                ('none-only-if-none', IMP(r == 0, fa([i], IMP(AND(i >= 0, i < n), NOT(self.match(cx, i, cx.st))), cx.el(v, i))))]

    def _inv(L):
        cx = Cx(L.ex, L.st, L.old, L.this, L.args)
        i = I('i')
        return [('none-so-far', fa([i], IMP(AND(i >= 0, i < L.idx), NOT(LookUp.match(cx, i, L.old))), cx.el(all_(cx, L.old), i)))]
    loops = [Loop(_inv)]


CONTRACTS = [DefaultNs(), DefaultRtl(), Get(), Compute(), LookUp()]
SPECS = [Tokens()]
HOOKS = {}
