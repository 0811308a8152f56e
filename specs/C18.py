"""Parameter containers behave as the flat vector of their scalars."""
from vf.terms import *
from vf.run import FnUnit

LEVEL = 'proof'
FUNCTIONS = ['params_trait<T>::PlusEq', 'params_trait<T>::dims', 'params_trait<T>::cast', 'DynDims']
ASSUMPTIONS = ['single precision conversion is the identity over the reals']

UPD = dict(scalar=(1, 1), vec3=(3, 3), vecx=(3, -1), mat23=(6, 6), matx=(6, -1), arr=(3, 3), arr_v2=(6, 6), arr_vx=(6, -1), vector=(3, -1),
           vector_v2=(6, -1), vector_vx=(5, -1), pair=(5, 5), pair_s=(4, 4), pair_s2=(3, 3), pair_same=(4, 4), pair_x1=(4, -1), pair_x2=(5, -1),
           pair_xx=(5, -1), pair_mat=(8, 8), nested=(7, 7), nested2=(8, 8), nested3=(6, -1), user3=(3, 3), userx=(2, -1), arr_user3=(6, 6), pair_user=(5, 5))
CST = dict(scalar=(1, 1), vec3=(3, 3), mat23=(6, 6), matx=(6, -1), arr=(3, 3), arr_v2=(6, 6), arr_vx=(6, -1), vector=(3, -1), vector_vx=(5, -1),
           pair=(5, 5), pair_xs=(3, -1), nested=(7, 7), user_m=(2, 2), user_s=(2, 2), user_xm=(2, -1))


def upd(n, dd):
    def f(i, o):
        return [('entry %d moves by its own step' % k, req(o[k], i[k] + i[n + k])) for k in range(n)] + \
            [('dimension', req(o[n], n)), ('compile-time dimension', req(o[n + 1], dd)), ('number of scalars', req(o[2 * n + 2], n))] + \
            [('opposite step returns %d' % k, req(o[n + 2 + k], i[k])) for k in range(n)]
    return f


def cst(n, dd):
    def f(i, o):
        return [('value %d' % k, req(o[k], i[k])) for k in range(n)] + \
            [('number of scalars', req(o[n], n)), ('dimension kept', req(o[n + 1], dd)), ('dimension', req(o[n + 2], dd))]
    return f


def units(tier):
    us = [FnUnit('params.cpp', 'h_upd_' + k, 2 * n, 2 * n + 3, None, upd(n, d), nsamples=500) for k, (n, d) in UPD.items()]
    us += [FnUnit('params.cpp', 'h_cst_' + k, n, n + 3, None, cst(n, d), nsamples=500) for k, (n, d) in CST.items()]
    return us
