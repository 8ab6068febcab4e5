"""Automata seen through their public interface: comparison with a transition relation given as regions of characters."""
from graph import *

AB = "automata::AutomatonBuilder::<T>::"


def inside(iv):
    return lambda x: f_and(f_le(iv[0], x), f_le(x, iv[1]))


def f_any(fs):
    r = False
    for f in fs:
        r = f_or(r, f)
    return r


def f_all(fs):
    r = True
    for f in fs:
        r = f_and(r, f)
    return r


def overlap(p, q):
    return f_and(f_le(p[0], q[1]), f_le(q[0], p[1]))


def covers(ivs):
    """the intervals cover the alphabet"""
    if not ivs:
        return False
    return f_and(f_any(f_eq(a) for a, b in ivs),
                 f_all(f_or(f_eq(b - MAX), f_any(f_and(f_le(a2, b + 1), f_le(b + 1, b2)) for a2, b2 in ivs)) for a, b in ivs))


def regions(trans, dflt):
    """[(formula of x, target)]: explicit transitions, then the default outside all of them"""
    out = [(inside(iv), t) for iv, t in trans]
    if dflt is not None:
        ivs = [iv for iv, t in trans]
        out.append((lambda x: f_all(f_or(f_lt(x, a), f_lt(b, x)) for a, b in ivs), dflt))
    return out


def check_delta(c, I, st, ar, start, delta, final, what, nstates=None, nfinal=None):
    """the automaton behind the reference ar is the transition system delta: key -> [(formula of x, key)] from the key start;
    final: key -> formula.  nstates: number of keys that must be states (default: those reachable)"""
    if nstates is not None:
        for s, v in calls(c, I, st, AUTO + "num_states", ar):
            c.prove(s, f_eq(v - nstates), "%s: num_states" % what, AUTO + "num_states")
    if nfinal is not None:
        for s, v in calls(c, I, st, AUTO + "num_final_states", ar):
            c.prove(s, f_eq(v - nfinal), "%s: num_final_states" % what, AUTO + "num_final_states")
    work = [(s, {start: q}, [start]) for s, q in calls(c, I, st, AUTO + "initial_state", ar)]
    res = []
    while work:
        s, mp, todo = work.pop()
        if not todo:
            ns = list(mp)
            for i in range(len(ns)):
                for j in range(i):
                    for s2, a, b in same_state(c, I, s.fork(), mp[ns[i]], mp[ns[j]]):
                        c.prove(s2, f_ne(a - b), "%s: distinct states stay distinct" % what, AUTO + "next")
            res.append((s, mp))
            continue
        n, todo = todo[0], todo[1:]
        for s2, fin in calls(c, I, s, STATE + "is_final", mp[n]):
            c.prove(s2, f_iff(fin, final[n]), "%s: the final states are those specified" % what, STATE + "is_final")
            s = s2
        pend = [(s, mp, todo)]
        for k, (reg, m) in enumerate(delta[n]):
            nxt = []
            for s1, mp1, td1 in pend:
                s0 = s1.fork()
                x = chsym(I, s0, "x%s.%s" % (n, k))
                sts = [s2 for s2 in s0.assume(reg(x)) if s2.num.feasible_with()]
                if not sts:
                    nxt.append((s1, mp1, td1))
                    continue
                done = False
                first = None
                for s2 in sts:
                    for s3, t in calls(c, I, s2, AUTO + "next", ar, mp1[n], x):
                        if m in mp1:
                            for s4, a, b in same_state(c, I, s3, t, mp1[m]):
                                c.prove(s4, f_eq(a - b), "%s: next follows the specified successor" % what, AUTO + "next")
                            if not done:
                                nxt.append((s1, mp1, td1))
                                done = True
                        elif not done:
                            nxt.append((s3, dict(list(mp1.items()) + [(m, t)]), td1 + [m]))
                            first = t
                            done = True
                        else:
                            for s4, a, b in same_state(c, I, s3, t, first):
                                c.prove(s4, f_eq(a - b), "%s: next follows the specified successor for every character" % what, AUTO + "next")
            pend = nxt
        work += pend
    return res
