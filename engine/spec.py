"""Obligation layer: pre-states, postconditions, verdicts."""
import os, sys, time, traceback
from lin import *
from vals import *
import mir
from interp import Interp, Budget, some, NONE, ok, err, OPTION, RESULT, INTB, show_f
import interp as IM

MAX = 0x2FFFF
REG = {}          # property -> [(name, fn, meta)]


def ob(prop, name, tier="quick", **meta):
    def deco(f):
        REG.setdefault(prop, []).append((name, f, dict(meta, tier=tier)))
        return f
    return deco


class Missing(Exception):
    """a public anchor is not there"""


class Enough(Exception):
    """several violations of the obligation are known: stop"""


class Skip(Exception):
    """obligation not decidable on this code (private anchor gone, unsupported construct)"""


class C:
    """context of one obligation"""

    def __init__(self, prog, prop, name, deadline, tier="quick"):
        self.P = prog
        self.prop = prop
        self.name = name
        self.tier = tier
        self.deadline = deadline
        self.queries = 0
        self.discharged = 0
        self.viol = []
        self.undec = []
        self.paths = 0
        self.funcs = set()
        self.loops = 0
        self.fix = 0
        self.unknown = {}
        self.contracts = set()
        self.steps = 0
        self.unk_paths = 0
        self.facts = []

    # -- setup
    def interp(self, **kw):
        I = Interp(self.P)
        for k, v in kw.items():
            setattr(I, k, v)
        I.deadline = self.deadline
        return I

    def fn(self, name, public=True):
        b = self.P.find(name)
        if b is None:
            if public:
                raise Missing("anchor %s not found" % name)
            raise Skip("anchor %s not found" % name)
        return b

    def impl(self, trait, meth, selfty):
        for t, targs, b in self.P.impls.get((trait, meth), ()):
            bt = mir.base_ty(t)
            if bt["k"] == "adt" and bt["p"].endswith(selfty):
                return b
        raise Missing("impl of %s::%s for %s not found" % (trait, meth, selfty))

    def harvest(self, I):
        self.funcs |= {p.replace("crate::", "") for p in I.inlined}
        self.loops += I.loops_seen
        self.fix += I.fix_iters
        self.contracts |= {p.replace("crate::", "") for p in I.used_contracts}
        self.steps += I.steps
        I.steps = 0
        I.loops_seen = 0
        I.fix_iters = 0
        for k, v in I.unknown.items():
            self.unknown[k] = self.unknown.get(k, 0) + v

    def run(self, I, body, st, args):
        self.funcs.add(body.path.replace("crate::", ""))
        I.stable = set(st.num.bnd)
        I.pinned = dict(st.reads)
        try:
            outs = I.call_body(st, body, args, 0)
        except Budget as e:
            self.undec.append("%s: %s" % (body.path, e))
            outs = []
        except RecursionError:
            self.undec.append("%s: recursion limit" % body.path)
            outs = []
        self.harvest(I)
        res = []
        for o in outs + I.side_outcomes:
            if o[0] == "unk":
                self.unk_paths += 1
                self.undec.append("%s: %s" % (body.path.replace("crate::", ""), o[2]))
            else:
                res.append(o)
        I.side_outcomes = []
        self.paths += len(res)
        return res

    # -- verdicts
    def prove(self, st, f, what, where, show=None, exact=True):
        """f must hold in every concretisation of st"""
        self.queries += 1
        try:
            t = st.truth(f)
        except Unsupported as e:
            self.undec.append("%s: %s" % (what, e))
            return False
        if t is True:
            self.discharged += 1
            return True
        bad = None
        good = True
        try:
            alts = st.fork().assume(f_not(f))
        except Unsupported as e:
            self.undec.append("%s: %s" % (what, e))
            return False
        for s in alts:
            if not s.num.feasible_with():
                continue
            good = False
            if any(v and isinstance(k, tuple) and k[0] == "seqeq" for k, v in s.at.items()):
                continue    # equality of two sequences is assumed but not propagated to their elements
            if s.exact and not s.taint and exact:
                m = s.num.model()
                if m is not None:
                    bad = (s, m)
                    break
        if good:
            self.discharged += 1
            return True
        if bad:
            self.violation(what, where, bad[0], bad[1], show)
        else:
            self.undec.append("%s at %s not established%s" % (what, where, (" (%s)" % "; ".join(sorted(st.taint))) if st.taint else ""))
        return False

    def violation(self, what, where, st, model=None, show=None, more=None):
        tr = [t for t in st.trace()]
        d = {"rule": what, "function": where.replace("crate::", ""), "path": tr[-40:]}
        if model:
            d["abstract_state_witness"] = {k: v for k, v in sorted(model.items()) if "$" not in k}
        if show:
            try:
                d["detail"] = show(st, model)
            except Exception:
                pass
        ch = {k: v for k, v in st.ch.items()}
        if ch:
            d["variants"] = {str(k): v for k, v in ch.items()}
        at = {str(k): v for k, v in st.at.items()}
        if at:
            d["facts"] = at
        d.update(more or {})
        self.viol.append(d)
        if len(self.viol) >= 4 or time.time() > self.deadline:
            raise Enough()

    def no_panic(self, o, where, what="no panic on valid arguments"):
        """a panicking outcome must be infeasible"""
        st = o[1]
        self.queries += 1
        if not st.num.feasible_with():
            self.discharged += 1
            return
        if st.exact and not st.taint:
            m = st.num.model()
            if m is not None:
                self.violation("%s (%s: %s)" % (what, o[2][0], o[2][1]), where, st, m)
                return
        self.undec.append("%s: panic %s not excluded" % (where, o[2][1]))

    def rule(self, good, what, where, detail=""):
        """structural rule instance"""
        self.queries += 1
        if good:
            self.discharged += 1
        else:
            self.viol.append({"rule": what, "function": where.replace("crate::", ""), "detail": detail})
        return good

    # -- field access by name
    def fidx(self, adt, field):
        a = self.P.adts.get(adt)
        if not a:
            raise Skip("type %s not found" % adt)
        for i, (n, t) in enumerate(a["v"][0]["f"]):
            if n == field:
                return i
        raise Skip("field %s of %s not found" % (field, adt))

    def vidx(self, adt, variant):
        a = self.P.adts.get(adt)
        if not a:
            raise Skip("type %s not found" % adt)
        for i, v in enumerate(a["v"]):
            if v["n"] == variant:
                return i
        raise Skip("variant %s of %s not found" % (variant, adt))


def run_one(prog, prop, name, fn, deadline, tier="quick"):
    c = C(prog, prop, name, deadline, tier)
    t0 = time.time()
    status = "ok"
    msg = ""
    try:
        fn(c)
    except Missing as e:
        c.viol.append({"rule": "public anchor present", "function": str(e), "detail": str(e)})
    except Enough:
        pass
    except Skip as e:
        c.undec.append(str(e))
    except Budget as e:
        c.undec.append(str(e))
    except (Unsupported, IM.Mismatch) as e:
        c.undec.append("unsupported construct: %s" % e)
    except RecursionError:
        c.undec.append("recursion limit")
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        c.undec.append("analysis error: %s: %s" % (type(e).__name__, str(e)[:200]))
    if not c.queries and not c.viol and not c.undec:
        c.undec.append("no condition was reached: nothing was established")
    return {"name": name, "viol": dedup(c.viol), "undec": c.undec[:20], "nundec": len(c.undec), "queries": c.queries, "discharged": c.discharged, "paths": c.paths,
            "funcs": sorted(c.funcs), "loops": c.loops, "fix": c.fix, "unknown": c.unknown, "contracts": sorted(c.contracts),
            "steps": c.steps, "wall": round(time.time() - t0, 2), "facts": c.facts}


def dedup(vs):
    r = {}
    for v in vs:
        r.setdefault((v["rule"], v["function"]), v)
    return list(r.values())
