"""Transfer-function obligations of the lossless-JPEG pipeline stages."""
from lib import *

BDS = list(range(2, 17))


def cfg(**kw):
    d = {"bit_depth": 12, "pixels_per_cycle": 2, "LJ92_fifo_depth": 512, "out_bits": 16,
         "converter": 30, "converter_fifo_depth": 512, "vbits_to_cbits_buffer_size": 77,
         "support_axi_lite": False, "axi_lite_debug": False, "predictor_function": 1,
         "num_of_components": 4}
    d.update(kw)
    return d


def named(prefix, sigs):
    return {"%s%d" % (prefix, i): s for i, s in enumerate(sigs)}


# ---- predictor -------------------------------------------------------------------
def predictor(rep, bd, ps):
    if ps == 4:
        top = make_cfg("predictor_p1_c4_px4", "PredictorP1C4Px4", cfg(bit_depth=bd, pixels_per_cycle=4))
    else:
        top = make_cfg("predictor_p1_c4_pix1_2", "PredictorP1C4Pix12",
                       cfg(bit_depth=bd, pixels_per_cycle=ps))
    gb = 4 // ps
    ins = {"valid_in": top.valid_in, "end_in": top.end_in, "new_row": top.new_row}
    ins.update(named("pixel", attr(top, "pixels_in")))
    outs = named("predic", attr(top, "predics_out"))
    outs.update(named("out", attr(top, "pixels_out")))
    m = Mod(top, outs, ins, rep=rep)
    regs = m.regs()
    half = const_word(1 << (bd - 1), bd)
    num = {id(s): i for i, s in enumerate(regs)}

    # abstract state: registers hold 0/1 or provenance bits of ghost words; ghost = (phase,
    # in_first_groups, left[4], first[4]); words are renamed canonically
    def canon(st, ghost):
        phase, started, infirst, left, first = ghost
        ren, order = {}, []

        def rw(bits):
            r = []
            for b in bits:
                if b == 0 or b == 1:
                    r.append(b)
                    continue
                n = neg(b) if b.kind == "n" else b
                if n.kind != "v" or n.key[0] not in ren:
                    r.append(None)
                    continue
                v = var(ren[n.key[0]], n.key[1])
                r.append(neg(v) if b.kind == "n" else v)
            return tuple(r)
        for w in left + first:
            for b in w:
                if b not in (0, 1) and b.kind == "v" and b.key[0] not in ren:
                    ren[b.key[0]] = "g%d" % len(ren)
        left = tuple(rw(w) for w in left)
        first = tuple(rw(w) for w in first)
        out = {}
        for s in regs:
            bits = rw(st[id(s)])
            out[id(s)] = tuple(var("junk:%s%d" % (s.name, num[id(s)]), i) if b is None else b
                               for i, b in enumerate(bits))
        key = (phase, started, infirst, left, first, tuple(out[id(s)] for s in regs))
        return key, out, (phase, started, infirst, left, first)

    none = tuple(half for _ in range(4))
    key, st, gh = canon(reset_state(regs, m.design), (0, False, False, none, none))
    seen, todo = {key}, [(st, gh)]
    nstates = ntrans = 0
    while todo:
        st, (phase, started, infirst, left, first) = todo.pop()
        nstates += 1
        # an idle cycle, or a group; a group at phase 0 may start a row (the first one must)
        moves = [("idle", None)]
        for nr in ((1,) if not started else (0, 1) if phase == 0 else (0,)):
            moves.append(("group", nr))
        for mv, nr in moves:
            inp = {n: word("in:" + n, s.width) for n, s in ins.items()}
            if mv == "idle":
                inp["valid_in"] = (0,)
            else:
                inp["valid_in"], inp["new_row"] = (1,), (nr,)
                # Signals keeps new_row high until the first group of the row has been taken

            def run(env):
                c = m.ctx(st, inp, env)
                nxt = m.step(c, regs)
                c2 = m.ctx(nxt, {n: word("next:" + n, s.width) for n, s in ins.items()}, env)
                return nxt, {n: c2.get(s) for n, s in outs.items()}
            for env, (nxt, res) in cases(run):
                ntrans += 1
                if mv == "group":
                    row = infirst if phase else bool(nr)
                    c0 = phase * ps
                    for i in range(ps):
                        exp = first[c0 + i] if row else left[c0 + i]
                        what = ("first sample of the previous row" if row else "left neighbour") \
                            + " of component %d" % (c0 + i)
                        got = res["predic%d" % i]
                        rep.check(eqw(env, got, exp), "prediction", cname(top, "predics_out"),
                                  lambda: "bit_depth=%d, %s group: the prediction is %s, "
                                  "the %s is %s; %s" % (bd, "row-start" if row else "in-row",
                                                        bits_str(got), what, bits_str(exp),
                                                        m.where("predic%d" % i)))
                        got = res["out%d" % i]
                        rep.check(eqw(env, got, inp["pixel%d" % i]), "sample-forwarded",
                                  cname(top, "pixels_out"),
                                  lambda: "sample register gets %s instead of the sample; %s"
                                  % (bits_str(got), m.where("out%d" % i)))
                    l2, f2 = list(left), list(first)
                    for i in range(ps):
                        l2[c0 + i] = inp["pixel%d" % i]
                        if row:
                            f2[c0 + i] = inp["pixel%d" % i]
                    g2 = ((phase + 1) % gb, True, row, tuple(l2), tuple(f2))
                else:
                    g2 = (phase, started, infirst, left, first)
                key, st2, gh2 = canon(nxt, g2)
                if key not in seen:
                    if len(seen) > 4000:
                        raise AnalysisError("predictor state space does not converge")
                    seen.add(key)
                    todo.append((st2, gh2))
        if len(rep.bad) > 4:
            break
    rep.count("abstract-states", nstates)
    rep.count("abstract-transitions", ntrans)
    rep.sample("ps=%d bd=%d: %d typestates, %d transitions" % (ps, bd, nstates, ntrans))


# ---- multi-cycle evaluation ---------------------------------------------------------
class Run:
    """Symbolic unrolling of a design over a few cycles: arbitrary state, arbitrary inputs except
    the ones given; memories answer through `mem` (address word of the previous cycle -> word)."""

    def __init__(self, design, outs, mem=None):
        self.d = design
        self.outs = outs
        cone = design.cone(outs)
        # black boxes are part of the cone: their inputs matter too
        todo, self.bbs = list(cone), []
        seen = {id(s) for s in cone}
        while todo:
            s = todo.pop()
            if id(s) in design.bb_out:
                bb, _ = design.bb_out[id(s)]
                if all(b is not bb for b in self.bbs):
                    self.bbs.append(bb)
                    for x in design.cone(list(bb.ins.values())):
                        if id(x) not in seen:
                            seen.add(id(x))
                            cone.append(x)
                            todo.append(x)
        self.regs = [s for s in cone if design.is_reg(s)]
        self.free = [s for s in cone if id(s) not in design.drivers and id(s) not in design.bb_out
                     or design.is_cut(s)]
        self.mem = mem

    def go(self, env, n, drive, state=None):
        """yields the Ctx of each cycle 0..n-1; drive(t) -> {id(sig): bits}.  Evaluation is lazy:
        only what is asked for is computed (and partitioned on)."""
        st = dict(state) if state is not None else sym_state(self.regs)
        prev = None
        for t in range(n):
            c = Ctx(self.d, _LazyState(st, prev, self), _LazyInputs(self, t, prev, drive(t), env), env)
            yield c
            prev = c


class _LazyState(dict):
    def __init__(self, base, prev, run):
        dict.__init__(self, base if prev is None else {})
        self.prev, self.by = prev, ({id(s): s for s in run.regs} if prev is not None else None)

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __missing__(self, key):
        if self.prev is None or key not in self.by:
            raise KeyError(key)
        r = self[key] = self.prev.next(self.by[key])
        return r


class _LazyInputs(dict):
    def __init__(self, run, t, prev, given, env):
        dict.__init__(self, given)
        for i, s in enumerate(run.free):
            self.setdefault(id(s), word("%s#%d@%d" % (s.name, i, t), s.width))
        self.bb = {}
        for i, bb in enumerate(run.bbs):
            for port, s in bb.outs.items():
                if id(s) not in self:
                    self.bb[id(s)] = (i, bb, port, s)
        self.t, self.prev, self.mem, self.env = t, prev, run.mem, env

    def __contains__(self, key):
        return dict.__contains__(self, key) or key in self.bb

    def __missing__(self, key):
        i, bb, port, s = self.bb[key]
        r = None
        if self.prev is not None and self.mem and bb.kind == "ReadPort":
            r = self.mem(self.env, bb, self.env.subw(self.prev.get(bb.ins["addr"])))
        if r is None:
            r = word("bb%d.%s@%d" % (i, port, self.t), s.width)
        self[key] = r
        return r


def latency(design, top, most=10):
    """cycles from valid_in to valid_out, or None when valid_out is not a delayed valid_in"""
    r = Run(design, [top.valid_out])

    def run(env):
        res = []
        for c in r.go(env, most, lambda t: {id(top.valid_in): (var("valid_in@%d" % t),)}):
            res.append(c.get(top.valid_out))
        return res
    found = None
    for env, res in cases(run):
        for t, o in enumerate(res):
            if o == (var("valid_in@0"),):
                if found not in (None, t):
                    return None
                found = t
                break
        else:
            return None
    return found


def need_latency(rep, design, top):
    lat = latency(design, top)
    if lat is None:
        rep.fail("lockstep-valid", cname(top, "valid_out"),
                 "valid_out is not valid_in delayed by a constant number of cycles: "
                 + design.where(top.valid_out))
    return lat


# ---- encoder and its table -------------------------------------------------------------
def encode_top(bd, ps, axi):
    return make_cfg("encode", "Encode", cfg(bit_depth=bd, pixels_per_cycle=ps, support_axi_lite=axi))


def encode(rep, bd, ps, axi=False):
    """For every class the encoder emits the class's code followed by the value bits, and the codes
    of all classes form a table a JPEG header can carry."""
    top = encode_top(bd, ps, axi)
    d = Design(top)
    rep.stat(d)
    lat = need_latency(rep, d, top)
    if lat is None:
        return
    vals, sss = list(attr(top, "vals_in")), list(attr(top, "ssssx"))
    encs, ctrs = list(attr(top, "encs_out")), list(attr(top, "encs_ctr"))

    def mem(env, bb, addr):
        if any(b not in (0, 1) for b in addr):
            return None
        a = sum(b << i for i, b in enumerate(addr))
        m = bb.params["memory"]
        return const_word(m.init[a] if a < len(m.init) else 0, m.width)
    table = {}
    for p in range(ps):
        r = Run(d, [encs[p], ctrs[p]], mem)
        for k in range(bd + 1):
            v = tuple(var("v", i) for i in range(k)) + (0,) * (bd - k)
            v = v[:bd]

            def run(env):
                def drive(t):
                    if t == 0:
                        return {id(top.valid_in): (1,), id(vals[p]): v, id(sss[p]): const_word(k, 5)}
                    return {}
                for c in r.go(env, lat + 1, drive):
                    pass
                return c.get(encs[p]), c.get(ctrs[p])
            desc = "bit_depth=%d, pixel %d, class %d" % (bd, p, k)
            for env, (enc, ctr) in cases(run):
                ctr = env.subw(ctr)
                if not rep.check(all(b in (0, 1) for b in ctr), "length-known", cname(top, "encs_ctr"),
                                 lambda: "%s [%s]: the length is %s, not a function of the class; %s"
                                 % (desc, facts_str(env), bits_str(ctr), d.where(ctrs[p]))):
                    continue
                n = sum(b << i for i, b in enumerate(ctr))
                kk = 0 if k == 16 else k
                enc = env.subw(enc)
                low, code, high = enc[:kk], enc[kk:n], enc[n:]
                ok = n >= kk + 1 and eqw(env, low, v[:kk]) and all(b in (0, 1) for b in code) \
                    and all(b == 0 for b in high)
                rep.check(ok, "code-then-value", cname(top, "encs_out"),
                          lambda: "%s [%s]: %d bits %s are emitted, not a constant code followed by "
                          "the %d value bits %s; %s" % (desc, facts_str(env), n, bits_str(enc), kk,
                                                       bits_str(v[:kk]), d.where(encs[p])))
                if ok:
                    table.setdefault((p, k), set()).add(
                        (n - kk, sum(b << i for i, b in enumerate(code))))
    codes = {}
    for (p, k), s in table.items():
        codes.setdefault(k, set()).update(s)
    for k, s in sorted(codes.items()):
        rep.check(len(s) == 1, "one-code-per-class", cname(top, "encs_out"),
                  lambda: "bit_depth=%d: class %d is given different codes %s" % (bd, k, sorted(s)))
    lst = {k: min(s) for k, s in codes.items()}
    where = cname(top) + " code table"
    for k, (n, c) in lst.items():
        rep.check(1 <= n <= 16, "code-length", where, "bit_depth=%d: class %d has a %d-bit code"
                  % (bd, k, n))
        rep.check(c != (1 << n) - 1, "no-all-ones-code", where,
                  "bit_depth=%d: class %d has the all-ones code %s" % (bd, k, bin(c)))
        for k2, (n2, c2) in lst.items():
            if k2 != k and n <= n2:
                rep.check(c2 >> (n2 - n) != c, "prefix-free", where,
                          "bit_depth=%d: the code %s of class %d is a prefix of %s of class %d"
                          % (bd, bin(c), k, bin(c2), k2))
    # a DHT segment lists code lengths only, so shorter codes must come first in code order
    for k, (n, c) in lst.items():
        for k2, (n2, c2) in lst.items():
            if n < n2:
                rep.check(c << (16 - n) < c2 << (16 - n2), "header-order", where,
                          "bit_depth=%d: the %d-bit code %s of class %d sorts after the %d-bit code "
                          "%s of class %d: no list of code lengths yields both"
                          % (bd, n, bin(c), k, n2, bin(c2), k2))
    rep.sample("bd=%d ps=%d lat=%d codes %s" % (bd, ps, lat, {k: format(c, "0%db" % n) for k, (n, c) in lst.items()}))


def encode_loaded(rep, bd, ps):
    """With a run-time loaded table: any entry (length, code) of the documented layout is used."""
    top = encode_top(bd, ps, True)
    d = Design(top)
    rep.stat(d)
    lat = need_latency(rep, d, top)
    if lat is None:
        return
    vals, sss = list(attr(top, "vals_in")), list(attr(top, "ssssx"))
    encs, ctrs = list(attr(top, "encs_out")), list(attr(top, "encs_ctr"))
    for p in range(ps):
        for k in range(bd + 1):
            kk = 0 if k == 16 else k
            v = (tuple(var("v", i) for i in range(k)) + (0,) * (bd - k))[:bd]
            code, ln = word("code", 16), word("len", 5)
            entry = ((0,) * kk + code + (0,) * bd)[:16 + bd] + ln
            if k == 16:
                entry = code + (0,) * bd + ln

            def mem(env, bb, addr):
                return entry if tuple(addr) == const_word(k, len(addr)) else None
            r = Run(d, [encs[p], ctrs[p]], mem)

            def run(env):
                def drive(t):
                    if t == 0:
                        return {id(top.valid_in): (1,), id(vals[p]): v, id(sss[p]): const_word(k, 5)}
                    return {}
                for c in r.go(env, lat + 1, drive):
                    pass
                return c.get(encs[p]), c.get(ctrs[p])
            we = ((v[:kk] if k < 16 else ()) + code + (0,) * 32)[:encs[p].width]
            wc = bits_of(fadd(form_of(ln), (kk, ())), 5)
            for env, (enc, ctr) in cases(run):
                desc = "bit_depth=%d, pixel %d, class %d [%s]" % (bd, p, k, facts_str(env))
                rep.check(eqw(env, enc, we), "loaded-code", cname(top, "encs_out"),
                          lambda: "%s: emits %s, needs %s; %s" % (desc, bits_str(env.subw(enc)),
                                                                bits_str(we), d.where(encs[p])))
                rep.check(eqw(env, ctr, wc), "loaded-length", cname(top, "encs_ctr"),
                          lambda: "%s: length %s, needs %s; %s" % (desc, bits_str(env.subw(ctr)),
                                                                 bits_str(wc), d.where(ctrs[p])))


# ---- merge ----------------------------------------------------------------------------
def merge(rep, bd, ps, ctrs_list):
    """The codewords of a group are concatenated, first pixel most significant, lengths added."""
    top = make_cfg("merge", "Merge", cfg(bit_depth=bd, pixels_per_cycle=ps))
    d = Design(top)
    rep.stat(d)
    lat = need_latency(rep, d, top)
    if lat is None:
        return
    ein, cin = list(attr(top, "encs_in")), list(attr(top, "encs_in_ctr"))
    w = ein[0].width
    r = Run(d, [top.enc_out, top.enc_out_ctr])
    for ctrs in ctrs_list:
        ws = [tuple(var("e%d" % i, j) for j in range(c)) + (0,) * (w - c) for i, c in enumerate(ctrs)]

        def run(env):
            def drive(t):
                if t:
                    return {}
                x = {id(top.valid_in): (1,)}
                for i in range(ps):
                    x[id(ein[i])], x[id(cin[i])] = ws[i], const_word(ctrs[i], cin[i].width)
                return x
            for c in r.go(env, lat + 1, drive):
                pass
            return c.get(top.enc_out), c.get(top.enc_out_ctr)
        want = ()
        for i in reversed(range(ps)):
            want += ws[i][:ctrs[i]]
        tot = len(want)
        want = ext(want, False, top.enc_out.width)
        for env, (enc, ctr) in cases(run):
            desc = "bit_depth=%d, %d codewords of lengths %s" % (bd, ps, list(ctrs))
            rep.check(eqw(env, enc, want), "concatenation", cname(top, "enc_out"),
                      lambda: "%s: merged word is %s, needs %s; %s"
                      % (desc, bits_str(env.subw(enc)), bits_str(want), d.where(top.enc_out)))
            rep.check(eqw(env, ctr, const_word(tot, top.enc_out_ctr.width)), "length-sum",
                      cname(top, "enc_out_ctr"),
                      lambda: "%s: total length is %s, needs %d; %s"
                      % (desc, bits_str(env.subw(ctr)), tot, d.where(top.enc_out_ctr)))
    rep.sample("ps=%d bd=%d latency %d, %d length tuples" % (ps, bd, lat, len(ctrs_list)))


# ---- difference ------------------------------------------------------------------------
def difference(rep, bd, ps):
    top = make_cfg("difference", "Difference", cfg(bit_depth=bd, pixels_per_cycle=ps))
    d = Design(top)
    rep.stat(d)
    lat = need_latency(rep, d, top)
    if lat is None:
        return
    pix, pre = list(attr(top, "pixels_in")), list(attr(top, "predics_in"))
    outs = {"vals_out": list(attr(top, "vals_out")), "vals_out_mns": list(attr(top, "vals_out_mns"))}
    for i in range(ps):
        for port, k in (("vals_out", 0), ("vals_out_mns", -1)):
            o = outs[port][i]
            r = Run(d, [o])

            def drive(t):
                return {id(top.valid_in): (1,), id(pix[i]): word("sample", bd),
                        id(pre[i]): word("prediction", bd)} if t == 0 else {}

            def run(env):
                for c in r.go(env, lat + 1, drive):
                    pass
                return c.get(o)
            want = fadd(form_of(word("sample", bd)), form_of(word("prediction", bd)), -1)
            exp = bits_of(fadd(want, (k, ())), bd + 1)
            for env, got in cases(run):
                rep.check(eqw(env, ext(got, False, bd + 1), exp), "exact-difference",
                          cname(top, port),
                          lambda: "bit_depth=%d, pixel %d [%s]: the output is %s, not sample - "
                          "prediction%s; %s" % (bd, i, facts_str(env), bits_str(got),
                                                " - 1" if k else "", d.where(o)))
    rep.sample("bd=%d ps=%d latency %d: outputs equal sample-prediction bit for bit over symbolic words"
               % (bd, ps, lat))


# ---- normalize -------------------------------------------------------------------------
def diff_classes(bd):
    """(k, sign, difference bits, difference-1 bits) covering every (bd+1)-bit difference
    two samples of bd bits can have, as cubes with free low bits"""
    w = bd + 1
    yield 0, 0, const_word(0, w), const_word(-1 % (1 << w), w)
    for k in range(1, bd + 1):
        x = tuple(var("x", i) for i in range(k - 1))
        pos = x + (1,) + (0,) * (w - k)
        yield k, 1, pos, bits_of(fadd(form_of(pos), (-1, ())), w)
        mns = x + (0,) + (1,) * (w - k)
        yield k, -1, bits_of(fadd(form_of(mns), (1, ())), w), mns


def _class_check(rep, d, bd, p, k, sign, run, desc, want, name, where):
    for env, (out, ssss) in cases(run):
        rep.check(eqw(env, ssss, const_word(k, len(ssss))), "class", name,
                  lambda: "%s [%s]: the class becomes %s, must be %d; %s" % (
                      desc, facts_str(env), bits_str(env.subw(ssss)), k, where[1]))
        if k < 16:
            rep.check(eqw(env, out, want), "value-bits", name,
                      lambda: "%s [%s]: the value bits become %s, must be %s; %s" % (
                          desc, facts_str(env), bits_str(env.subw(out)), bits_str(env.subw(want)),
                          where[0]))


def normalize(rep, bd, ps):
    top = make_cfg("normalize", "Normalize", cfg(bit_depth=bd, pixels_per_cycle=ps))
    d = Design(top)
    rep.stat(d)
    lat = need_latency(rep, d, top)
    if lat is None:
        return
    vals, mnss = list(attr(top, "vals_in")), list(attr(top, "vals_in_mns"))
    outs, sss = list(attr(top, "vals_out")), list(attr(top, "ssssx"))
    n = 0
    for p in range(ps):
        r = Run(d, [outs[p], sss[p]])
        for k, sign, dd, d1 in diff_classes(bd):
            n += 1

            def drive(t):
                return {id(top.valid_in): (1,), id(vals[p]): dd, id(mnss[p]): d1} if t == 0 else {}

            def run(env):
                for c in r.go(env, lat + 1, drive):
                    pass
                return c.get(outs[p]), c.get(sss[p])
            want = tuple((dd if sign >= 0 else d1)[:k]) + (0,) * (bd - k)
            _class_check(rep, d, bd, p, k, sign, run,
                         "bit_depth=%d, pixel %d, %s difference of %d significant bits"
                         % (bd, p, {0: "zero", 1: "positive", -1: "negative"}[sign], k), want,
                         cname(top), (d.where(outs[p]), d.where(sss[p])))
    rep.sample("bd=%d: %d difference cubes" % (bd, n))


def coded_difference(rep, bd, ps):
    """The pipeline as wired: from the difference registers to class and value bits; with 16-bit
    samples the difference counts modulo 2^16."""
    top = make_cfg("integration_1", "Integration1", cfg(bit_depth=bd, pixels_per_cycle=ps))
    dif, nor = attr(top, "difference"), attr(top, "normalize")
    vals, mnss = list(attr(dif, "vals_out")), list(attr(dif, "vals_out_mns"))
    outs, sss = list(attr(nor, "vals_out")), list(attr(nor, "ssssx"))
    d = Design(top, cut=vals + mnss + [dif.valid_out, dif.end_out])
    rep.stat(d)

    class Port:
        valid_in, valid_out = dif.valid_out, nor.valid_out
    lat = latency(d, Port)
    if lat is None:
        rep.fail("lockstep-valid", cname(nor, "valid_out"), "the valid flag does not travel from the "
                 "difference to the normalizer: " + d.where(nor.valid_out))
        return
    w = bd + 1
    for p in range(ps):
        r = Run(d, [outs[p], sss[p]])
        for k, sign, dd, d1 in diff_classes(bd):
            sub = [(k, sign, dd, d1, None)]
            if bd == 16 and k == 16:
                # |difference| >= 2^15 is coded as difference -+ 2^16
                sub = []
                for kk in range(0, 16):
                    if sign > 0:
                        # difference 32769..65535 == -32767..-1: class kk negative
                        if kk == 0:
                            continue
                        x = tuple(var("x", i) for i in range(kk - 1))
                        mns = x + (0,) + (1,) * (w - kk)              # (difference-65536)-1
                        neg_d = bits_of(fadd(form_of(mns), (1, ())), w)
                        full = neg_d[:16] + (0,)
                        sub.append((kk, -1, full, bits_of(fadd(form_of(full), (-1, ())), w), mns))
                    else:
                        # difference -65535..-32769 == 1..32767 after adding 65536
                        if kk == 0:
                            continue
                        x = tuple(var("x", i) for i in range(kk - 1))
                        pos = x + (1,) + (0,) * (w - kk)
                        full = pos[:16] + (1,)
                        m1 = bits_of(fadd(form_of(pos), (-1, ())), 17)[:16] + (1,)
                        sub.append((kk, 1, full, m1, pos))
                sub.append((16, sign, (0,) * 15 + (1, 0 if sign > 0 else 1),
                            const_word((32768 * (1 if sign > 0 else -1) - 1) % (1 << 17), 17), None))
            for kk, sg, full, m1, src in sub:
                def drive(t):
                    return {id(dif.valid_out): (1,), id(vals[p]): full, id(mnss[p]): m1} \
                        if t == 0 else {}

                def run(env):
                    for c in r.go(env, lat + 1, drive):
                        pass
                    return c.get(outs[p]), c.get(sss[p])
                s = src if src is not None else (dd if sign >= 0 else d1)
                want = tuple(s[:kk]) + (0,) * (bd - kk)
                _class_check(rep, d, bd, p, kk, sg, run,
                             "bit_depth=%d, pixel %d, difference of %d bits congruent to a %s one of "
                             "class %d" % (bd, p, k, {0: "zero", 1: "positive", -1: "negative"}[sg], kk),
                             want, cname(top), (d.where(outs[p]), d.where(sss[p])))
    rep.sample("bd=%d ps=%d through the wiring of Integration1" % (bd, ps))


# ---- lockstep ---------------------------------------------------------------------------
def stage_top(name, bd, ps, axi=False):
    c = cfg(bit_depth=bd, pixels_per_cycle=ps, support_axi_lite=axi)
    if name == "predictor":
        if ps == 4:
            return make_cfg("predictor_p1_c4_px4", "PredictorP1C4Px4", c)
        return make_cfg("predictor_p1_c4_pix1_2", "PredictorP1C4Pix12", c)
    return make_cfg(name, {"difference": "Difference", "normalize": "Normalize", "encode": "Encode",
                           "merge": "Merge"}[name], c)


def lockstep(rep, name, bd, ps, axi=False):
    """valid and end leave a stage equally many cycles after they entered, whatever else happens;
    nothing is announced after reset before something entered"""
    top = stage_top(name, bd, ps, axi)
    d = Design(top)
    rep.stat(d)
    lat = need_latency(rep, d, top)
    if lat is None:
        return
    r = Run(d, [top.valid_out, top.end_out])

    def drive(t):
        return {id(top.valid_in): (var("valid_in@%d" % t),), id(top.end_in): (var("end_in@%d" % t),)}
    for port, src in ((top.valid_out, "valid_in@0"), (top.end_out, "end_in@0")):
        def run(env):
            for c in r.go(env, lat + 1, drive):
                pass
            return c.get(port)
        nm = src.split("_")[0]
        for env, o in cases(run):
            rep.check(eqw(env, o, (var(src),)), "lockstep-" + nm, cname(top, nm + "_out"),
                      lambda: "%d pixels per cycle: %d cycles after a group enters, its %s flag is %s "
                      "[%s]; %s" % (ps, lat, nm, bits_str(env.subw(o)), facts_str(env), d.where(port)))

    def run(env):
        res = []
        for c in r.go(env, lat, drive, reset_state(r.regs, d)):
            res.append(c.get(top.valid_out))
        return res
    for env, res in cases(run):
        for t, o in enumerate(res):
            rep.check(o == (0,), "nothing-after-reset", cname(top, "valid_out"),
                      lambda: "valid_out can be %s %d cycles after reset" % (bits_str(o), t))
    rep.sample("%s ps=%d: latency %d" % (name, ps, lat))
