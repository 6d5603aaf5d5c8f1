"""Typestate fixpoints of the stream modules.

Abstract state of a module: every register bit is 0, 1, a provenance token (a bit of a datum the
environment handed over and the module has not yet delivered), an expression over tokens, or
unknown.  A ghost queue holds what still has to come out.  The environment is the protocol of the
neighbouring block.  The set of abstract states reachable from reset is computed as a fixpoint over
the module's next-state functions; the obligations are checked on every transition.
"""
from lib import *
from absint import rename
from stages import cfg


class Token:
    """Helper making canonical names for ghost data."""

    @staticmethod
    def build(regs, num, nxt, groups, env):
        """groups: list of words (tuples of bits), in a fixed order.  Returns (key part, state,
        renamed groups, facts)."""
        groups = [env.subw(g) for g in groups]
        m = {}
        for gi, g in enumerate(groups):
            for bi, b in enumerate(g):
                _name(b, m, gi, bi)
        memo = {}
        groups = tuple(tuple(_keep(rename(b, m, memo)) for b in g) for g in groups)
        st, key = {}, []
        for s in regs:
            bits = []
            for i, b in enumerate(nxt[id(s)]):
                b = None if b is None else rename(env.sub(b), m, memo)
                bits.append(var("?%d" % num[id(s)], i) if b is None else b)
            bits = tuple(bits)
            st[id(s)] = bits
            key.append(bits)
        facts = {}
        for n, v in env.facts.items():
            if n.kind == "v":
                continue
            r = rename(n, m, memo)
            if r is None or r == 0 or r == 1:
                continue
            if r.kind == "n":
                r, v = r.key, 1 - v
            facts[r] = v
        return (tuple(key), groups, frozenset(facts.items())), st, groups, facts


def _keep(b):
    if b is None:
        raise AnalysisError("ghost datum without a name")
    return b


def _name(b, m, gi, bi):
    """give the opaque bits of a ghost bit their canonical names"""
    if b == 0 or b == 1:
        return
    if b.kind == "v":
        if b not in m:
            m[b] = var("G%d" % gi, bi)
        return
    if b.kind == "n":
        return _name(b.key, m, gi, bi)
    raise AnalysisError("composite ghost datum %r" % b)


class Slot:
    src_loc = None

    def __init__(self, name, width):
        self.name, self.width = name, width


class Queue:
    """A SyncFIFO black box as a queue of words."""

    def __init__(self, bb, i):
        self.bb, self.depth = bb, bb.params["depth"]
        self.slots = [Slot("fifo%d[%d]" % (i, j), bb.params["width"]) for j in range(self.depth)]

    def drive(self, inp, st, n):
        o, i = self.bb.outs, self.bb.ins
        inp[id(o["w_rdy"])] = (int(n < self.depth),)
        inp[id(o["r_rdy"])] = (int(n > 0),)
        inp[id(o["level"])] = const_word(n, o["level"].width)
        inp[id(o["r_data"])] = st[id(self.slots[0])] if n else word("stale:" + self.slots[0].name,
                                                                   self.slots[0].width)

    def next(self, c, env, st, n, nxt):
        items = [st[id(x)] for x in self.slots[:n]]
        full = n == self.depth
        if n and env.decide(c.get(self.bb.ins["r_en"])[0]):
            items.pop(0)
        if not full and env.decide(c.get(self.bb.ins["w_en"])[0]):
            items.append(env.subw(c.get(self.bb.ins["w_data"])))
        for j, x in enumerate(self.slots):
            nxt[id(x)] = items[j] if j < len(items) else (0,) * x.width
        return len(items)


class Explorer:
    def __init__(self, rep, top, outs, limit=60000, name="", cut=(), domain="sync"):
        self.rep, self.top = rep, top
        self.d = Design(top, cut)
        rep.stat(self.d)
        self.limit, self.domain = limit, domain
        self.outs = outs
        # FIFOs in the cone are modelled as queues (SyncFIFO, first word falls through): their
        # contents belong to the abstract state
        self.fifos, cone, todo = [], [], list(outs)
        seen = set()
        while todo:
            for s in self.d.cone(todo):
                if id(s) not in seen:
                    seen.add(id(s))
                    cone.append(s)
            todo = []
            for s in list(cone):
                bb = self.d.bb_out.get(id(s), (None,))[0]
                if bb is None or self.d.is_cut(s) or any(bb is f.bb for f in self.fifos) or \
                        bb.kind != "SyncFIFO" or not bb.params["fwft"]:
                    continue
                if bb.domain != domain:
                    raise AnalysisError("FIFO in domain %s" % bb.domain)
                self.fifos.append(Queue(bb, len(self.fifos)))
                todo += [x for x in bb.ins.values() if id(x) not in seen]
        self.regs = [s for s in cone if self.d.is_reg(s)]
        self.regs.sort(key=lambda s: (s.name, str(s.src_loc)))
        self.state_regs = self.regs + [x for f in self.fifos for x in f.slots]
        self.num = {id(s): i for i, s in enumerate(self.state_regs)}
        self.free = [s for s in cone if self.d.is_cut(s) or
                     id(s) not in self.d.drivers and id(s) not in self.d.bb_out]
        self.name = name or type(top).__name__
        self.finish = None
        self.settle = False          # split on every bit of the next control state
        self.forget = None           # plain -> registers whose contents are given up (widening)
        self.start = {}              # registers with arbitrary initial contents

    def run(self, ghost0, moves, step, derive=None):
        """ghost0: (plain, groups): plain is hashable, groups a list of words.
        moves(plain, groups) -> [(label, coop, {id(sig): bits})]
        step(ctx_get, env, plain, groups, label) -> (plain', groups', progress) or None (stop here)
        """
        rep, d, regs = self.rep, self.d, self.regs
        plain, groups = ghost0
        env = Env()
        st0 = {**reset_state(regs, d, self.domain), **self.start}
        for f in self.fifos:
            st0.update({id(x): (0,) * x.width for x in f.slots})
        key, st, gr, facts = Token.build(self.state_regs, self.num, st0, groups, env)
        lv = (0,) * len(self.fifos)
        key = (key, (plain, lv) if lv else plain)
        ids = {key: 0}
        todo = [(0, st, plain, gr, facts, lv)]
        self.parent = {0: None}
        edges = {}
        ntr = 0
        while todo:
            sid, st, plain, gr, facts, lv = todo.pop()
            for label, coop, inputs in moves(plain, gr):
                inp = {id(s): word("in:" + s.name, s.width) for s in self.free}
                inp.update(inputs)
                for f, n in zip(self.fifos, lv):
                    f.drive(inp, st, n)

                def fn(env):
                    c = self.c = Ctx(d, st, inp, env)
                    r = step(c.get, env, plain, gr, label)
                    if r is None:
                        return None
                    nxt = {id(s): c.next(s) for s in regs}
                    if self.settle:
                        for s in regs:
                            nxt[id(s)] = tuple(env.decide(b) for b in nxt[id(s)])
                    return r, nxt, tuple(f.next(c, env, st, n, nxt) for f, n in zip(self.fifos, lv))
                for env, r in cases(fn, facts, derive=derive(plain, gr) if derive else None):
                    ntr += 1
                    if r is None:
                        continue
                    r, nxt, lv2 = r
                    plain2, groups2, prog = self.finish(r, env) if self.finish else r
                    for s in (self.forget(plain2) if self.forget else ()):
                        nxt[id(s)] = (None,) * s.width
                    key, st2, gr2, facts2 = Token.build(self.state_regs, self.num, nxt, groups2, env)
                    key = (key, (plain2, lv2) if lv2 else plain2)
                    t = ids.get(key)
                    if t is None:
                        if len(ids) >= self.limit:
                            raise AnalysisError("%s: more than %d abstract states" % (self.name, self.limit))
                        t = ids[key] = len(ids)
                        self.parent[t] = (sid, label)
                        todo.append((t, st2, plain2, gr2, facts2, lv2))
                    if coop and not prog:
                        edges.setdefault(sid, set()).add(t)
                if rep.bad:
                    self.ids = ids
                    tr, i = [], sid
                    while i is not None and self.parent[i]:
                        tr.append(str(self.parent[i][1]))
                        i = self.parent[i][0]
                    for b in rep.bad:
                        if "history" not in b:
                            b["history"] = 1
                            b["detail"] += " | reached by: %s, then %s; in %s" % (
                                " ".join(reversed(tr[:60])), label, self.describe(sid))
                    return ids, ntr
        rep.count("abstract-states", len(ids))
        rep.count("abstract-transitions", ntr)
        cyc = _cycle(edges)
        self.ids = ids
        rep.check(cyc is None, "progress", cname(self.top),
                  lambda: "with a willing environment the module can stay forever without moving data; "
                  "control state: %s" % self.describe(cyc))
        return ids, ntr

    def describe(self, sid):
        for (k, plain), i in self.ids.items():
            if i == sid:
                out = []
                for s, bits in zip(self.state_regs, k[0]):
                    if s.width <= 8:
                        out.append("%s=%s" % (s.name, bits_str(bits)))
                return ", ".join(out) + " ghost %r" % (plain,)
        return "?"


def _cycle(edges):
    """a node on a cycle, or None"""
    color = {}
    for root in edges:
        if color.get(root):
            continue
        stack = [(root, iter(edges.get(root, ())))]
        color[root] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m) == 1:
                    return m
                if not color.get(m):
                    color[m] = 1
                    stack.append((m, iter(edges.get(m, ()))))
                    break
            else:
                color[n] = 2
                stack.pop()
    return None


class Counts:
    """Assumption: each datum word has a companion length word n with 1 <= n <= most, and the datum's
    bits at and above n are zero.  Length words are tracked in an exact value-set domain."""

    def __init__(self, most, least=1):
        self.most, self.least = most, least
        self.memo = {}

    def feasible(self, facts, cnt):
        vset = set(b for b in cnt if b != 0 and b != 1)
        rel = [(n, v) for n, v in facts.items() if not vset.isdisjoint(_vars(n)) and _vars(n) <= vset]
        key = (tuple(cnt), frozenset(rel))
        poss = self.memo.get(key)
        if poss is None:
            poss = []
            for n in range(self.least, self.most + 1):
                asg, ok = {}, True
                for i, b in enumerate(cnt):
                    bit = (n >> i) & 1
                    if b == 0 or b == 1:
                        ok = ok and b == bit
                    else:
                        asg[b] = bit
                if not ok:
                    continue
                e = Env(asg)
                if all(e.sub(x) == v for x, v in rel):
                    poss.append(n)
            self.memo[key] = poss
        return poss

    def derive(self, pairs):
        def fn(facts):
            out = facts
            for data, cnt in pairs:
                vs = [b for b in cnt if b != 0 and b != 1]
                if not vs:
                    n = sum(b << i for i, b in enumerate(cnt))
                    if not self.least <= n <= self.most:
                        return None
                    continue                    # the datum's upper bits are already zero
                if not any(not _vars(n).isdisjoint(vs) for n in out):
                    continue
                poss = self.feasible(out, cnt)
                if not poss:
                    return None
                add = {}
                for i, b in enumerate(cnt):
                    if b != 0 and b != 1 and b not in out:
                        bit = (poss[0] >> i) & 1
                        if all((n >> i) & 1 == bit for n in poss):
                            add[b] = bit
                for b in data[poss[-1]:]:
                    if b != 0 and b != 1 and b not in out:
                        add[b] = 0
                if add:
                    out = dict(out)
                    out.update(add)
            return out
        return fn


_varmemo = {}


def _vars(n):
    r = _varmemo.get(n)
    if r is None:
        if n.kind == "v":
            r = frozenset((n,))
        elif n.kind == "n":
            r = _vars(n.key)
        elif n.kind == "and":
            r = frozenset().union(*[_vars(x) for x in n.key])
        else:
            f = n.key[0] if n.kind in ("lin", "mod") else n.key
            r = frozenset().union(*[_vars(x) for x, _ in f[1]])
        _varmemo[n] = r
    return r


# ---- converter ---------------------------------------------------------------------------
def converter(rep, bd, ps, conv):
    """Entries popped from the pipeline FIFO come out as pieces of at most `conv` bits: all bits, in
    order, the end flag on the last piece of the last entry only; the number of writes after the
    right-hand FIFO asked to stop is bounded."""
    top = make_cfg("converter", "Converter", cfg(bit_depth=bd, pixels_per_cycle=ps, converter=conv))
    outs = [top.latch_output, top.enc_in, top.enc_in_ctr, top.in_end, top.valid_in]
    x = Explorer(rep, top, outs)
    d = x.d
    W = top.enc_out.width
    CW = top.enc_out_ctr.width
    cnts = Counts(W)
    name = cname(top)
    bound = [0]
    # plain: (head present, stopped, writes since the stop); groups: head data, head count, head end,
    # then per pending entry: data, remaining count as offset, end
    # pending entries: plain keeps taken bits offset r = number of bits still due is (count - done)

    def moves(plain, gr):
        head, ended, since, npend, due = plain
        out = []
        for cf in (0, 1):
            for h in ((1,) if head else (0,) if ended else (0, 1)):
                inp = {id(top.close_full): (cf,), id(top.valid_out): (h,)}
                if h:
                    if head:
                        hd, hc, he = gr[0], gr[1], gr[2]
                    else:
                        hd, hc, he = word("newd", W), word("newc", CW), (var("newe"),)
                    inp[id(top.enc_out)], inp[id(top.enc_out_ctr)], inp[id(top.out_end)] = hd, hc, he
                out.append(((h, cf), h and not cf or ended and not cf, inp))
        return out

    def step(get, env, plain, gr, label):
        head, ended, since, npend, due = plain
        h, cf = label
        base = 3 if head else 0
        pend = [tuple(gr[base + 3 * i:base + 3 * i + 3]) for i in range(npend)]
        hw = None
        if h:
            hw = (gr[0], gr[1], gr[2]) if head else (word("newd", W), word("newc", CW), (var("newe"),))
        prog = False
        # the piece written in this cycle
        due2 = due
        if env.decide(get(top.valid_in)[0]):
            prog = True
            rep.count("piece-written")
            if not pend:
                rep.fail("no-invented-data", name, "a piece is written although every entry taken has "
                         "been delivered; %s" % d.where(top.valid_in))
                return None
            data, cnt, end = pend[0]
            n = get(top.enc_in_ctr)
            wd = env.subw(get(top.enc_in))
            e = get(top.in_end)[0]
            # bits due: cnt - due[already], kept as: due = None (all of cnt) or an int
            lens, lefts = set(), set()
            for v in cnts.feasible(env.facts, cnt):
                f2 = dict(env.facts)
                f2.update({b: (v >> i) & 1 for i, b in enumerate(cnt) if b != 0 and b != 1})
                nv = Env(f2).subw(n)
                if any(b != 0 and b != 1 for b in nv):
                    lens = lefts = {None, -1}
                    break
                nv = sum(b << i for i, b in enumerate(nv))
                lens.add(nv)
                lefts.add((v if due is None else due) - nv)
            k = min(lefts) if len(lefts) == 1 else -1
            if k < 0 or (0 in lens):
                rep.fail("piece-length", name, "a piece of length %s is written when %s bits are due "
                         "[%s]; %s" % (bits_str(env.subw(n)), due or bits_str(env.subw(cnt)),
                                       facts_str(env), d.where(top.enc_in_ctr)))
                return None
            const_n = min(lens) if len(lens) == 1 else None
            src = env.subw(data)
            want = tuple(src[k:]) + (0,) * conv
            want = want[:const_n] + (0,) * (conv - const_n) if const_n is not None else want[:conv]
            if const_n is not None and const_n > conv:
                rep.fail("piece-length", name, "a piece of %d bits does not fit %d" % (const_n, conv))
                return None
            ok = rep.check(eqw(env, wd, want), "piece-bits", name,
                           lambda: "the piece is %s, must be %s (entry bits %d and up) [%s]; %s"
                           % (bits_str(wd), bits_str(want), k, facts_str(env), d.where(top.enc_in)))
            we = end[0] if k == 0 else 0
            ok &= rep.check(eqw(env, (e,), (we,)), "end-on-last-piece", name,
                            lambda: "the piece with %d bits of its entry left carries end flag %r, must be "
                            "%r; %s" % (k, env.sub(e), we, d.where(top.in_end)))
            if not ok:
                return None
            due2 = k
            if k == 0:
                pend = pend[1:]
                due2 = None
        if cf:
            since2 = min(20, since + (1 if prog else 0))
            bound[0] = max(bound[0], since2)
            if since2 >= 20:
                rep.fail("stops-when-full", name, "keeps writing while the FIFO behind it asks to stop")
                return None
        else:
            since2 = 0
        # the entry taken in this cycle
        pop = h and env.decide(get(top.latch_output)[0])
        if pop:
            prog = True
            pend = pend + [hw]
            last = env.decide(hw[2][0])
            ended2, head2 = bool(last), False
            rep.count("entry-taken")
        else:
            ended2, head2 = ended, bool(h)
        if len(pend) > 6:
            rep.fail("bounded-backlog", name, "takes entries without delivering them")
            return None
        if ended and not pend:
            prog = True            # idle after the end is fine
        groups = (list(hw) if head2 else []) + [w for p in pend for w in p]
        return (head2, ended2, since2, len(pend), due2), groups, prog

    def derive(plain, gr):
        return cnts.derive([(word("newd", W), word("newc", CW))] +
                           [(gr[i], gr[i + 1]) for i in range(0, len(gr) - 2, 3)])
    # a cycle without a head is cooperative only when the stream has ended; see moves()
    x.run(((False, False, 0, 0, None), []), moves, step, derive)
    rep.bound = bound[0]
    rep.sample("bit_depth=%d ps=%d converter=%d: at most %d writes after the stop request" %
               (bd, ps, conv, bound[0]))
    return bound[0]


# ---- variable-to-constant width ------------------------------------------------------------
def vbits(rep, conv, outw, buf):
    """The output words are the codeword bits in order, first bit most significant, nothing lost or
    repeated, padded only after the last bit; the end flag is on the last word only."""
    top = make_cfg("vbits_to_cbits", "VBitsToCBits",
                   cfg(converter=conv, out_bits=outw, vbits_to_cbits_buffer_size=buf))
    outs = [top.latch_input, top.data_out, top.valid_out, top.end_out]
    x = Explorer(rep, top, outs, limit=200000)
    d = x.d
    CW = top.enc_in_ctr.width
    cnts = Counts(conv)
    name = cname(top)
    NEW = (word("newd", conv), word("newc", CW), (var("newe"),))

    def moves(plain, gr):
        head, ended, npend = plain
        out = []
        for busy in (0, 1):
            for h in ((1,) if head else (0,) if ended else (0, 1)):
                inp = {id(top.busy_in): (busy,), id(top.valid_in): (h,)}
                if h:
                    inp[id(top.enc_in)], inp[id(top.enc_in_ctr)], inp[id(top.in_end)] = \
                        gr[1:4] if head else NEW
                out.append(((h, busy), (h or ended) and not busy, inp))
        return out

    def step(get, env, plain, gr, label):
        head, ended, npend = plain
        h, busy = label
        P = gr[0]                                   # oldest bit first
        base = 4 if head else 1
        pend = [tuple(gr[base + 3 * i:base + 3 * i + 3]) for i in range(npend)]
        hw = (tuple(gr[1:4]) if head else NEW) if h else None
        prog = False
        if env.decide(get(top.valid_out)[0]):
            word_ = env.subw(get(top.data_out))
            e = env.sub(get(top.end_out)[0])
            last = ended and not pend and len(P) <= outw
            if len(P) < outw and not last:
                rep.fail("no-invented-data", name, "a word is offered when only %d bits have arrived; %s"
                         % (len(P), d.where(top.valid_out)))
                return None
            n = min(outw, len(P))
            want = tuple(reversed(P[:n]))
            ok = rep.check(eqw(env, word_[outw - n:], want), "output-bits", name,
                           lambda: "the offered word is %s, the next %d bits of the stream are %s; %s"
                           % (bits_str(word_), n, bits_str(env.subw(want)), d.where(top.data_out)))
            ok &= rep.check(all(b == 0 or b == 1 for b in word_[:outw - n]), "padding-only-at-end",
                            name, lambda: "the final word %s carries old bits below the last %d; %s"
                            % (bits_str(word_), n, d.where(top.data_out)))
            ok &= rep.check(e == (1 if last else 0), "end-on-last-word", name,
                            lambda: "the end flag is %r on a word that is %sthe last; %s"
                            % (e, "" if last else "not ", d.where(top.end_out)))
            if not ok:
                return None
            if not busy:
                prog = True
                P = P[n:]
                rep.count("word-delivered")
                if last:
                    return None
        pop = h and env.decide(get(top.latch_input)[0])
        if pop:
            prog = True
            rep.count("entry-taken")
            pend = pend + [hw]
            ended, head = bool(env.decide(hw[2][0])), False
        else:
            head = bool(h)
        if len(pend) > 6:
            rep.fail("bounded-backlog", name, "takes entries without delivering them")
            return None
        return [head, ended, pend], [P, hw], prog

    def finish(r, env):
        """after the transition is fully decided: entries of known length join the bit queue"""
        (head, ended, pend), (P, hw), prog = r
        P = list(env.subw(P))
        pend = [tuple(env.subw(w) for w in p) for p in pend]
        while pend and all(b == 0 or b == 1 for b in pend[0][1]):
            n = sum(b << i for i, b in enumerate(pend[0][1]))
            P += [pend[0][0][i] for i in reversed(range(n))]
            pend = pend[1:]
        if len(P) > buf + 2 * outw + 64:
            rep.fail("bounded-backlog", name, "more than %d bits are pending" % len(P))
        groups = [tuple(P)] + (list(hw) if head else []) + [w for p in pend for w in p]
        return (head, ended, len(pend)), groups, prog
    x.finish = finish

    def derive(plain, gr):
        return cnts.derive([(NEW[0], NEW[1])] + [(gr[i], gr[i + 1]) for i in range(1, len(gr) - 2, 3)])
    x.run(((False, False, 0), [()]), moves, step, derive)
    rep.sample("converter=%d out_bits=%d buffer=%d" % (conv, outw, buf))


# ---- byte streams with busy/valid handshakes -------------------------------------------------
class Bytes:
    """What enters a module (as units of `unit` bits) leaves it, in order, exactly once; words are
    stable while the receiver is busy; the end flag accompanies the last word only."""

    def __init__(self, rep, top, unit=8, most=40, name=None):
        self.rep, self.top, self.unit, self.most = rep, top, unit, most
        self.name = name or cname(top)
        self.in_valid, self.in_end, self.in_busy = top.valid_in, getattr(top, "end_in", None), top.o_busy
        self.in_words = [top.data_in]
        self.out_valid, self.out_end, self.out_busy = top.valid_out, getattr(top, "end_out", None), top.i_busy
        self.out_data = top.data_out
        self.out_units = None            # units per output word, or a signal counting them
        self.lsb_first = False
        self.pad_const = True
        self.produce = None              # (env, words) -> list of units (tuples of bits)
        self.choices = None              # [(tag, {id: bits})] constant choices per offered word
        self.stop_after_end = True
        self.after_end_valid = (0, 1)
        self.domain = "sync"
        self.limit = 60000

    def run(self):
        rep, top = self.rep, self.top
        outs = [s for s in (self.in_busy, self.out_valid, self.out_data, self.out_end) if s is not None]
        if self.out_units is not None and not isinstance(self.out_units, int):
            outs.append(self.out_units)
        x = Explorer(rep, top, outs, limit=self.limit, domain=self.domain)
        d = x.d
        new = [word("new%d" % i, s.width) for i, s in enumerate(self.in_words)]
        nw = len(new)
        choices = self.choices or [(0, {})]

        def moves(plain, gr):
            held, hend, hch, ended, n = plain
            out = []
            for busy in (0, 1):
                if held:
                    offers = [(1, hend, hch)]
                elif ended:
                    offers = [(v, None, 0) for v in self.after_end_valid]
                else:
                    offers = [(0, 0, 0)] + [(1, e, c) for e in ((0, 1) if self.in_end is not None else (0,))
                                            for c in range(len(choices))]
                for v, e, c in offers:
                    inp = {id(self.out_busy): (busy,), id(self.in_valid): (v,)}
                    if self.in_end is not None:
                        inp[id(self.in_end)] = (e,) if e is not None else (v,)
                    if v:
                        inp.update(choices[c][1])
                        for i, s in enumerate(self.in_words):
                            inp[id(s)] = gr[i] if held else new[i]
                    out.append(((v, e, c, busy), (v or ended) and not busy, inp))
            return out

        def step(get, env, plain, gr, label):
            held, hend, hch, ended, n = plain
            v, e, c, busy = label
            P = [env.subw(g) for g in (gr[nw:] if held else gr)]
            inw = (gr[:nw] if held else new) if v else None
            prog = False
            if env.decide(get(self.out_valid)[0]):
                k = self.out_units
                if not isinstance(k, int):
                    k = env.value(env.subw(get(k)))
                data = env.subw(get(self.out_data))
                last = ended and len(P) <= k
                if len(P) < k and not last:
                    rep.fail("no-invented-data", self.name, "a word of %d units is offered when only %d "
                             "have been accepted; %s" % (k, len(P), d.where(self.out_valid)))
                    return None
                m = min(k, len(P))
                ok = True
                u = self.unit
                for i in range(m):
                    j = i if self.lsb_first else k - 1 - i
                    ok &= rep.check(eqw(env, data[u * j:u * j + u], P[i]), "data-in-order", self.name,
                                    lambda: "unit %d of the offered word is %s, the next one due is %s [%s];"
                                    " %s" % (i, bits_str(data[u * j:u * j + u]), bits_str(P[i]),
                                             facts_str(env), d.where(self.out_data)))
                if m < k and self.pad_const:
                    pad = data[u * m:u * k] if self.lsb_first else data[:u * (k - m)]
                    ok &= rep.check(all(b == 0 or b == 1 for b in pad), "padding-only-at-end", self.name,
                                    lambda: "the last word %s repeats old data in its padding; %s"
                                    % (bits_str(data), d.where(self.out_data)))
                if self.out_end is not None:
                    eo = env.sub(get(self.out_end)[0])
                    ok &= rep.check(eo == (1 if last else 0), "end-on-last-word", self.name,
                                    lambda: "the end flag is %r on a word that is %sthe last; %s"
                                    % (eo, "" if last else "not ", d.where(self.out_end)))
                if not ok:
                    return None
                if not busy:
                    prog = True
                    P = P[m:]
                    rep.count("word-delivered")
                    if last and self.stop_after_end:
                        return None
            acc = v and not env.decide(get(self.in_busy)[0])
            if acc and not ended:
                prog = True
                rep.count("word-accepted")
                P = P + list(self.produce(env, inw, c))
                ended, held = bool(e), False
            else:
                held = bool(v) and not ended
            if len(P) > self.most:
                rep.fail("bounded-backlog", self.name, "accepts words without delivering them: more than "
                         "%d units pending" % self.most)
                return None
            if held:
                p2 = (True, e, c, ended, len(P))
            else:
                p2 = (False, 0, 0, ended, len(P))
            if ended and not P:
                prog = True
            return p2, (list(inw) if held else []) + P, prog
        x.run(((False, 0, 0, False, 0), []), moves, step)
        self.explorer = x
        rep.sample("%s: every transition of %d typestates" % (self.name, rep.checked.get("abstract-states", 0)))


def fix_0xff(rep):
    top = make("fix_0xff", "Fix0xFF")
    b = Bytes(rep, top)
    b.out_units = top.data_out_ctr

    def produce(env, words, c):
        out = []
        for byte in (words[0][8:16], words[0][0:8]):
            byte = env.subw(byte)
            if env.decide(b_and(byte)):
                out += [(1,) * 8, (0,) * 8]
            else:
                out.append(byte)
        return out
    b.produce = produce
    b.run()


def fix_0xff2(rep):
    top = make("fix_0xff2", "Fix0xFF2")
    b = Bytes(rep, top)
    b.choices = [(n, {id(top.data_in_ctr): const_word(n, top.data_in_ctr.width)}) for n in (2, 3, 4)]
    b.out_units = 2

    def produce(env, words, c):
        n = c + 2
        return [words[0][8 * i:8 * i + 8] for i in reversed(range(n))]
    b.produce = produce
    b.run()
