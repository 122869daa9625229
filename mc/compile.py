"""Amaranth netlist -> C++ transition function.

The *real* elaborated design (amaranth Fragment, after domain lowering) is translated, statement by
statement, into a C++ struct with

    comb()        settle all combinational logic
    tick(mask)    advance the clock domains selected by `mask`
    pack/unpack   bit-exact serialisation of every register and memory word

Only the cone of influence of the signals the harness names is kept.  Semantics follow
amaranth/sim/_pyrtl.py; every run re-validates this by replaying paths in amaranth's own simulator.
"""
from amaranth.hdl.ast import (Value, Const, Signal, Operator, Slice, Part, Cat, ArrayProxy, Assign,
                              Switch, SignalDict, SignalSet, Shape)
from amaranth.hdl.ir import Fragment, Instance
from amaranth.hdl.xfrm import LHSGroupAnalyzer, LHSGroupFilter


class Unsupported(Exception):
    pass


class DomainProblem(Exception):
    """The design clocks logic from a domain that its documentation does not name, or drives one of its inputs."""


def ctype(width, signed):
    need = width if signed else width + 1
    if need <= 64:
        return "i64"
    n = 128
    while n < need:
        n *= 2
    return f"_BitInt({n})"


def tbits(t):
    return 64 if t == "i64" else int(t[8:-1])


def wider(*ts):
    return max(ts, key=tbits)


def lit(v, t):
    if t == "i64" or -(1 << 63) < v < (1 << 63):
        if v == -(1 << 63):
            return "((i64)(-9223372036854775807LL-1))"
        return f"(({t})({v}LL))"
    # build from 62-bit chunks
    neg = v < 0
    m = -v if neg else v
    parts, off = [], 0
    while m:
        parts.append(f"((({t}){m & ((1 << 62) - 1)}LL) << {off})")
        m >>= 62
        off += 62
    e = " | ".join(parts)
    return f"(-({e}))" if neg else f"({e})"


class Design:
    def __init__(self, dut, inputs, outputs, domains=("sync",), platform=None):
        self.inputs = dict(inputs)
        self.outputs = dict(outputs)
        self.domains = list(domains)
        for n, s in list(self.inputs.items()) + list(self.outputs.items()):
            if not isinstance(s, Signal):
                raise TypeError(f"port {n} is not a Signal: {s!r}")
        frag = Fragment.get(dut, platform)
        self.fragment = frag
        self.fragment = self.fragment.prepare()
        self._collect()
        self._coi()
        self._name()
        self._emit()

    # ------------------------------------------------------------------ collection
    def _collect(self):
        self.frags = []

        def walk(f):
            if isinstance(f, Instance) and f.type not in ("$mem_v2",) and not f.statements:
                if f.type == "$initstate":
                    raise Unsupported("initstate")
                if any(kind != "i" for _, kind in f.named_ports.values()):
                    raise Unsupported(f"black-box instance {f.type}")
            self.frags.append(f)
            for sub, _ in f.subfragments:
                walk(sub)
        walk(self.fragment)

        # clocks: map each domain's clk signal to a base domain
        self.clk_alias = SignalDict()
        for f in self.frags:
            if None in f.drivers:
                for st in f.statements:
                    if isinstance(st, Assign) and isinstance(st.lhs, Signal) and isinstance(st.rhs, Signal):
                        self.clk_alias[st.lhs] = st.rhs

        base = SignalDict()
        self.clk_signals = {}
        for i, name in enumerate(self.domains):
            if name not in self.fragment.domains:
                raise DomainProblem(f"documented clock domain {name!r} clocks nothing in the design "
                                    f"(which uses {list(self.fragment.domains)})")
            cd = self.fragment.domains[name]
            if cd.clk_edge != "pos":
                raise Unsupported("negedge domain")
            base[cd.clk] = i
            self.clk_signals[name] = cd.clk

        def dom_index(cd):
            s = cd.clk
            for _ in range(8):
                if s in base:
                    return base[s]
                if s in self.clk_alias:
                    s = self.clk_alias[s]
                else:
                    break
            raise DomainProblem(f"logic is clocked from domain {cd.name!r}; the documented domains are {self.domains}")

        self.sync_of = SignalDict()       # signal -> domain index
        self.comb_groups = []             # (signals, stmts)
        self.sync_blocks = []             # (domain idx, signals, stmts)
        self.comb_driver = SignalDict()
        for f in self.frags:
            groups = LHSGroupAnalyzer()
            for st in f.statements:
                groups.on_statement(st)
            for dom, sigs in f.drivers.items():
                if dom is None:
                    for gs in groups.groups().values():
                        mine = SignalSet(s for s in gs if s in sigs)
                        if not mine:
                            continue
                        stmts = LHSGroupFilter(mine)(f.statements)
                        self.comb_groups.append((list(mine), stmts))
                        for s in mine:
                            self.comb_driver[s] = len(self.comb_groups) - 1
                    for s in sigs:
                        if s not in self.comb_driver:   # driven but never assigned
                            self.comb_groups.append(([s], []))
                            self.comb_driver[s] = len(self.comb_groups) - 1
                else:
                    di = dom_index(f.domains[dom])
                    stmts = LHSGroupFilter(sigs)(f.statements)
                    self.sync_blocks.append((di, list(sigs), stmts, groups))
                    for s in sigs:
                        self.sync_of[s] = di
        # split sync blocks into groups for the cone of influence
        blocks = []
        for di, sigs, stmts, groups in self.sync_blocks:
            ss = SignalSet(sigs)
            for gs in groups.groups().values():
                mine = SignalSet(s for s in gs if s in ss)
                if mine:
                    blocks.append((di, list(mine), LHSGroupFilter(mine)(stmts)))
        self.sync_blocks = blocks
        # dependencies
        self.comb_deps = [self._reads(st) for _, st in self.comb_groups]
        self.sync_deps = [self._reads(st) for _, _, st in self.sync_blocks]

    def _reads(self, stmts):
        out = SignalSet()

        def rv(v):
            if isinstance(v, Const):
                return
            if isinstance(v, Signal):
                out.add(v)
            elif isinstance(v, Operator):
                for o in v.operands:
                    rv(o)
            elif isinstance(v, Slice):
                rv(v.value)
            elif isinstance(v, Part):
                rv(v.value); rv(v.offset)
            elif isinstance(v, Cat):
                for p in v.parts:
                    rv(p)
            elif isinstance(v, ArrayProxy):
                rv(v.index)
                for e in v._iter_as_values():
                    rv(e)
            else:
                lo = Value.cast(v)
                if type(lo) is type(v):
                    raise Unsupported(f"value {type(v).__name__}")
                rv(lo)

        def lv(v):
            if isinstance(v, Signal):
                return
            if isinstance(v, Operator):
                lv(v.operands[0])
            elif isinstance(v, Slice):
                lv(v.value)
            elif isinstance(v, Part):
                lv(v.value); rv(v.offset)
            elif isinstance(v, Cat):
                for p in v.parts:
                    lv(p)
            elif isinstance(v, ArrayProxy):
                rv(v.index)
                for e in v._iter_as_values():
                    lv(e)
            else:
                lo = Value.cast(v)
                if type(lo) is type(v):
                    raise Unsupported(f"lvalue {type(v).__name__}")
                lv(lo)

        def st(s):
            if isinstance(s, Assign):
                lv(s.lhs); rv(s.rhs)
            elif isinstance(s, Switch):
                rv(s.test)
                for ss in s.cases.values():
                    for x in ss:
                        st(x)
            else:
                pass
        for s in stmts:
            st(s)
        return out

    # ------------------------------------------------------------------ cone of influence
    def _coi(self):
        sync_driver = SignalDict()
        for i, (_, sigs, _) in enumerate(self.sync_blocks):
            for s in sigs:
                sync_driver.setdefault(s, []).append(i)
        need = SignalSet()
        work = list(self.outputs.values())
        keep_c, keep_s = set(), set()
        while work:
            s = work.pop()
            if s in need:
                continue
            need.add(s)
            if s in self.comb_driver:
                g = self.comb_driver[s]
                if g not in keep_c:
                    keep_c.add(g)
                    work.extend(self.comb_groups[g][0])
                    work.extend(self.comb_deps[g])
            for b in sync_driver.get(s, ()):
                if b not in keep_s:
                    keep_s.add(b)
                    work.extend(self.sync_blocks[b][1])
                    work.extend(self.sync_deps[b])
        self.need = need
        self.keep_c = sorted(keep_c)
        self.keep_s = sorted(keep_s)
        inp = SignalSet(self.inputs.values())
        for n, s in self.inputs.items():
            if s in self.comb_driver or s in self.sync_of:
                raise DomainProblem(f"the design drives its own input {n}")

    # ------------------------------------------------------------------ naming
    def _name(self):
        self.names = SignalDict()
        self.decls = []
        self.arrays = []        # (name, signals, ctype)
        in_array = SignalDict()

        def scan(v):
            if isinstance(v, ArrayProxy):
                elems = list(v._iter_as_values())
                scan(v.index)
                bases = []
                for e in elems:
                    b = e.value if isinstance(e, Slice) else e
                    bases.append(b)
                if (len(bases) > 3 and all(isinstance(b, Signal) for b in bases)
                        and len({(b.shape().width, b.shape().signed) for b in bases}) == 1
                        and len({id(b) for b in bases}) == len(bases)
                        and not any(b in in_array for b in bases)
                        and not any(b in ports for b in bases)):
                    kinds = {self.sync_of.get(b, None) if b in self.sync_of else
                             ("c" if b in self.comb_driver else "k") for b in bases}
                    if len(kinds) == 1 and kinds != {"k"}:
                        nm = f"A{len(self.arrays)}"
                        sh = bases[0].shape()
                        self.arrays.append((nm, bases, ctype(sh.width, sh.signed)))
                        for i, b in enumerate(bases):
                            in_array[b] = (nm, i)
                else:
                    for e in elems:
                        if not isinstance(e, Signal):
                            scan(e)
            elif isinstance(v, Operator):
                for o in v.operands:
                    scan(o)
            elif isinstance(v, Slice):
                scan(v.value)
            elif isinstance(v, Part):
                scan(v.value); scan(v.offset)
            elif isinstance(v, Cat):
                for p in v.parts:
                    scan(p)

        def scan_st(s):
            if isinstance(s, Assign):
                scan(s.lhs); scan(s.rhs)
            elif isinstance(s, Switch):
                scan(s.test)
                for ss in s.cases.values():
                    for x in ss:
                        scan_st(x)
        ports = SignalSet(list(self.inputs.values()) + list(self.outputs.values()))
        for g in self.keep_c:
            for s in self.comb_groups[g][1]:
                scan_st(s)
        for b in self.keep_s:
            for s in self.sync_blocks[b][2]:
                scan_st(s)
        self.in_array = in_array
        alias = []
        for n, s in list(self.inputs.items()) + list(self.outputs.items()):
            if s in self.names:
                alias.append((n, self.names[s]))
            else:
                self.names[s] = n
                self.need.add(s)
        self.alias = alias
        idx = 0
        for s in self.need:
            if s in in_array:
                nm, i = in_array[s]
                self.names[s] = f"{nm}[{i}]"
            elif s not in self.names:
                clean = "".join(c if c.isalnum() else "_" for c in s.name)
                self.names[s] = f"s{idx}_{clean}"
                idx += 1
        for nm, sigs, t in self.arrays:
            for i, s in enumerate(sigs):
                self.names[s] = f"{nm}[{i}]"

    # ------------------------------------------------------------------ expressions
    def _sig(self, s):
        if s not in self.names:
            raise Unsupported(f"signal outside cone: {s!r}")
        return self.names[s]

    def rv(self, v, pre=""):
        """returns (code, width, signed); value is canonical for that shape"""
        sh = v.shape()
        w, sg = sh.width, sh.signed
        t = ctype(w, sg)
        if isinstance(v, Const):
            val = v.value
            return lit(val, t), w, sg
        if isinstance(v, Signal):
            if self._is_const(v):
                return lit(self._norm(v.reset, w, sg), t), w, sg
            return pre + self._sig(v), w, sg
        if isinstance(v, Operator):
            return self._op(v, w, sg, t, pre), w, sg
        if isinstance(v, Slice):
            c, cw, cs = self.rv(v.value, pre)
            st = ctype(cw, cs)
            if v.start >= cw:
                return lit(0, t), w, sg
            tt = wider(t, st)
            return f"(({t})({self._mask(f'(({tt})({c} >> {v.start}))', w, tt)}))", w, sg
        if isinstance(v, Part):
            c, cw, cs = self.rv(v.value, pre)
            st = ctype(cw, cs)
            o, _, _ = self.rv(v.offset, pre)
            sh_ = f"(i64)({o})*{v.stride}"
            tt = wider(t, st)
            return f"(({t})({self._mask(f'(({tt})SHR<{st}>({c}, {sh_}))', w, tt)}))", w, sg
        if isinstance(v, Cat):
            if not v.parts:
                return lit(0, t), w, sg
            off, parts = 0, []
            for p in v.parts:
                c, cw, cs = self.rv(p, pre)
                if cw == 0:
                    continue
                cc = f"(({t}){c})"
                parts.append(f"({self._mask(cc, cw, t) if cs else cc} << {off})")
                off += cw
            return "(" + (" | ".join(parts) or lit(0, t)) + ")", w, sg
        if isinstance(v, ArrayProxy):
            ic, iw, isg = self.rv(v.index, pre)
            if isg:
                ic = self._mask(ic, iw, ctype(iw, isg))
            elems = list(v._iter_as_values())
            if not elems:
                return lit(0, t), w, sg
            arr = self._as_array(elems)
            if arr:
                nm, at, (start, stop), esh = arr
                acc = f"{pre}{nm}[CLAMP(({ic}), {len(elems)})]"
                if start is None:
                    return acc, w, sg
                tt = wider(t, at)
                return f"(({t})({self._mask(f'(({tt})({acc} >> {start}))', stop - start, tt)}))", w, sg
            if all(isinstance(e, Const) for e in elems) and t == "i64":
                tab = ", ".join(f"{e.value}LL" for e in elems)
                return (f"({{ static const i64 tb_[{len(elems)}] = {{ {tab} }}; "
                        f"tb_[CLAMP(({ic}), {len(elems)})]; }})"), w, sg
            code = f"({{ {t} v_; switch((u64)CLAMP(({ic}), {len(elems)})) {{ "
            for i, e in enumerate(elems):
                ec, _, _ = self.rv(e, pre)
                lab = f"case {i}:" if i < len(elems) - 1 else "default:"
                code += f"{lab} v_ = {ec}; break; "
            code += "} v_; })"
            return code, w, sg
        lo = Value.cast(v)
        if type(lo) is not type(v):
            return self.rv(lo, pre)
        raise Unsupported(f"value {type(v).__name__}")

    def _as_array(self, elems):
        first = elems[0]
        if isinstance(first, Slice):
            key = (first.start, first.stop)
            if not all(isinstance(e, Slice) and (e.start, e.stop) == key for e in elems):
                return None
            bases = [e.value for e in elems]
        else:
            key = (None, None)
            bases = elems
        if not all(isinstance(b, Signal) and b in self.in_array for b in bases):
            return None
        nm, i0 = self.in_array[bases[0]]
        if i0 != 0:
            return None
        for i, b in enumerate(bases):
            if self.in_array[b] != (nm, i):
                return None
        for n2, sigs, t in self.arrays:
            if n2 == nm:
                return nm, t, key, bases[0].shape()

    def _is_const(self, s):
        return (s not in self.sync_of and s not in self.comb_driver
                and s not in self._input_set and s not in self._clk_set)

    @staticmethod
    def _norm(v, w, sg):
        v &= (1 << w) - 1
        if sg and w and v >> (w - 1):
            v -= 1 << w
        return v

    @staticmethod
    def _mask(c, w, t):
        if w == 0:
            return f"(({t})0)"
        if w <= 62:
            return f"({c} & (({t}){(1 << w) - 1}LL))"
        if t == "i64":
            if w == 64:
                return c
            return f"({c} & (i64)0x{(1 << w) - 1:x}ULL)"
        if w >= tbits(t):
            return c
        return f"({c} & {lit((1 << w) - 1, t)})"

    def _wrap(self, c, w, sg, t_from, t_to):
        """truncate canonical value of type t_from to shape (w, sg)"""
        if w == 0:
            return f"(({t_to})0)"
        if sg:
            n = tbits(t_from)
            if w < n:
                if t_from == "i64":
                    return f"(({t_to})(((i64)((u64)({c}) << {n - w})) >> {n - w}))"
                return f"(({t_to})((({t_from})((unsigned {t_from})({c}) << {n - w})) >> {n - w}))"
            return f"(({t_to})({c}))"
        return f"(({t_to}){self._mask(f'({c})', w, t_from)})"

    def _op(self, v, w, sg, t, pre):
        op = v.operator
        A = [self.rv(o, pre) for o in v.operands]
        ts = [ctype(a[1], a[2]) for a in A]
        if len(A) == 1:
            (c, cw, cs), st = A[0], ts[0]
            if op == "~":
                if cs:
                    return f"(~{c})"
                return self._mask(f"(~({c}))", cw, st)
            if op == "-":
                return f"(-({t}){c})"
            if op in ("b", "r|"):
                return f"((i64)(({c}) != 0))"
            if op == "r&":
                tt = wider(st, ctype(cw, False))
                return f"((i64)({self._mask(f'(({tt}){c})', cw, tt)} == {lit((1 << cw) - 1, tt)}))"
            if op == "r^":
                tt = st if st == "i64" else wider(st, ctype(cw, False))
                return f"PARITY<{tt}>({self._mask(f'(({tt}){c})', cw, tt)})"
            if op in ("u", "s"):
                tt = wider(t, st)
                return self._wrap(f"({tt})({c})", w, sg, tt, t)
        elif len(A) == 2:
            (a, aw, as_), (b, bw, bs) = A
            tt = wider(t, *ts)
            if op in ("+", "-", "*", "&", "|", "^"):
                return f"(({t})((({tt}){a}) {op} (({tt}){b})))"
            if op == "//":
                return f"(({t})FDIV<{tt}>({a}, {b}))"
            if op == "%":
                return f"(({t})FMOD<{tt}>({a}, {b}))"
            if op == "<<":
                return f"(({t})SHL<{t}>(({t}){a}, (i64)({b})))"
            if op == ">>":
                return f"(({t})SHR<{ts[0]}>({a}, (i64)({b})))"
            if op in ("==", "!=", "<", "<=", ">", ">="):
                tt = wider(*ts)
                return f"((i64)((({tt}){a}) {op} (({tt}){b})))"
        elif op == "m":
            s, a, b = A
            return f"(({s[0]}) ? ({t}){a[0]} : ({t}){b[0]})"
        raise Unsupported(f"operator {op}")

    # ------------------------------------------------------------------ statements
    def lv(self, v, out, arg, argt, argw, ind, pre):
        """emit assignment of expression `arg` (C type argt, already evaluated into a variable) to lvalue"""
        if isinstance(v, Signal):
            sh = v.shape()
            t = ctype(sh.width, sh.signed)
            tt = wider(t, argt)
            if v not in self.names:
                return
            out.append(f"{ind}{self._dst(v, pre)} = {self._wrap(f'({tt}){arg}', sh.width, sh.signed, tt, t)};")
        elif isinstance(v, Operator) and v.operator in ("u", "s"):
            self.lv(v.operands[0], out, arg, argt, argw, ind, pre)
        elif isinstance(v, Slice):
            w = v.stop - v.start
            self._rmw(v.value, f"{v.start}", w, out, arg, argt, ind, pre)
        elif isinstance(v, Part):
            o, _, _ = self.rv(v.offset)
            self._rmw(v.value, f"((i64)({o})*{v.stride})", v.width, out, arg, argt, ind, pre)
        elif isinstance(v, Cat):
            off = 0
            for p in v.parts:
                pw = len(p)
                if pw:
                    c = f"SHR<{argt}>({arg}, {off})"
                    if pw < tbits(argt):
                        c = self._mask(c, pw, argt)
                    tmp = self._tmp()
                    out.append(f"{ind}{argt} {tmp} = {c};")
                    self.lv(p, out, tmp, argt, pw, ind, pre)
                off += pw
        elif isinstance(v, ArrayProxy):
            ic, iw, isg = self.rv(v.index)
            if isg:
                ic = self._mask(ic, iw, ctype(iw, isg))
            elems = list(v._iter_as_values())
            if not elems:
                return
            arr = self._as_array(elems)
            tmp = self._tmp()
            out.append(f"{ind}u64 {tmp} = CLAMP(({ic}), {len(elems)});")
            if arr:
                nm, at, (start, stop), esh = arr
                dst = f"{pre}{nm}[{tmp}]"
                tt = wider(at, argt)
                if start is None:
                    out.append(f"{ind}{dst} = {self._wrap(f'({tt}){arg}', esh.width, esh.signed, tt, at)};")
                else:
                    w = stop - start
                    m = (1 << w) - 1
                    val = (f"((({tt}){dst}) & ~({lit(m << start, tt)})) | "
                           f"({self._mask(f'(({tt}){arg})', w, tt)} << {start})")
                    out.append(f"{ind}{dst} = {self._wrap(f'({val})', esh.width, esh.signed, tt, at)};")
                return
            out.append(f"{ind}switch({tmp}) {{")
            for i, e in enumerate(elems):
                out.append(f"{ind} case {i}: {{" if i < len(elems) - 1 else f"{ind} default: {{")
                self.lv(e, out, arg, argt, argw, ind + "  ", pre)
                out.append(f"{ind} }} break;")
            out.append(f"{ind}}}")
        else:
            lo = Value.cast(v)
            if type(lo) is type(v):
                raise Unsupported(f"lvalue {type(v).__name__}")
            self.lv(lo, out, arg, argt, argw, ind, pre)

    def _rmw(self, base, start, w, out, arg, argt, ind, pre):
        bw = len(base)
        rt = ctype(bw, True)
        # read "next" value of base
        cur, cw, cs = self._lread(base, pre)
        tt = wider(rt, argt, ctype(cw, cs))
        tmp = self._tmp()
        m = lit((1 << w) - 1, wider(tt, ctype(w, False)))
        tt = wider(tt, ctype(w, False))
        out.append(f"{ind}{tt} {tmp} = ((({tt}){cur}) & ~SHL<{tt}>(({tt}){m}, {start})) | "
                   f"SHL<{tt}>({self._mask(f'(({tt}){arg})', w, tt)}, {start});")
        self.lv(base, out, tmp, tt, bw, ind, pre)

    def _lread(self, v, pre):
        """read of an lvalue's next value"""
        if isinstance(v, Signal):
            sh = v.shape()
            return self._dst(v, pre), sh.width, sh.signed
        save = self._readnext
        self._readnext = pre
        try:
            if isinstance(v, (Slice, Cat)) or (isinstance(v, Operator) and v.operator in "us"):
                return self.rv(v, pre)
            raise Unsupported(f"read-modify-write of {type(v).__name__}")
        finally:
            self._readnext = save

    def _dst(self, s, pre):
        return pre + self._sig(s)

    def _tmp(self):
        self._tmpn += 1
        return f"t{self._tmpn}"

    def stmts(self, stmts, out, ind, pre):
        for st in stmts:
            if isinstance(st, Assign):
                c, cw, cs = self.rv(st.rhs)
                t = ctype(cw, cs)
                if isinstance(st.lhs, Signal):
                    self.lv(st.lhs, out, c, t, cw, ind, pre)
                else:
                    tmp = self._tmp()
                    out.append(f"{ind}{t} {tmp} = {c};")
                    self.lv(st.lhs, out, tmp, t, cw, ind, pre)
            elif isinstance(st, Switch):
                c, cw, cs = self.rv(st.test)
                t = ctype(cw, False)
                tmp = self._tmp()
                c = self._mask(f"(({t}){c})", cw, t) if cs else c
                out.append(f"{ind}{t} {tmp} = {c};")
                first = True
                for patterns, ss in st.cases.items():
                    if not patterns:
                        cond = "true"
                    else:
                        cs_ = []
                        for p in patterns:
                            p = p.replace(" ", "")
                            if p == "":
                                cs_.append("true")
                                continue
                            m = int("".join("0" if b == "-" else "1" for b in p), 2)
                            val = int("".join("0" if b == "-" else b for b in p), 2)
                            if "-" in p:
                                cs_.append(f"(({tmp} & {lit(m, t)}) == {lit(val, t)})")
                            else:
                                cs_.append(f"({tmp} == {lit(val, t)})")
                        cond = " || ".join(cs_)
                    out.append(f"{ind}{'if' if first else 'else if'} ({cond}) {{")
                    self.stmts(ss, out, ind + "  ", pre)
                    out.append(f"{ind}}}")
                    first = False
            else:
                pass   # Assert / Assume / Cover are ignored

    # ------------------------------------------------------------------ emission
    def _emit(self):
        self._tmpn = 0
        self._readnext = ""
        self._input_set = SignalSet(self.inputs.values())
        self._clk_set = SignalSet()
        need = [s for s in self.need]
        o = []
        # registers
        regs = [s for s in need if s in self.sync_of and s not in self.in_array]
        combs = [s for s in need if s in self.comb_driver and s not in self.in_array]
        arrays_sync = [(n, sg, t) for n, sg, t in self.arrays if sg[0] in self.sync_of]
        arrays_comb = [(n, sg, t) for n, sg, t in self.arrays if sg[0] in self.comb_driver]
        port_consts = [s for s in self.outputs.values()
                       if s not in self.sync_of and s not in self.comb_driver and s not in self._input_set]
        self.regs = regs
        self.reg_arrays = arrays_sync

        o.append("struct DRegs {")
        for s in regs:
            sh = s.shape()
            o.append(f"  {ctype(sh.width, sh.signed)} {self.names[s]};")
        for n, sg, t in arrays_sync:
            o.append(f"  {t} {n}[{len(sg)}];")
        o.append("};")
        o.append("struct D : DRegs {")
        for n, s in self.inputs.items():
            sh = s.shape()
            if self.names[s] == n:
                o.append(f"  {ctype(sh.width, sh.signed)} {n};")
        for s in combs + list(SignalSet(port_consts)):
            sh = s.shape()
            o.append(f"  {ctype(sh.width, sh.signed)} {self.names[s]};")
        for n, sg, t in arrays_comb:
            o.append(f"  {t} {n}[{len(sg)}];")
        for a, b in self.alias:
            pass
        # reset
        o.append("  void reset() {")
        for s in regs + list(SignalSet(self.inputs.values())) + list(SignalSet(port_consts)):
            sh = s.shape()
            o.append(f"    {self.names[s]} = {lit(self._norm(s.reset, sh.width, sh.signed), ctype(sh.width, sh.signed))};")
        for n, sg, t in arrays_sync:
            vals = ", ".join(lit(self._norm(s.reset, s.width, s.signed), t) for s in sg)
            o.append(f"    {{ const {t} r_[] = {{ {vals} }}; memcpy({n}, r_, sizeof r_); }}")
        o.append("  }")
        o.append("  void reset_inputs() {")
        for s in SignalSet(list(self.inputs.values()) + port_consts):
            sh = s.shape()
            o.append(f"    {self.names[s]} = {lit(self._norm(s.reset, sh.width, sh.signed), ctype(sh.width, sh.signed))};")
        o.append("  }")
        # comb: topological order with SCC fixpoints
        order = self._toposort()
        o.append("  void comb() {")
        for s in SignalSet(self.inputs.values()):       # an input holds what its width can hold, as in the simulator
            sh = s.shape()
            t = ctype(sh.width, sh.signed)
            if sh.width:
                o.append(f"    {self.names[s]} = {self._wrap(self.names[s], sh.width, sh.signed, t, t)};")
            else:
                o.append(f"    {self.names[s]} = 0;")
        for scc in order:
            if len(scc) == 1 and not self._selfdep(scc[0]):
                self._emit_group(scc[0], o, "    ")
            else:
                sigs = [s for g in scc for s in self.comb_groups[g][0]]
                o.append("    for(int it_=0;;it_++){ bool ch_=false; if(it_>200) comb_loop();")
                for s in sigs:
                    if s in self.in_array:
                        continue
                    o.append(f"      auto old_{self._plain(s)} = {self.names[s]};")
                # pysim iterates from previous values; start from current
                for g in scc:
                    self._emit_group(g, o, "      ")
                for s in sigs:
                    if s in self.in_array:
                        continue
                    o.append(f"      ch_ |= old_{self._plain(s)} != {self.names[s]};")
                o.append("      if(!ch_) break; }")
        o.append("  }")
        # tick
        o.append("  void tick_(unsigned mask_) {")
        o.append("    static_assert(__is_trivially_copyable(DRegs));")
        o.append("    DRegs nx_ = *this;")
        for di in range(len(self.domains)):
            o.append(f"    if (mask_ & {1 << di}) {{")
            for b in self.keep_s:
                bd, sigs, stmts = self.sync_blocks[b]
                if bd == di:
                    self.stmts(stmts, o, "      ", "nx_.")
            o.append("    }")
        o.append("    *(DRegs*)this = nx_;")
        o.append("  }")
        # pack / unpack
        off = 0
        pk, up = [], []
        for s in regs:
            w = s.width
            n = self.names[s]
            t = ctype(w, s.signed)
            done = 0
            if tbits(t) == 64:
                if w:
                    pk.append(f"    PUT(b_, {off}, {w}, (u64){n});")
                    up.append(f"    {n} = " + self._wrap(f"(i64)GET(b_, {off}, {w})", w, s.signed, "i64", "i64") + ";")
                else:
                    up.append(f"    {n} = 0;")
            else:
                pk.append(f"    PUTW(b_, {off}, {w}, {n});")
                up.append(f"    {n} = " + self._wrap(f"GETW<{t}>(b_, {off}, {w})", w, s.signed, t, t) + ";")
            off += w
        for n, sg, t in arrays_sync:
            w = sg[0].width
            k = len(sg)
            if tbits(t) == 64:
                pk.append(f"    for(int i=0;i<{k};i++) PUT(b_, {off}+i*{w}, {w}, (u64){n}[i]);")
                up.append(f"    for(int i=0;i<{k};i++) {n}[i] = " +
                          self._wrap(f"(i64)GET(b_, {off}+i*{w}, {w})", w, sg[0].signed, "i64", "i64") + ";")
            else:
                pk.append(f"    for(int i=0;i<{k};i++) PUTW(b_, {off}+i*{w}, {w}, {n}[i]);")
                up.append(f"    for(int i=0;i<{k};i++) {n}[i] = " +
                          self._wrap(f"GETW<{t}>(b_, {off}+i*{w}, {w})", w, sg[0].signed, t, t) + ";")
            off += w * k
        self.state_bits = off
        o.append(f"  static constexpr int STATE_BITS_ = {max(off, 1)};")
        o.append("  void pack(u64* b_) const {")
        o.extend(pk)
        o.append("  }")
        o.append("  void unpack(const u64* b_) {")
        o.extend(up)
        o.append("  }")
        # dump for traces
        self.dump_inputs = list(self.inputs)
        self.dump_outputs = [n for n in self.outputs if n not in self.inputs]
        o.append("  void dump(FILE* f_) const {")
        for n in self.dump_inputs:
            s = self.inputs[n]
            o.append(f"    DUMPV(f_, {self.names[s]}, {s.width});")
        o.append('    fputs("| ", f_);')
        for n in self.dump_outputs:
            s = self.outputs[n]
            o.append(f"    DUMPV(f_, {self.names[s]}, {s.width});")
        o.append('    fputs("| ", f_);')
        for s in regs:
            o.append(f"    DUMPV(f_, {self.names[s]}, {s.width});")
        for n, sg, t in arrays_sync:
            o.append(f"    for(int i=0;i<{len(sg)};i++) DUMPV(f_, {n}[i], {sg[0].width});")
        o.append("  }")
        o.append("};")
        for a, b in self.alias:
            o.append(f"#define {a} {b}")
        self.code = "\n".join(o) + "\n"
        self.dump_regs = list(regs) + [s for _, sg, _ in arrays_sync for s in sg]

    def _plain(self, s):
        return self.names[s].replace("[", "_").replace("]", "_")

    def _emit_group(self, g, o, ind):
        sigs, stmts = self.comb_groups[g]
        o.append(ind + "{")
        for s in sigs:
            sh = s.shape()
            o.append(f"{ind}  {self._sig(s)} = {lit(self._norm(s.reset, sh.width, sh.signed), ctype(sh.width, sh.signed))};")
        self.stmts(stmts, o, ind + "  ", "")
        o.append(ind + "}")

    def _selfdep(self, g):
        ss = SignalSet(self.comb_groups[g][0])
        return any(d in ss for d in self.comb_deps[g])

    def _toposort(self):
        n = self.keep_c
        adj = {g: [] for g in n}
        ks = set(n)
        for g in n:
            for d in self.comb_deps[g]:
                if d in self.comb_driver:
                    h = self.comb_driver[d]
                    if h in ks:
                        adj[g].append(h)
        # Tarjan (iterative): emits dependencies first
        index, low, onst, st, out = {}, {}, set(), [], []
        ctr = [0]
        for root in n:
            if root in index:
                continue
            work = [(root, iter(adj[root]))]
            index[root] = low[root] = ctr[0]; ctr[0] += 1
            st.append(root); onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = ctr[0]; ctr[0] += 1
                        st.append(w); onst.add(w)
                        work.append((w, iter(adj[w])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = st.pop(); onst.discard(w); comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
        return out
