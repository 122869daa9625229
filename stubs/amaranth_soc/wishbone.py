from amaranth import Cat, Elaboratable, Module, Repl, Signal
from amaranth.hdl.rec import Record, DIR_FANIN, DIR_FANOUT
from amaranth.utils import log2_int

from . import memory
import amaranth_soc

OPT = (("err", 1, DIR_FANIN), ("rty", 1, DIR_FANIN), ("stall", 1, DIR_FANIN), ("lock", 1, DIR_FANOUT), ("cti", 3, DIR_FANOUT), ("bte", 2, DIR_FANOUT))


class Interface(Record):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        granularity = granularity or data_width
        self.addr_width, self.data_width, self.granularity, self.features = addr_width, data_width, granularity, set(features)
        self._map = None
        layout = [("adr", addr_width, DIR_FANOUT), ("dat_w", data_width, DIR_FANOUT), ("dat_r", data_width, DIR_FANIN),
                  ("sel", data_width // granularity, DIR_FANOUT), ("cyc", 1, DIR_FANOUT), ("stb", 1, DIR_FANOUT),
                  ("we", 1, DIR_FANOUT), ("ack", 1, DIR_FANIN)]
        layout += [o for o in OPT if o[0] in self.features]
        super().__init__(layout, name=name, src_loc_at=1)

    @property
    def memory_map(self):
        if self._map is None:
            raise NotImplementedError("bus interface does not have a memory map")
        return self._map

    @memory_map.setter
    def memory_map(self, m):
        if not isinstance(m, memory.MemoryMap):
            raise TypeError("not a memory map")
        if m.data_width != self.granularity:
            raise ValueError(f"memory map has data width {m.data_width}, which is not the same as bus interface granularity {self.granularity}")
        if m.addr_width != max(1, self.addr_width + log2_int(self.data_width // self.granularity)):
            raise ValueError("memory map has another address width than the bus interface")
        m.freeze()
        self._map = m


class Decoder(Elaboratable):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        granularity = granularity or data_width
        self.data_width, self.granularity, self.features = data_width, granularity, set(features)
        self._map = memory.MemoryMap(addr_width=max(1, addr_width + log2_int(data_width // granularity)), data_width=granularity, alignment=alignment)
        self._bus = None
        self._subs = {}

    @property
    def bus(self):
        if self._bus is None:
            self._map.freeze()
            self._bus = Interface(addr_width=self._map.addr_width - log2_int(self.data_width // self.granularity), data_width=self.data_width,
                                  granularity=self.granularity, features=self.features)
            self._bus.memory_map = self._map
        return self._bus

    def align_to(self, alignment):
        return self._map.align_to(alignment)

    def add(self, sub_bus, *, addr=None, sparse=False, extend=False):
        if not isinstance(sub_bus, Interface):
            raise TypeError("Subordinate bus must be an instance of wishbone.Interface")
        if sub_bus.granularity > self.granularity:
            raise ValueError("Subordinate bus has granularity which is greater than that of the decoder")
        if not sparse:
            if sub_bus.data_width != self.data_width:
                raise ValueError("Subordinate bus has another data width (required for dense address translation)")
        elif sub_bus.granularity != sub_bus.data_width:
            raise ValueError("Subordinate bus has a granularity other than its data width (required for sparse address translation)")
        for f in ("err", "rty", "stall"):
            if f in sub_bus.features and f not in self.features:
                raise ValueError(f"Subordinate bus has optional output {f}, but the decoder does not have a corresponding input")
        self._subs[id(sub_bus.memory_map)] = sub_bus
        return self._map.add_window(sub_bus.memory_map, addr=addr, sparse=sparse, extend=extend)

    def elaborate(self, platform):
        m = Module()
        if not amaranth_soc.FUNCTIONAL:
            return m
        ack = 0
        g = log2_int(self.data_width // self.granularity)
        with m.Switch(self.bus.adr):
            for w, (pat, ratio) in self._map.window_patterns():
                sub = self._subs[id(w)]
                m.d.comb += [sub.adr.eq(self.bus.adr << log2_int(ratio)), sub.dat_w.eq(self.bus.dat_w),
                             sub.sel.eq(Cat(Repl(s, ratio) for s in self.bus.sel)), sub.we.eq(self.bus.we), sub.stb.eq(self.bus.stb)]
                for f in ("lock", "cti", "bte"):
                    if f in sub.features and f in self.features:
                        m.d.comb += getattr(sub, f).eq(getattr(self.bus, f))
                with m.Case(pat[:-g] if g else pat):
                    m.d.comb += [sub.cyc.eq(self.bus.cyc), self.bus.dat_r.eq(sub.dat_r)]
                ack = ack | (sub.ack & sub.cyc)
        m.d.comb += self.bus.ack.eq(ack)
        return m


class Arbiter(Elaboratable):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), name=None):
        self.bus = Interface(addr_width=addr_width, data_width=data_width, granularity=granularity, features=features)
        self._intrs = []

    def add(self, intr_bus):
        if not isinstance(intr_bus, Interface):
            raise TypeError("Initiator bus must be an instance of wishbone.Interface")
        for a in ("addr_width", "data_width"):
            if getattr(intr_bus, a) != getattr(self.bus, a):
                raise ValueError(f"Initiator bus has another {a}")
        if intr_bus.granularity < self.bus.granularity:
            raise ValueError("Initiator bus has granularity lesser than the arbiter")
        for f in ("err", "rty", "stall"):
            if f in self.bus.features and f not in intr_bus.features:
                raise ValueError(f"Arbiter has optional output {f}, but the initiator bus does not have a corresponding input")
        self._intrs.append(intr_bus)

    def elaborate(self, platform):
        m = Module()
        if not amaranth_soc.FUNCTIONAL:
            return m
        n = len(self._intrs)
        grant = Signal(range(n))
        req = Signal(n)
        m.d.comb += req.eq(Cat(b.cyc for b in self._intrs))
        with m.If(~self.bus.cyc):
            with m.Switch(grant):
                for i in range(n):
                    with m.Case(i):
                        for p in reversed(range(i + 1, i + n)):
                            with m.If(req[p % n]):
                                m.d.sync += grant.eq(p % n)
        with m.Switch(grant):
            for i, b in enumerate(self._intrs):
                m.d.comb += b.dat_r.eq(self.bus.dat_r)
                with m.Case(i):
                    ratio = b.granularity // self.bus.granularity
                    m.d.comb += [self.bus.adr.eq(b.adr), self.bus.dat_w.eq(b.dat_w), self.bus.sel.eq(Cat(Repl(s, ratio) for s in b.sel)),
                                 self.bus.we.eq(b.we), self.bus.stb.eq(b.stb), self.bus.cyc.eq(b.cyc), b.ack.eq(self.bus.ack)]
                    for f in ("lock", "cti", "bte"):
                        if f in self.bus.features and f in b.features:
                            m.d.comb += getattr(self.bus, f).eq(getattr(b, f))
        return m
