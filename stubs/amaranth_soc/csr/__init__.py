from enum import Enum

from amaranth import Elaboratable, Module, Mux, Signal
from amaranth.hdl.rec import Record

import amaranth_soc
from ..memory import MemoryMap


class Access(Enum):
    R = "r"
    W = "w"
    RW = "rw"

    def readable(self):
        return self != Access.W

    def writable(self):
        return self != Access.R


class Element(Record):
    Access = Access

    def __init__(self, width, access, *, name=None, src_loc_at=0):
        self.width, self.access = width, Access(access)
        self.csr_name = name
        layout = []
        if self.access.readable():
            layout += [("r_data", width), ("r_stb", 1)]
        if self.access.writable():
            layout += [("w_data", width), ("w_stb", 1)]
        super().__init__(layout, name=name, src_loc_at=1)


class Interface(Record):
    def __init__(self, *, addr_width, data_width, name=None):
        self.addr_width, self.data_width = addr_width, data_width
        self.memory_map = None
        super().__init__([("addr", addr_width), ("r_data", data_width), ("r_stb", 1), ("w_data", data_width), ("w_stb", 1)], name=name, src_loc_at=1)


class Multiplexer(Elaboratable):
    created = []        # every multiplexer, in order of construction: lets a harness find the register elements

    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self.data_width = data_width
        self._map = MemoryMap(addr_width=addr_width, data_width=data_width, alignment=alignment)
        self._bus = None
        self.elements = []
        Multiplexer.created.append(self)

    @property
    def bus(self):
        if self._bus is None:
            self._map.freeze()
            self._bus = Interface(addr_width=self._map.addr_width, data_width=self.data_width, name="csr")
            self._bus.memory_map = self._map
        return self._bus

    def align_to(self, alignment):
        return self._map.align_to(alignment)

    def add(self, element, *, addr=None, alignment=None, extend=False):
        if not isinstance(element, Element):
            raise TypeError("Element must be an instance of csr.Element")
        self.elements.append(element)
        return self._map.add_resource(element, name=element.csr_name, size=-(-element.width // self.data_width), addr=addr, alignment=alignment, extend=extend)

    def elaborate(self, platform):
        m = Module()
        if not amaranth_soc.FUNCTIONAL:
            return m
        bus = self.bus
        r_data = 0
        for e, (start, end) in self._map.resources():
            n = -(-e.width // self.data_width)          # chunks in use; the rest of an aligned range is empty
            shadow = Signal(n * self.data_width)
            en = Signal(n)
            if e.access.readable():
                m.d.sync += en.eq(0)
            if e.access.writable():
                m.d.comb += e.w_data.eq(shadow)
                m.d.sync += e.w_stb.eq(0)
            for k in range(n):
                part = shadow.word_select(k, self.data_width)
                with m.If(bus.addr == start + k):
                    if e.access.readable():
                        if k == 0:
                            m.d.comb += e.r_stb.eq(bus.r_stb)
                            with m.If(bus.r_stb):
                                m.d.sync += shadow.eq(e.r_data)
                        m.d.sync += en[k].eq(bus.r_stb)
                    if e.access.writable():
                        if k == n - 1:
                            m.d.sync += e.w_stb.eq(bus.w_stb)
                        with m.If(bus.w_stb):
                            m.d.sync += part.eq(bus.w_data)
                r_data = r_data | Mux(en[k], part, 0)
        m.d.comb += bus.r_data.eq(r_data)
        return m
