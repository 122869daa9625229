from amaranth import Cat, Elaboratable, Module, Signal
from amaranth.utils import log2_int

import amaranth_soc
from .. import wishbone
from ..memory import MemoryMap


class WishboneCSRBridge(Elaboratable):
    def __init__(self, csr_bus, *, data_width=None, name=None):
        data_width = data_width or csr_bus.data_width
        if data_width not in (8, 16, 32, 64):
            raise ValueError(f"Data width must be one of 8, 16, 32, 64, not {data_width}")
        ratio = data_width // csr_bus.data_width
        bits = log2_int(ratio)
        self.csr_bus = csr_bus
        self.wb_bus = wishbone.Interface(addr_width=max(0, csr_bus.addr_width - bits), data_width=data_width, granularity=csr_bus.data_width)
        mm = MemoryMap(addr_width=max(1, self.wb_bus.addr_width + bits), data_width=csr_bus.data_width, name=name)
        mm.add_window(csr_bus.memory_map)
        self.wb_bus.memory_map = mm

    def elaborate(self, platform):
        m = Module()
        if not amaranth_soc.FUNCTIONAL:
            return m
        csr, wb = self.csr_bus, self.wb_bus
        n = len(wb.sel)
        g = wb.granularity
        cycle = Signal(range(n + 1))
        m.d.comb += csr.addr.eq(Cat(cycle[:log2_int(n)], wb.adr))
        with m.If(wb.cyc & wb.stb):
            with m.Switch(cycle):
                for k in range(n):
                    with m.Case(k):
                        if k:
                            m.d.sync += wb.dat_r[(k - 1) * g:k * g].eq(csr.r_data)
                        m.d.comb += [csr.r_stb.eq(wb.sel[k] & ~wb.we), csr.w_data.eq(wb.dat_w[k * g:(k + 1) * g]), csr.w_stb.eq(wb.sel[k] & wb.we)]
                        m.d.sync += cycle.eq(k + 1)
                with m.Default():
                    m.d.sync += [wb.dat_r[(n - 1) * g:].eq(csr.r_data), wb.ack.eq(1)]
        with m.If(wb.ack):
            m.d.sync += [cycle.eq(0), wb.ack.eq(0)]
        return m
