from amaranth import Elaboratable, Module
from amaranth_soc import memory, wishbone


class SRAMPeripheral(Elaboratable):
    def __init__(self, *, size, data_width=32, granularity=8, writable=True):
        self.size, self.writable, self.name = size, writable, "sram"
        words = size * granularity // data_width
        self.bus = wishbone.Interface(addr_width=(words - 1).bit_length(), data_width=data_width, granularity=granularity)
        self._mem = object()
        mm = memory.MemoryMap(addr_width=(size - 1).bit_length(), data_width=granularity)
        mm.add_resource(self._mem, name="mem", size=size)
        self.bus.memory_map = mm

    def elaborate(self, platform):
        return Module()
