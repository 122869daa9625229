from amaranth import Elaboratable, Module
from amaranth_soc import memory, wishbone
from .event import IRQLine


class _Regs(Elaboratable):
    def __init__(self, name, size):
        self.name = name
        self.bus = wishbone.Interface(addr_width=(size // 4 - 1).bit_length(), data_width=32, granularity=8)
        mm = memory.MemoryMap(addr_width=(size - 1).bit_length(), data_width=8)
        mm.add_resource(self, name=f"{name}_regs", size=size)
        self.bus.memory_map = mm
        self.irq = IRQLine(name=f"{name}_irq")

    def elaborate(self, platform):
        return Module()


class TimerPeripheral(_Regs):
    def __init__(self, width):
        self.width = width
        super().__init__("timer", 32)
