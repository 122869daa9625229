from .timer import _Regs


class AsyncSerial:
    def __init__(self, *, divisor, pins=None):
        self.divisor, self.pins = divisor, pins


class AsyncSerialPeripheral(_Regs):
    def __init__(self, *, core):
        self.core = core
        super().__init__("uart", 64)
