from amaranth.utils import bits_for


class ResourceInfo:
    def __init__(self, resource, name, start, end, width):
        self.resource, self.name, self.start, self.end, self.width = resource, name, start, end, width


def _up(v, a):
    return (v + a - 1) // a * a


class MemoryMap:
    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self.addr_width, self.data_width, self.alignment, self.name = addr_width, data_width, alignment, name
        self._frozen = False
        self._next = 0
        self._res = []      # (resource, name, start, end)
        self._win = []      # (window, start, end, ratio)

    def freeze(self):
        self._frozen = True

    def _check(self):
        if self._frozen:
            raise ValueError("Memory map has been frozen")

    def align_to(self, alignment):
        self._next = _up(self._next, 1 << max(alignment, self.alignment))
        return self._next

    def _place(self, addr, size, alignment, extend):
        if addr is not None:
            if addr % (1 << alignment):
                raise ValueError(f"explicitly specified address {addr:#x} must be a multiple of {1 << alignment:#x} bytes")
        else:
            addr = _up(self._next, 1 << alignment)
        size = _up(max(size, 1), 1 << alignment)
        if addr > (1 << self.addr_width) or addr + size > (1 << self.addr_width):
            if not extend:
                raise ValueError(f"address range {addr:#x}..{addr + size:#x} out of bounds for memory map spanning {self.addr_width} address bits")
            self.addr_width = bits_for(addr + size - 1)
        for s, e in [(r[2], r[3]) for r in self._res] + [(w[1], w[2]) for w in self._win]:
            if addr < e and s < addr + size:
                raise ValueError(f"address range {addr:#x}..{addr + size:#x} overlaps with {s:#x}..{e:#x}")
        self._next = addr + size
        return addr, addr + size

    def add_resource(self, resource, *, name=None, size, addr=None, alignment=None, extend=False):
        self._check()
        if any(r[0] is resource for r in self._res):
            raise ValueError("resource is already added")
        a = self.alignment if alignment is None else max(alignment, self.alignment)
        s, e = self._place(addr, size, a, extend)
        self._res.append((resource, name, s, e))
        return s, e

    def add_window(self, window, *, addr=None, sparse=None, extend=False):
        self._check()
        if any(w[0] is window for w in self._win):
            raise ValueError("window is already added")
        if window.data_width > self.data_width:
            raise ValueError("window has a wider data width")
        if window.data_width != self.data_width and sparse is None:
            raise ValueError("sparse must be specified for a narrower window")
        ratio = self.data_width // window.data_width if not sparse else 1
        size = max(1, (1 << window.addr_width) // ratio)
        s, e = self._place(addr, size, max(self.alignment, (size - 1).bit_length()), extend)
        window.freeze()
        self._win.append((window, s, e, ratio))
        return s, e, ratio

    def resources(self):
        for r, n, s, e in self._res:
            yield r, (s, e)

    def windows(self):
        for w, s, e, ratio in self._win:
            yield w, (s, e, ratio)

    def window_patterns(self):
        for w, s, e, ratio in self._win:
            k = max(0, ((1 << w.addr_width) // ratio - 1).bit_length())
            hi = format(s >> k, f"0{self.addr_width - k}b") if self.addr_width > k else ""
            yield w, (hi + "-" * k, ratio)

    def all_resources(self):
        out = []
        for r, n, s, e in self._res:
            out.append(ResourceInfo(r, (n,) if isinstance(n, str) else n, s, e, self.data_width))
        for w, s, e, ratio in self._win:
            for i in w.all_resources():
                out.append(ResourceInfo(i.resource, ((w.name,) if w.name else ()) + i.name, s + i.start // ratio, s + -(-i.end // ratio), i.width * ratio))
        return iter(sorted(out, key=lambda i: i.start))
