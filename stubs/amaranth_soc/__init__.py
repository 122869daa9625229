"""Stand-in for the amaranth_soc package (not installed in the sandbox), written from its public interface of 2022
(MemoryMap with implicit/explicit addresses, CSR elements and multiplexer, Wishbone decoder/arbiter/CSR bridge).

FUNCTIONAL selects whether the bus fabric is elaborated.  With False (the default) multiplexers, bridges and decoders are
empty, so that a harness can drive register elements directly."""
FUNCTIONAL = False
