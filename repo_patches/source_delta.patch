From 7e1c90776cb5c8ef47b0947958c9cf518b78c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 01/58] fix: TransactionalizedFIFO presents stale read_data in
 the cycle after read_discard

---
 amlib/utils/fifo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/fifo.py b/amlib/utils/fifo.py
index d82730f..dafe80b 100644
--- a/amlib/utils/fifo.py
+++ b/amlib/utils/fifo.py
@@ -179,8 +179,11 @@ class TransactionalizedFIFO(Elaboratable):
 
         # Our memory always takes a single cycle to provide its read output; so we'll update its address
         # "one cycle in advance". Accordingly, if we're about to advance the FIFO, we'll use the next read
-        # address as our input. If we're not, we'll use the current one.
-        with m.If(self.read_en & ~self.empty):
+        # address as our input. If we're not, we'll use the current one; and if we're about to rewind, we'll
+        # use the position we're rewinding to.
+        with m.If(self.read_discard):
+            m.d.comb += read_port.addr.eq(committed_read_pointer)
+        with m.Elif(self.read_en & ~self.empty):
             m.d.comb += read_port.addr.eq(next_read_pointer)
         with m.Else():
             m.d.comb += read_port.addr.eq(current_read_pointer)
-- 
2.43.0


From f5452a7db9de9a2fba37672b86c402e1969c14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 02/58] fix: bits: negative indices count from the end of the
 sequence

---
 amlib/utils/bits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/bits.py b/amlib/utils/bits.py
index feda7d8..0b01dc8 100644
--- a/amlib/utils/bits.py
+++ b/amlib/utils/bits.py
@@ -137,7 +137,7 @@ class bits:
     def __getitem__(self, key):
         if isinstance(key, int):
             if key < 0:
-                return (self._int_ >> (self._len_ - key)) & 1
+                return (self._int_ >> (self._len_ + key)) & 1
             else:
                 return (self._int_ >> key) & 1
         if isinstance(key, slice):
-- 
2.43.0


From 94c0390d4d09bd89e8216dc6541e3e4eae935470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 03/58] fix: bits: comparing with a value that is no bit
 sequence yields False instead of raising

---
 amlib/utils/bits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/bits.py b/amlib/utils/bits.py
index 0b01dc8..149e0ad 100644
--- a/amlib/utils/bits.py
+++ b/amlib/utils/bits.py
@@ -157,7 +157,7 @@ class bits:
     def __eq__(self, other):
         try:
             other = self.__class__(other)
-        except TypeError:
+        except (TypeError, ValueError):
             return False
         return self._len_ == other._len_ and self._int_ == other._int_
 
-- 
2.43.0


From 3b47be8de3e5da81c7c4d8a1699183507f90c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 04/58] fix: past_value_of keeps the full width of its input

---
 amlib/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/__init__.py b/amlib/utils/__init__.py
index 01d14d9..5cf9a8e 100644
--- a/amlib/utils/__init__.py
+++ b/amlib/utils/__init__.py
@@ -52,7 +52,7 @@ def past_value_of(m, signal, *, domain):
     """ Generates and returns a signal that represents the value of another signal a cycle ago. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal.like(signal)
     m.d[domain] += delayed.eq(signal)
 
     return delayed
-- 
2.43.0


From 65feef617797247f31956107fcf66ece2906ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 05/58] fix: Timer with a load or reload count of one raises
 done after one cycle

---
 amlib/utils/timer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amlib/utils/timer.py b/amlib/utils/timer.py
index 8ac9f39..9107e34 100644
--- a/amlib/utils/timer.py
+++ b/amlib/utils/timer.py
@@ -32,6 +32,9 @@ class Timer(Elaboratable):
                     # load is one-based, but we stop at zero
                     m.d.sync += counter.eq(counter - 1)
                     m.next = "RUNNING"
+                    # a single cycle is already over with the next clock
+                    with m.If(counter == 1):
+                        m.next = "DONE"
 
             with m.State("RUNNING"):
                 m.d.sync += counter.eq(counter - 1)
@@ -43,7 +46,8 @@ class Timer(Elaboratable):
                     # we want the next done to appear
                     # exactly 'reload_in' cycles later
                     m.d.sync += counter.eq(self.reload_in - 1)
-                    m.next = "RUNNING"
+                    with m.If(self.reload_in > 1):
+                        m.next = "RUNNING"
                 if self._allow_restart:
                     with m.Else():
                         m.next = "IDLE"
-- 
2.43.0


From b0456bc80065024089a8a94b6129b6e882c68a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 06/58] fix: StreamInterface.attach also connects user-defined
 extra fields

---
 amlib/stream/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/__init__.py b/amlib/stream/__init__.py
index 2df6991..47b9764 100644
--- a/amlib/stream/__init__.py
+++ b/amlib/stream/__init__.py
@@ -70,7 +70,7 @@ class StreamInterface(Record):
     def attach(self, interface, omit=None):
         # Create lists of fields to be copied -to- the interface (RHS fields),
         # and lists of fields to be copied -from- the interface (LHS fields).
-        rhs_fields = ['valid', 'first', 'last', 'payload', *self._extra_fields]
+        rhs_fields = ['valid', 'first', 'last', 'payload', *(name for name, *_ in self._extra_fields)]
         lhs_fields = ['ready']
         assignments = []
 
-- 
2.43.0


From 2b50999eb93e9bfb90c0457e25cc1cfae7eb8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 07/58] fix: stream/FIFO connection honours a first or last
 flag in bit number zero

---
 amlib/stream/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amlib/stream/__init__.py b/amlib/stream/__init__.py
index 47b9764..f947c2b 100644
--- a/amlib/stream/__init__.py
+++ b/amlib/stream/__init__.py
@@ -134,9 +134,9 @@ def connect_fifo_to_stream(fifo: FIFOInterface, stream: StreamInterface, firstBi
         stream.payload.eq(fifo.r_data),
     ]
 
-    if firstBit:
+    if firstBit is not None:
         result.append(stream.first.eq(fifo.r_data[firstBit]))
-    if lastBit:
+    if lastBit is not None:
         result.append(stream.last.eq(fifo.r_data[lastBit]))
 
     return result
@@ -155,9 +155,9 @@ def connect_stream_to_fifo(stream: StreamInterface, fifo: FIFOInterface, firstBi
         fifo.w_data.eq(stream.payload),
     ]
 
-    if firstBit:
+    if firstBit is not None:
         result.append(fifo.w_data[firstBit].eq(stream.first))
-    if lastBit:
+    if lastBit is not None:
         result.append(fifo.w_data[lastBit].eq(stream.last))
 
     return result
-- 
2.43.0


From 714cddbd9fb99a84f7ad4d8cb7f6d9665ec19f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 08/58] fix: ConstantStreamGenerator applies start_position at
 start only and clamps it to the number of words

---
 amlib/stream/generator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 7fc19b6..b0197a7 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -162,7 +162,8 @@ class ConstantStreamGenerator(Elaboratable):
             bytes_per_word = 0
 
         # Track when we're on the first and last packet.
-        on_first_packet = position_in_stream == self.start_position
+        # (The start position only applies when start is pulsed; it might be clamped, or change afterwards.)
+        on_first_packet = Signal()
         on_last_packet  = \
             (position_in_stream          == (data_length - 1)) | \
             (bytes_sent + bytes_per_word >= self.max_length)
@@ -173,7 +174,7 @@ class ConstantStreamGenerator(Elaboratable):
         start_position = Signal.like(position_in_stream)
 
         # If our starting position is greater than our data length, use our data length.
-        with m.If(self.start_position >= self._data_length):
+        with m.If(self.start_position >= data_length):
             m.d.comb += start_position.eq(data_length - 1)
 
         # Otherwise, use our starting position.
@@ -198,7 +199,8 @@ class ConstantStreamGenerator(Elaboratable):
                 # Keep ourselves at the beginning of the stream, but don't yet count.
                 m.d.sync += [
                     position_in_stream  .eq(start_position),
-                    bytes_sent          .eq(0)
+                    bytes_sent          .eq(0),
+                    on_first_packet     .eq(1)
                 ]
                 m.d.comb += [
                     rom_read_port.addr  .eq(start_position),
@@ -288,6 +290,7 @@ class ConstantStreamGenerator(Elaboratable):
 
                 # If the current data byte is accepted, move past it.
                 with m.If(self.stream.ready):
+                    m.d.sync += on_first_packet.eq(0)
 
                     # If there's still data left to transmit, move forward.
                     with m.If(~on_last_packet):
-- 
2.43.0


From 41ea1f1f0ae3074dc2549a74ad2b8bcef7de46bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 09/58] fix: PacketListStreamer terminates when the total
 length is a power of two

---
 amlib/stream/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index b0197a7..0fe61dd 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -744,7 +744,7 @@ class PacketListStreamer(Elaboratable):
         total_no_bytes = len(packets_flattened)
 
         position           = Signal(range(total_no_bytes))
-        next_position      = Signal.like(position)
+        next_position      = Signal(range(total_no_bytes + 1))
         current_packet     = Signal(range(no_packets))
         current_packet_len = Signal(max_length_width)
 
-- 
2.43.0


From 389588012dea2ce164fe39f8fccc97f1ff741649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 10/58] fix: PacketListStreamer passes its data width on, so
 words wider than 8 bits are not truncated

---
 amlib/stream/generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 0fe61dd..1cd2360 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -735,8 +735,12 @@ class PacketListStreamer(Elaboratable):
         max_length_width = bits_for(max(packet_lengths))
         packets_flattened = [words for packet in self.packets for words in packet]
 
+        # the generator counts its maximum length in bytes, we count in words
+        bytes_per_word = (self._data_width + 7) // 8
+
         m.submodules.generator = generator = \
-            ConstantStreamGenerator(packets_flattened, max_length_width=max_length_width)
+            ConstantStreamGenerator(packets_flattened, data_width=self._data_width,
+                                    max_length_width=bits_for(max(packet_lengths) * bytes_per_word))
 
         rom = Memory(width=max_length_width, depth=no_packets, init=packet_lengths)
         m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(transparent=False)
@@ -754,7 +758,7 @@ class PacketListStreamer(Elaboratable):
             generator.start_position.eq(position),
             packet_lengths_rom.addr.eq(current_packet),
             current_packet_len.eq(packet_lengths_rom.data),
-            generator.max_length.eq(current_packet_len),
+            generator.max_length.eq(current_packet_len * bytes_per_word),
             next_position.eq(position + current_packet_len),
             self.done.eq(0)
         ]
-- 
2.43.0


From 1f6b91c509880bebfc78cd62683ee3cd1400d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 11/58] fix: PacketListStreamer does not hang when started in
 the first cycle after reset

---
 amlib/stream/generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 1cd2360..9b77e2c 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -766,8 +766,12 @@ class PacketListStreamer(Elaboratable):
         with m.FSM():
             with m.State("INIT"):
                 with m.If(self.start):
-                    m.d.comb += generator.start.eq(1)
-                    m.next = "WAIT"
+                    # directly after reset, the first packet length is not available yet
+                    with m.If(current_packet_len == 0):
+                        m.next = "SEND"
+                    with m.Else():
+                        m.d.comb += generator.start.eq(1)
+                        m.next = "WAIT"
 
             with m.State("SEND"):
                 m.d.comb += generator.start.eq(1)
-- 
2.43.0


From 4459319afdbf1ac5a1a6e2ddbcc62393e6bab1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 12/58] fix: I2CTarget sets up data before it releases a
 stretched clock

---
 amlib/io/i2c.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amlib/io/i2c.py b/amlib/io/i2c.py
index 3061964..cf9d7b8 100644
--- a/amlib/io/i2c.py
+++ b/amlib/io/i2c.py
@@ -316,6 +316,10 @@ class I2CTarget(Module):
         shreg_i = Signal(8)
         shreg_o = Signal(8)
 
+        # when a stretched clock is released, it has to rise after the data was set up
+        busy_r  = Signal()
+        self.sync += busy_r.eq(self.busy)
+
         self.submodules.fsm = FSM(reset_state="IDLE")
         self.fsm.act("IDLE",
             If(bus.start,
@@ -400,7 +404,7 @@ class I2CTarget(Module):
                 NextValue(bus.sda_o, 1),
                 NextState("WRITE-SHIFT")
             ).Elif(~bus.scl_i,
-                NextValue(bus.scl_o, ~self.busy),
+                NextValue(bus.scl_o, ~(self.busy | busy_r)),
                 If(self.ack_o,
                     NextValue(bus.sda_o, 0)
                 )
@@ -424,11 +428,11 @@ class I2CTarget(Module):
                 If(~bus.scl_i,
                     NextValue(bus.sda_o, shreg_o[7])
                 ),
-                NextValue(bus.scl_o, 1),
                 NextState("READ-SHIFT")
             )
         )
         self.fsm.act("READ-SHIFT",
+            NextValue(bus.scl_o, 1),
             If(bus.stop,
                 self.stop.eq(1),
                 NextState("IDLE")
-- 
2.43.0


From 2c374cb085e03c8fb0def305d0f58d2f9da6217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 13/58] fix: I2CStreamTransmitter waits for the producer
 instead of writing from an empty FIFO

---
 amlib/stream/i2c.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amlib/stream/i2c.py b/amlib/stream/i2c.py
index 5bf260b..fdc503f 100644
--- a/amlib/stream/i2c.py
+++ b/amlib/stream/i2c.py
@@ -53,15 +53,13 @@ class I2CStreamTransmitter(Elaboratable):
                     m.next = "STREAMING"
 
             with m.State("STREAMING"):
-                with m.If(~i2c.busy):
+                with m.If(~i2c.busy & in_fifo.r_rdy):
                     m.d.comb += [
                         i2c.data_i.eq(payload),
                         i2c.write.eq(1),
+                        in_fifo.r_en.eq(1),
                     ]
 
-                    with m.If(in_fifo.r_rdy):
-                        m.d.comb += in_fifo.r_en.eq(1)
-
                     with m.If(last):
                         m.next = "STOP"
 
-- 
2.43.0


From 328af2831c1cc4be17b0cb0327a15c859fc486f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:03 +0000
Subject: [PATCH 14/58] fix: SPIDeviceInterface keeps word boundaries for word
 sizes that are no power of two

---
 amlib/io/spi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 3345ebb..8d2eecc 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -333,6 +333,7 @@ class SPIDeviceInterface(Elaboratable):
                 # If we're just completing a word, handle I/O.
                 with m.If(bit_count + 1 == self.word_size):
                     m.d.sync += [
+                        bit_count          .eq(0),
                         self.word_accepted .eq(1),
                         current_tx         .eq(self.word_out)
                     ]
-- 
2.43.0


From fbbc5c7a847afbbeedc942b3376fee4d1807e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 15/58] fix: SPIControllerInterface sends complete words in
 clock phase 0

---
 amlib/io/spi.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 8d2eecc..088bcc7 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -58,7 +58,7 @@ class SPIControllerInterface(Elaboratable):
             word_size      -- The size of each transmitted word, in bits.
             divisor        -- the divisor of the clock divider providing the SPI clock
             clock_polarity -- The SPI-standard clock polarity. 0 for idle low, 1 for idle high.
-            clock_phase    -- The SPI-standard clock phase. 1 to capture on the leading edge, or 0 for on the trailing
+            clock_phase    -- The SPI-standard clock phase. 0 to capture on the leading edge, or 1 for on the trailing
             msb_first      -- If true, or not provided, data will be transmitted MSB first (standard).
             cs_idles_high  -- If provided, data will be captured when CS goes _low_, rather than high.
             skip_input_cdc -- skips the CDC at the input signals
@@ -125,16 +125,24 @@ class SPIControllerInterface(Elaboratable):
             self.word_in.eq(spi_device.word_in),
             spi_device.word_out.eq(self.word_out),
             self.word_accepted.eq(spi_device.word_accepted),
-            self.word_complete.eq(spi_device.word_complete),
         ]
 
-        clock_edge = Rose(sck_divider.clock_out, clocks=self.divisor//8, domain="sync") if not self.clock_polarity else \
-                     Fell(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+        # If the first bit is captured on the trailing edge, we select the device on the leading edge.
+        # If it is captured on the leading edge, it has to be on the bus before, so we select the device
+        # half a clock period earlier, on the trailing edge, while the clock is still idle.
+        if self.clock_phase == 1:
+            leading_edge = Fell if self.clock_polarity else Rose
+            clock_edge   = leading_edge(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+        else:
+            trailing_edge = Rose if self.clock_polarity else Fell
+            clock_edge    = trailing_edge(sck_divider.clock_out, domain="sync")
 
         with m.FSM() as fsm:
-            m.d.comb += sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity))
-            cs_domain = m.d.comb if self.clock_phase == 1 else m.d.sync
-            cs_domain += cs.eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive))
+            transferring = fsm.ongoing("TRANSFER") | fsm.ongoing("FINISH")
+            m.d.comb += [
+                sck.eq(Mux(transferring, sck_divider.clock_out, self.clock_polarity)),
+                cs .eq(Mux(transferring, cs_active, cs_inactive))
+            ]
 
             with m.State("IDLE"):
                 m.d.sync += sck_divider.clock_enable_in.eq(0)
@@ -148,6 +156,16 @@ class SPIControllerInterface(Elaboratable):
 
             with m.State("TRANSFER"):
                 with m.If(spi_device.word_complete):
+                    with m.If(sck == self.clock_polarity):
+                        m.d.comb += self.word_complete.eq(1)
+                        m.next = "IDLE"
+                    with m.Else():
+                        m.next = "FINISH"
+
+            # the last clock pulse is still active: let it finish regularly
+            with m.State("FINISH"):
+                with m.If(sck == self.clock_polarity):
+                    m.d.comb += self.word_complete.eq(1)
                     m.next = "IDLE"
 
         return m
-- 
2.43.0


From 674b2bffbbc36fb26f23688fa1be6cd5b68a3868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 16/58] fix: SPI connect_to_resource connects the existing bus
 in the right directions

---
 amlib/io/spi.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 088bcc7..ae1dd3a 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -88,10 +88,10 @@ class SPIControllerInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            spi_resource.copi .eq(self.spi.sdo),
+            self.spi.sdi      .eq(spi_resource.cipo),
+            spi_resource.clk  .eq(self.spi.sck),
+            spi_resource.cs   .eq(self.spi.cs if not self.cs_idles_high else ~self.spi.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -235,10 +235,10 @@ class SPIDeviceInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs if not self.cs_idles_high else ~spi_resource.cs),
         ]
 
     def spi_edge_detectors(self, m, sck):
@@ -559,10 +559,10 @@ class SPICommandInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -915,10 +915,10 @@ class SPIRegisterInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From ddea3a3621d11f0cc181b9539b6d3c3e263c4a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 17/58] fix: I2S transmitter and receiver transfer both
 channels of samples up to 16 bits wide

---
 amlib/io/i2s.py | 133 +++++++++++++++---------------------------------
 1 file changed, 42 insertions(+), 91 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 4a2a230..24e1473 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -105,14 +105,8 @@ class I2STransmitter(Elaboratable):
         sample_width = self._sample_width
         frame_format = self._frame_format
 
+        # each stream word (and FIFO entry) is one sample of one channel
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
 
         tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
@@ -187,45 +181,30 @@ class I2STransmitter(Elaboratable):
                     ]
                     m.next = "LEFT_WAIT"
 
-            if concatenate_channels:
-                with m.State("LEFT_WAIT"):
-                    with m.If(~self.enable_in):
-                        m.next = "IDLE"
-                    with m.Else():
-                        with m.If(bit_clock_rose):
-                            with m.If((tx_cnt == 0)):
-                                with m.If(right_channel):
-                                    m.d.sync += tx_cnt.eq(sample_width)
-                                    m.next = "RIGHT"
-                                with m.Else():
-                                    m.next = "LEFT_WAIT"
-                            with m.Elif(tx_cnt > 0):
-                                m.next = "LEFT_FALL"
-            else:
-                with m.State("LEFT_WAIT"):
-                    with m.If(~self.enable_in):
-                        m.next = "IDLE"
-                    with m.Else():
-                        with m.If(bit_clock_rose):
-                            with m.If((tx_cnt == 0)):
-                                with m.If(right_channel):
-                                    m.d.sync += tx_cnt.eq(sample_width),
-                                    with m.If(tx_fifo.r_rdy):
-                                        # in LEFT_WAIT state, we wait for the
-                                        # right channel to start
-                                        with m.If(~first_flag):
-                                            m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
-                                            m.d.comb += tx_fifo.r_en.eq(1)
-                                        with m.Else():
-                                            m.d.comb += self.mismatch_out.eq(1)
+            with m.State("LEFT_WAIT"):
+                with m.If(~self.enable_in):
+                    m.next = "IDLE"
+                with m.Else():
+                    with m.If(bit_clock_rose):
+                        with m.If((tx_cnt == 0)):
+                            with m.If(right_channel):
+                                m.d.sync += tx_cnt.eq(sample_width),
+                                with m.If(tx_fifo.r_rdy):
+                                    # in LEFT_WAIT state, we wait for the
+                                    # right channel to start
+                                    with m.If(~first_flag):
+                                        m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                                        m.d.comb += tx_fifo.r_en.eq(1)
                                     with m.Else():
-                                        m.d.comb += self.underflow_out.eq(1)
-
-                                    m.next = "RIGHT_FALL"
+                                        m.d.comb += self.mismatch_out.eq(1)
                                 with m.Else():
-                                    m.next = "LEFT_WAIT"
-                            with m.Elif(tx_cnt > 0):
-                                m.next = "LEFT_FALL"
+                                    m.d.comb += self.underflow_out.eq(1)
+
+                                m.next = "RIGHT_FALL"
+                            with m.Else():
+                                m.next = "LEFT_WAIT"
+                        with m.Elif(tx_cnt > 0):
+                            m.next = "LEFT_FALL"
 
             # sync should be sampled on rising edge, but data should change on falling edge
             with m.State("RIGHT_FALL"):
@@ -341,14 +320,8 @@ class I2SReceiver(Elaboratable):
         sample_width = self._sample_width
         frame_format = self._frame_format
 
+        # each stream word (and FIFO entry) is one sample of one channel
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
 
         rx_cnt_width = math.ceil(math.log(fifo_data_width, 2))
         rx_cnt = Signal(rx_cnt_width)
@@ -421,50 +394,28 @@ class I2SReceiver(Elaboratable):
                     ]
                     m.next = "LEFT_WAIT"
 
-            if concatenate_channels:
-                with m.State("LEFT_WAIT"):
-                    with m.If(~self.enable_in):
-                        m.next = "IDLE"
-                    with m.Else():
-                        with m.If(bit_clock_rose):
-                            with m.If((rx_cnt == 0)):
-                                with m.If(right_channel):
-                                    with m.If(rx_delay_cnt == 0):
-                                        m.d.sync += [
+            with m.State("LEFT_WAIT"):
+                with m.If(~self.enable_in):
+                    m.next = "IDLE"
+                with m.Else():
+                    with m.If(bit_clock_rose):
+                        with m.If(rx_cnt == 0):
+                            with m.If(right_channel):
+                                with m.If(rx_delay_cnt == 0):
+                                    # write the current data word
+                                    m.d.comb += rx_fifo.w_en.eq(1)
+                                    m.d.sync += [
                                             rx_cnt.eq(sample_width),
                                             rx_delay_cnt.eq(rx_delay_val),
-                                        ]
-                                        m.next = "RIGHT"
-                                    with m.Else():
-                                        m.d.sync += rx_delay_cnt.eq(rx_delay_cnt - 1)
-                                        m.next = "LEFT_WAIT"
-                                with m.Else():
-                                    m.next = "LEFT_WAIT"
-                            with m.Elif(rx_cnt > 0):
-                                m.next = "LEFT"
-            else:
-                with m.State("LEFT_WAIT"):
-                    with m.If(~self.enable_in):
-                        m.next = "IDLE"
-                    with m.Else():
-                        with m.If(bit_clock_rose):
-                            with m.If(rx_cnt == 0):
-                                with m.If(right_channel):
-                                    with m.If(rx_delay_cnt == 0):
-                                        # write the current data word
-                                        m.d.comb += rx_fifo.w_en.eq(1)
-                                        m.d.sync += [
-                                                rx_cnt.eq(sample_width),
-                                                rx_delay_cnt.eq(rx_delay_val),
-                                        ]
-                                        m.next = "RIGHT"
-                                    with m.Else():
-                                        m.d.sync += rx_delay_cnt.eq(rx_delay_cnt - 1)
-                                        m.next = "LEFT_WAIT"
+                                    ]
+                                    m.next = "RIGHT"
                                 with m.Else():
+                                    m.d.sync += rx_delay_cnt.eq(rx_delay_cnt - 1)
                                     m.next = "LEFT_WAIT"
-                            with m.Elif(rx_cnt > 0):
-                                m.next = "LEFT"
+                            with m.Else():
+                                m.next = "LEFT_WAIT"
+                        with m.Elif(rx_cnt > 0):
+                            m.next = "LEFT"
 
             with m.State("RIGHT"):
                 with m.If(~self.enable_in):
-- 
2.43.0


From 11a5ab6cd75d166f866c2a308f995670eba49d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:47 +0000
Subject: [PATCH 18/58] fix: I2S transmitter and receiver start at the
 beginning of a left slot and never resend stale or misaligned samples

---
 amlib/io/i2s.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 24e1473..8bf0252 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -151,19 +151,15 @@ class I2STransmitter(Elaboratable):
         ]
 
         with m.FSM(reset="IDLE"):
+            # start with the next complete left channel, like after any other right channel
             with m.State("IDLE"):
+                m.d.sync += [
+                    tx_cnt.eq(0),
+                    tx_shifter.eq(0),
+                ]
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
-                        m.next = "WAIT_SYNC"
-
-            with m.State("WAIT_SYNC"):
-                with m.If(bit_clock_rose & left_channel):
-                    m.next = "LEFT_FALL"
-                    m.d.sync += [
-                        tx_cnt.eq(sample_width),
-                        tx_shifter.eq(Cat(tx_fifo.r_data, offset))
-                    ]
-                    m.d.comb += tx_fifo.r_en.eq(1),
+                    with m.If(bit_clock_rose & right_channel):
+                        m.next = "RIGHT_WAIT"
 
             # sync should be sampled on rising edge, but data should change on falling edge
             with m.State("LEFT_FALL"):
@@ -368,7 +364,7 @@ class I2SReceiver(Elaboratable):
             with m.State("IDLE"):
                 m.d.sync += rx_buf.eq(0)
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    with m.If(bit_clock_rose & right_channel):
                         m.d.sync += rx_delay_cnt.eq(rx_delay_val)
                         m.next = "WAIT_SYNC"
 
-- 
2.43.0


From 38ebd0a8826d8f33173e60768780125357e031b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:47 +0000
Subject: [PATCH 19/58] fix: I2S transmitter bit counter can hold 32 bit
 samples plus padding

---
 amlib/io/i2s.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 8bf0252..d620af0 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -112,8 +112,7 @@ class I2STransmitter(Elaboratable):
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
 
-        tx_cnt_width = math.ceil(math.log(fifo_data_width,2))
-        tx_cnt = Signal(tx_cnt_width)
+        tx_cnt = Signal(range(sample_width + 1))
         tx_shifter = Signal(tx_buf_width - 1)
         sample_msb = fifo_data_width - 1
 
-- 
2.43.0


From d5277ee88df0bfef2a1dad5b407513666b47111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 20/58] fix: I2S transmitter and receiver support slots exactly
 as long as the samples

---
 amlib/io/i2s.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index d620af0..f827650 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -111,6 +111,8 @@ class I2STransmitter(Elaboratable):
         tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
+        # the zero bit after the sample is optional: slots may be exactly as long as the sample
+        padding      = len(offset)
 
         tx_cnt = Signal(range(sample_width + 1))
         tx_shifter = Signal(tx_buf_width - 1)
@@ -181,23 +183,20 @@ class I2STransmitter(Elaboratable):
                     m.next = "IDLE"
                 with m.Else():
                     with m.If(bit_clock_rose):
-                        with m.If((tx_cnt == 0)):
-                            with m.If(right_channel):
-                                m.d.sync += tx_cnt.eq(sample_width),
-                                with m.If(tx_fifo.r_rdy):
-                                    # in LEFT_WAIT state, we wait for the
-                                    # right channel to start
-                                    with m.If(~first_flag):
-                                        m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
-                                        m.d.comb += tx_fifo.r_en.eq(1)
-                                    with m.Else():
-                                        m.d.comb += self.mismatch_out.eq(1)
+                        with m.If((tx_cnt <= padding) & right_channel):
+                            m.d.sync += tx_cnt.eq(sample_width),
+                            with m.If(tx_fifo.r_rdy):
+                                # in LEFT_WAIT state, we wait for the
+                                # right channel to start
+                                with m.If(~first_flag):
+                                    m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                                    m.d.comb += tx_fifo.r_en.eq(1)
                                 with m.Else():
-                                    m.d.comb += self.underflow_out.eq(1)
-
-                                m.next = "RIGHT_FALL"
+                                    m.d.comb += self.mismatch_out.eq(1)
                             with m.Else():
-                                m.next = "LEFT_WAIT"
+                                m.d.comb += self.underflow_out.eq(1)
+
+                            m.next = "RIGHT_FALL"
                         with m.Elif(tx_cnt > 0):
                             m.next = "LEFT_FALL"
 
@@ -222,7 +221,7 @@ class I2STransmitter(Elaboratable):
                     m.next = "IDLE"
                 with m.Else():
                     with m.If(bit_clock_rose):
-                        with m.If((tx_cnt == 0) & left_channel):
+                        with m.If((tx_cnt <= padding) & left_channel):
                             m.d.sync += tx_cnt.eq(sample_width)
                             with m.If(tx_fifo.r_rdy):
                                 # in RIGHT_WAIT, we wait for the left channel to start
@@ -410,6 +409,10 @@ class I2SReceiver(Elaboratable):
                             with m.Else():
                                 m.next = "LEFT_WAIT"
                         with m.Elif(rx_cnt > 0):
+                            # in slots exactly as long as the sample the last bit
+                            # follows the word clock edge
+                            with m.If(right_channel & (rx_delay_cnt > 0)):
+                                m.d.sync += rx_delay_cnt.eq(rx_delay_cnt - 1)
                             m.next = "LEFT"
 
             with m.State("RIGHT"):
@@ -440,6 +443,10 @@ class I2SReceiver(Elaboratable):
                                 m.d.sync += rx_delay_cnt.eq(rx_delay_cnt - 1)
                                 m.next = "RIGHT_WAIT"
                         with m.Elif(rx_cnt > 0):
+                            # in slots exactly as long as the sample the last bit
+                            # follows the word clock edge
+                            with m.If(left_channel & (rx_delay_cnt > 0)):
+                                m.d.sync += rx_delay_cnt.eq(rx_delay_cnt - 1)
                             m.next =  "RIGHT"
 
         return m
-- 
2.43.0


From d8530981a54eec9043029e616c632cf637e58a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 21/58] fix: I2S transmitter can be built in left justified
 format and aligns its samples with the word clock edge

---
 amlib/io/i2s.py | 74 +++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index f827650..6ffdbfb 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -108,14 +108,13 @@ class I2STransmitter(Elaboratable):
         # each stream word (and FIFO entry) is one sample of one channel
         fifo_data_width = sample_width
 
-        tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
         # the zero bit after the sample is optional: slots may be exactly as long as the sample
         padding      = len(offset)
 
         tx_cnt = Signal(range(sample_width + 1))
-        tx_shifter = Signal(tx_buf_width - 1)
+        tx_shifter = Signal(fifo_data_width)
         sample_msb = fifo_data_width - 1
 
         bit_clock  = Signal()
@@ -137,6 +136,15 @@ class I2STransmitter(Elaboratable):
             right_channel.eq(~left_channel)
         ]
 
+        # In the standard format the most significant bit follows one bit clock after
+        # the word clock edge, in the left justified format it starts together with it.
+        if frame_format == I2S_FORMAT.STANDARD:
+            left_starts, right_starts           = bit_clock_rose & left_channel, bit_clock_rose & right_channel
+            first_left_state, first_right_state = "LEFT_FALL", "RIGHT_FALL"
+        else:
+            left_starts, right_starts           = left_channel, right_channel
+            first_left_state, first_right_state = "LEFT", "RIGHT"
+
         m.submodules.tx_fifo = tx_fifo = SyncFIFOBuffered(width=fifo_data_width + 1, depth=self._fifo_depth)
 
         # first marks left channel
@@ -181,24 +189,20 @@ class I2STransmitter(Elaboratable):
             with m.State("LEFT_WAIT"):
                 with m.If(~self.enable_in):
                     m.next = "IDLE"
-                with m.Else():
-                    with m.If(bit_clock_rose):
-                        with m.If((tx_cnt <= padding) & right_channel):
-                            m.d.sync += tx_cnt.eq(sample_width),
-                            with m.If(tx_fifo.r_rdy):
-                                # in LEFT_WAIT state, we wait for the
-                                # right channel to start
-                                with m.If(~first_flag):
-                                    m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
-                                    m.d.comb += tx_fifo.r_en.eq(1)
-                                with m.Else():
-                                    m.d.comb += self.mismatch_out.eq(1)
-                            with m.Else():
-                                m.d.comb += self.underflow_out.eq(1)
-
-                            m.next = "RIGHT_FALL"
-                        with m.Elif(tx_cnt > 0):
-                            m.next = "LEFT_FALL"
+                with m.Elif((tx_cnt <= padding) & right_starts):
+                    m.d.sync += tx_cnt.eq(sample_width)
+                    with m.If(tx_fifo.r_rdy):
+                        # in LEFT_WAIT, we wait for the right channel to start
+                        with m.If(~first_flag):
+                            m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                            m.d.comb += tx_fifo.r_en.eq(1)
+                        with m.Else():
+                            m.d.comb += self.mismatch_out.eq(1)
+                    with m.Else():
+                        m.d.comb += self.underflow_out.eq(1)
+                    m.next = first_right_state
+                with m.Elif(bit_clock_rose & (tx_cnt > 0)):
+                    m.next = "LEFT_FALL"
 
             # sync should be sampled on rising edge, but data should change on falling edge
             with m.State("RIGHT_FALL"):
@@ -219,22 +223,20 @@ class I2STransmitter(Elaboratable):
             with m.State("RIGHT_WAIT"):
                 with m.If(~self.enable_in):
                     m.next = "IDLE"
-                with m.Else():
-                    with m.If(bit_clock_rose):
-                        with m.If((tx_cnt <= padding) & left_channel):
-                            m.d.sync += tx_cnt.eq(sample_width)
-                            with m.If(tx_fifo.r_rdy):
-                                # in RIGHT_WAIT, we wait for the left channel to start
-                                with m.If(first_flag):
-                                    m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
-                                    m.d.comb += tx_fifo.r_en.eq(1)
-                                with m.Else():
-                                    m.d.comb += self.mismatch_out.eq(1)
-                            with m.Else():
-                                m.d.comb += self.underflow_out.eq(1)
-                            m.next = "LEFT_FALL"
-                        with m.Elif(tx_cnt > 0):
-                            m.next = "RIGHT_FALL"
+                with m.Elif((tx_cnt <= padding) & left_starts):
+                    m.d.sync += tx_cnt.eq(sample_width)
+                    with m.If(tx_fifo.r_rdy):
+                        # in RIGHT_WAIT, we wait for the left channel to start
+                        with m.If(first_flag):
+                            m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                            m.d.comb += tx_fifo.r_en.eq(1)
+                        with m.Else():
+                            m.d.comb += self.mismatch_out.eq(1)
+                    with m.Else():
+                        m.d.comb += self.underflow_out.eq(1)
+                    m.next = first_left_state
+                with m.Elif(bit_clock_rose & (tx_cnt > 0)):
+                    m.next = "RIGHT_FALL"
 
         return m
 
-- 
2.43.0


From bceacc5fbc2f1c9e935b0402cb0531ec2660caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:33 +0000
Subject: [PATCH 22/58] fix: NumberToBitBar input can hold a maximum value that
 is a power of two

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 3b133a7..5f27e2a 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -88,7 +88,7 @@ class NumberToBitBar(Elaboratable):
         self.bitbar   = [Const(int(2**n - 1), bitwidth_out) for n in range(bitwidth_out + 1)]
 
         # I/O
-        self.value_in   = Signal(range(maxvalue_in))
+        self.value_in   = Signal(range(maxvalue_in + 1))
         self.bitbar_out = Signal(bitwidth_out)
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From 9fc32c8d15139a5de82d06c9f6b2fb9514e8866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:33 +0000
Subject: [PATCH 23/58] fix: seven segment hexadecimal digit D is shown as d
 instead of the glyph of 0

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 5f27e2a..4959835 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -24,7 +24,7 @@ seven_segment_font = [
 seven_segment_hex_numbers = [
   ['0', 0b1111110], ['1', 0b0110000], ['2', 0b1101101], ['3', 0b1111001], ['4', 0b0110011],
   ['5', 0b1011011], ['6', 0b1011111], ['7', 0b1110000], ['8', 0b1111111], ['9', 0b1111011],
-  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['D', 0b1111110], ['E', 0b1001111], ['F', 0b1000111],
+  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['d', 0b0111101], ['E', 0b1001111], ['F', 0b1000111],
 ]
 
 class NibbleToSevenSegmentHex(Elaboratable):
-- 
2.43.0


From 5ee60e1c17648d40591f5608a2928003e57d8089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:53 +0000
Subject: [PATCH 24/58] fix: NumberToBitBar can be built with one or two output
 bits

---
 amlib/io/led.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 4959835..001f43a 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -107,7 +107,8 @@ class NumberToBitBar(Elaboratable):
         with m.Else():
             m.d.comb += bar_value.eq(self.value_in - self.minvalue)
 
-            bar_bits = self.bitbar[1:-1]
+            # a bar of a single bit has nothing between empty and full
+            bar_bits = self.bitbar[1:-1] or self.bitbar[:1]
             if debug: print("barbits: " + str([bin(b.value) for b in bar_bits]))
 
             range_max_values = [(self.maxvalue - self.minvalue) // (len(bar_bits) - 1) * i for i in range(1, len(bar_bits))]
@@ -117,18 +118,17 @@ class NumberToBitBar(Elaboratable):
             rng_vals_deltas = list(map(lambda x: x[0] - x[1], zip(rng_vals + [self.maxvalue], [0] + rng_vals)))
             if debug: print("deltas:  " + str(rng_vals_deltas))
 
-            with m.If(bar_value < range_max_values[0]):
-                m.d.sync += self.bitbar_out.eq(bar_bits[0])
-
-            range_to_value = zip(range_max_values[1:], bar_bits[1:-1])
-
-            for (range_max, bitbar) in list(range_to_value):
+            range_to_value = list(zip(range_max_values, bar_bits[:-1]))
+            for i, (range_max, bitbar) in enumerate(range_to_value):
                 if debug: print(f"range: {str(range_max)}, value: {bitbar}")
-                with m.Elif(bar_value < range_max):
+                with (m.If(bar_value < range_max) if i == 0 else m.Elif(bar_value < range_max)):
                     m.d.sync += self.bitbar_out.eq(bitbar)
 
-            with m.Else():
+            if not range_to_value:
                 m.d.sync += self.bitbar_out.eq(bar_bits[-1])
+            else:
+                with m.Else():
+                    m.d.sync += self.bitbar_out.eq(bar_bits[-1])
 
         return m
 
-- 
2.43.0


From 3915a2ed7ccee5059af26714e90c100af45a705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:43 +0000
Subject: [PATCH 25/58] fix: MAX7219 initialization sequences of eight or more
 entries are sent completely

---
 amlib/io/max7219.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index e1d4051..ff2843a 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -76,7 +76,7 @@ class SerialLEDArray(Elaboratable):
         with m.If(next_digit):
             m.d.sync += digit_counter.eq(digit_counter + 1)
 
-        step_counter = Signal(range(10))
+        step_counter = Signal(range(2 * len(self.init_sequence) + 2))
         next_step    = Signal()
 
         with m.If(next_step):
-- 
2.43.0


From f138762b50d849269bde1f26776741f528a3b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 26/58] fix: WS2812 data line idles low, so that the LEDs can
 latch the transmitted colours

---
 amlib/io/ws2812.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index e46fe52..a834028 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -58,7 +58,7 @@ class WS2812(Elaboratable):
         print(f"cycle counter: {cycle_counter_width}")
 
         m.d.comb += [
-            self.data_out.eq(1),
+            self.data_out.eq(0),
             current_bit.eq(grb[23]),
             current_cycle_length.eq(Mux(current_bit, self.high_cycle_length, self.low_cycle_length)),
             mem_write_port.addr.eq(self.led_address_in),
-- 
2.43.0


From 136be5c82433bf34bea0318c3df284bca2de7326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 27/58] fix: WS2812 bits last full_cycle_length clock cycles
 instead of one more

---
 amlib/io/ws2812.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index a834028..4dc8629 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -20,7 +20,7 @@ class WS2812(Elaboratable):
     def __init__(self, *, sys_clock_freq, no_leds):
         # parameters
         self.no_leds           = no_leds
-        self.full_cycle_length = sys_clock_freq // 800e3
+        self.full_cycle_length = int(sys_clock_freq // 800e3)
         self.low_cycle_length  = int(0.32 * self.full_cycle_length)
         self.high_cycle_length = int(0.64 * self.full_cycle_length)
         print(f"full cycle: {self.full_cycle_length}")
@@ -77,7 +77,7 @@ class WS2812(Elaboratable):
                 m.d.comb += self.data_out.eq(0)
                 m.d.sync += cycle_counter.eq(cycle_counter + 1)
 
-                with m.If(cycle_counter >= Const(self.full_cycle_length)):
+                with m.If(cycle_counter >= self.full_cycle_length - 1):
                     m.d.sync += cycle_counter.eq(0)
 
                     with m.If(led_counter == 0):
@@ -100,7 +100,7 @@ class WS2812(Elaboratable):
                 with m.Else():
                     m.d.comb += self.data_out.eq(0)
 
-                with m.If(cycle_counter >= Const(self.full_cycle_length)):
+                with m.If(cycle_counter >= self.full_cycle_length - 1):
                     m.d.sync += cycle_counter.eq(0)
 
                     last_bit = 23
-- 
2.43.0


From 9e046ad8d03fd055ba6da6216d50619d3aad5361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 28/58] fix: WS2812 reset keeps the data line low for the
 required 50us instead of one bit period

---
 amlib/io/ws2812.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index 4dc8629..8623de4 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -2,7 +2,7 @@
 #
 # SPDX-License-Identifier: Apache-2.0
 #
-from math import log2
+from math import ceil
 
 from amaranth import *
 from amaranth.utils import bits_for
@@ -23,6 +23,7 @@ class WS2812(Elaboratable):
         self.full_cycle_length = int(sys_clock_freq // 800e3)
         self.low_cycle_length  = int(0.32 * self.full_cycle_length)
         self.high_cycle_length = int(0.64 * self.full_cycle_length)
+        self.reset_length      = ceil(sys_clock_freq * 50e-6)
         print(f"full cycle: {self.full_cycle_length}")
 
         self.mem = Memory(width=24, depth=no_leds, name="led_memory")
@@ -51,7 +52,7 @@ class WS2812(Elaboratable):
         bit_counter = Signal(5)
         current_bit = Signal()
 
-        cycle_counter_width  = bits_for(int(self.full_cycle_length)) + 1
+        cycle_counter_width  = bits_for(max(self.full_cycle_length, self.reset_length)) + 1
         cycle_counter        = Signal(cycle_counter_width)
         current_cycle_length = Signal.like(cycle_counter)
 
@@ -77,7 +78,7 @@ class WS2812(Elaboratable):
                 m.d.comb += self.data_out.eq(0)
                 m.d.sync += cycle_counter.eq(cycle_counter + 1)
 
-                with m.If(cycle_counter >= self.full_cycle_length - 1):
+                with m.If(cycle_counter >= self.reset_length - 1):
                     m.d.sync += cycle_counter.eq(0)
 
                     with m.If(led_counter == 0):
-- 
2.43.0


From eb0aef86863671cf42c904c7e92055193eedf8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:51 +0000
Subject: [PATCH 29/58] fix: FIR filter MAC loop applies its first coefficient
 to the current instead of the previous sample

---
 amlib/dsp/fixedpointfirfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 6cdc154..a7dd328 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -93,7 +93,7 @@ class FixedPointFIRFilter(Elaboratable):
                     with m.If(self.enable_in):
                         m.d.sync += [
                             ix.eq(1),
-                            a.eq(x[0]),
+                            a.eq(self.signal_in),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From a57e08ba7773169b326297d5ecd4219946a70861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:51 +0000
Subject: [PATCH 30/58] fix: FIR filter MAC loop does not truncate coefficients
 wider than the samples

---
 amlib/dsp/fixedpointfirfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index a7dd328..4dd8f5b 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -86,7 +86,7 @@ class FixedPointFIRFilter(Elaboratable):
             ix = Signal(range(n + 1))
             madd = Signal(signed(self.bitwidth))
             a = Signal(signed(self.bitwidth))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
-- 
2.43.0


From 4a7089e5d7a7a0a9e59f3a347a6ac48f186441a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:51 +0000
Subject: [PATCH 31/58] fix: FIR filter is designed for the requested cutoff
 frequency

---
 amlib/dsp/fixedpointfirfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 4dd8f5b..2c1e271 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -28,7 +28,7 @@ class FixedPointFIRFilter(Elaboratable):
 
         if type(cutoff_freq) == int:
             cutoff = cutoff_freq / samplerate
-            taps = signal.firwin(filter_order, cutoff, fs=samplerate, pass_zero=filter_type, window='hamming')
+            taps = signal.firwin(filter_order, cutoff_freq, fs=samplerate, pass_zero=filter_type, window='hamming')
         elif type(cutoff_freq) == list and len(cutoff_freq) == 2:
             Fs = samplerate
             Fpb = cutoff_freq[0]
-- 
2.43.0


From 52760f7b6369dce15d795e0623a3745bc5568a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 32/58] fix: half-band filter MAC loop applies its outer
 coefficients to the current sample pair

---
 amlib/dsp/fixedpointhbfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointhbfilter.py b/amlib/dsp/fixedpointhbfilter.py
index ce33b54..b52f769 100644
--- a/amlib/dsp/fixedpointhbfilter.py
+++ b/amlib/dsp/fixedpointhbfilter.py
@@ -82,7 +82,7 @@ class FixedPointHBFilter(Elaboratable):
                     with m.If(self.strobe_in):
                         m.d.sync += [
                             ix.eq(2),
-                            a.eq(x[0] + x[n - 1]),
+                            a.eq(self.signal_in + x[n - 2]),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From fdc38a9e9a482ef0a8d0c6ea99e3f483fc113232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 33/58] fix: half-band filter MAC loop does not truncate
 coefficients wider than the samples

---
 amlib/dsp/fixedpointhbfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointhbfilter.py b/amlib/dsp/fixedpointhbfilter.py
index b52f769..fc4442a 100644
--- a/amlib/dsp/fixedpointhbfilter.py
+++ b/amlib/dsp/fixedpointhbfilter.py
@@ -75,7 +75,7 @@ class FixedPointHBFilter(Elaboratable):
             ix = Signal(range(n + 2))
             madd = Signal(signed(self.bitwidth + 1))
             a = Signal(signed(self.bitwidth + 1))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
-- 
2.43.0


From d86b3cd69934aeefccbdd130924fa0daa3d0ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:22 +0000
Subject: [PATCH 34/58] fix: half-band filter MAC loop strobes its output when
 it is available

---
 amlib/dsp/fixedpointhbfilter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointhbfilter.py b/amlib/dsp/fixedpointhbfilter.py
index fc4442a..eb60294 100644
--- a/amlib/dsp/fixedpointhbfilter.py
+++ b/amlib/dsp/fixedpointhbfilter.py
@@ -71,6 +71,9 @@ class FixedPointHBFilter(Elaboratable):
         # in other words: higher indices are past values, 0 is most recent
         x = Array(Signal(signed(width), name=f"x{i}") for i in range(n))
 
+        # high when the output of the most recent input sample is about to be available
+        output_ready = Signal()
+
         if self.mac_loop:
             ix = Signal(range(n + 2))
             madd = Signal(signed(self.bitwidth + 1))
@@ -101,11 +104,13 @@ class FixedPointHBFilter(Elaboratable):
 
                 with m.State("OUTPUT"):
                     m.d.sync += self.signal_out.eq(madd + (x[n//2] >> 1))
+                    m.d.comb += output_ready.eq(1)
                     m.next = "IDLE"
 
         else:
             m.d.comb += self.signal_out.eq(
                 sum([(((x[2*i] + x[n - 1 - 2*i]) * taps[2*i]) >> self.fraction_width) for i in range(n//4 + 1)], (x[n//2] >> 1)))
+            m.d.comb += output_ready.eq(self.strobe_in)
 
         with m.If(self.strobe_in):
             m.d.sync += x[0].eq(self.signal_in)
@@ -114,7 +119,10 @@ class FixedPointHBFilter(Elaboratable):
                 m.d.sync += decimate_counter.eq(decimate_counter + 1)
             with m.Else():
                 m.d.sync += decimate_counter.eq(0)
-                m.d.sync += self.strobe_out.eq(1)
+
+        # in the MAC loop, the decimate counter has already been updated when the output becomes available
+        with m.If(output_ready & (decimate_counter == (0 if self.mac_loop else 1))):
+            m.d.sync += self.strobe_out.eq(1)
 
         with m.If(self.strobe_out):
             m.d.sync += self.strobe_out.eq(0)
-- 
2.43.0


From 9b5b2c0de9a216b57c601d1c617878bbefaa0645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:45 +0000
Subject: [PATCH 35/58] fix: CIC filter output does not wrap around at positive
 full scale

---
 amlib/dsp/fixedpointcicfilter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointcicfilter.py b/amlib/dsp/fixedpointcicfilter.py
index f4aaea3..71e3bf0 100644
--- a/amlib/dsp/fixedpointcicfilter.py
+++ b/amlib/dsp/fixedpointcicfilter.py
@@ -57,7 +57,9 @@ class FixedPointCICFilter(Elaboratable):
         m = Module()
 
         n = self.stage
-        width = self.delay_width
+        # one bit more than the output is scaled from: if the decimation is a power of two,
+        # a constant input of +1 ends up at exactly positive full scale
+        width = self.delay_width + 1
         integrator_edge = self.strobe_in
         comb_edge = Signal()
         decimate_counter = Signal(range(0, self.decimation))
@@ -71,6 +73,11 @@ class FixedPointCICFilter(Elaboratable):
         y = Array(Signal(signed(width), name=f"y{i}") for i in range(n))
         dy = Array(Signal(signed(width), name=f"dy{i}") for i in range(n))
 
+        # positive full scale does not fit into the output
+        scaled     = Signal(signed(self.bitwidth + 1))
+        max_output = 2**(self.bitwidth - 1) - 1
+        m.d.comb += scaled.eq(y[n - 1] >> (self.delay_width - self.bitwidth))
+
         m.d.sync += self.strobe_out.eq(comb_edge)
 
         with m.If(integrator_edge):
@@ -86,7 +93,7 @@ class FixedPointCICFilter(Elaboratable):
         with m.If(comb_edge):
             m.d.sync += y[0].eq(x[n - 1] - dy[0])
             m.d.sync += [y[i + 1].eq(y[i] - dy[i + 1]) for i in range(n - 1)]
-            m.d.sync += self.signal_out.eq(y[n - 1] >> (width - self.bitwidth))
+            m.d.sync += self.signal_out.eq(Mux(scaled > max_output, max_output, scaled))
             m.d.sync += dy[0].eq(x[n - 1])
             m.d.sync += [dy[i + 1].eq(y[i]) for i in range(n - 1)]
             m.d.sync += comb_edge.eq(0)
-- 
2.43.0


From 0aa759a5c6fa77785ba129a95df5b4c40a83070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 36/58] fix: resampler pauses upsampling while the output FIFO
 is full instead of dropping samples

---
 amlib/dsp/resampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 07c4618..3b5c2b1 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -84,7 +84,7 @@ class FractionalResampler(Elaboratable):
             input_ready.eq((upsample_counter == 0) & (downsamplefifo.w_rdy)),
             input_data.eq(self.signal_in.payload.as_signed()),
             antialiasingfilter.signal_in.eq(upsampled_signal),
-            antialiasingfilter.enable_in.eq(upsample_counter > 0),
+            antialiasingfilter.enable_in.eq((upsample_counter > 0) & downsamplefifo.w_rdy),
             downsamplefifo.w_en.eq(downsamplefifo.w_rdy & antialiasingfilter.enable_in),
         ]
 
@@ -94,7 +94,7 @@ class FractionalResampler(Elaboratable):
                 antialiasingfilter.enable_in.eq(1),
             ]
             m.d.sync += upsample_counter.eq(self.upsample_factor - 1)
-        with m.Elif(upsample_counter > 0):
+        with m.Elif((upsample_counter > 0) & downsamplefifo.w_rdy):
             m.d.comb += upsampled_signal.eq(0)
             m.d.sync += upsample_counter.eq(upsample_counter - 1)
 
-- 
2.43.0


From 95c93dc183bc73e02b626970a77dc6619ddbd8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:27 +0000
Subject: [PATCH 37/58] fix: resampler output valid does not depend on ready

---
 amlib/dsp/resampler.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 3b5c2b1..04f1c90 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -103,27 +103,19 @@ class FractionalResampler(Elaboratable):
 
         m.d.comb += [
             downsamplefifo.w_data.eq(antialiasingfilter.signal_out),
-            self.signal_out.valid.eq(downsamplefifo.r_rdy),
+            self.signal_out.payload.eq(downsamplefifo.r_data),
+            self.signal_out.valid.eq(downsamplefifo.r_rdy & (downsample_counter == 0)),
         ]
 
-        with m.If(downsamplefifo.r_rdy & self.signal_out.ready):
-            m.d.comb += downsamplefifo.r_en.eq(1)
-
+        # the samples in between are dropped, whether or not the output is ready
+        with m.If(downsamplefifo.r_rdy):
             with m.If(downsample_counter == 0):
-                m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
-                m.d.comb += [
-                    self.signal_out.payload.eq(downsamplefifo.r_data),
-                    self.signal_out.valid.eq(1),
-                ]
+                with m.If(self.signal_out.ready):
+                    m.d.comb += downsamplefifo.r_en.eq(1)
+                    m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
             with m.Else():
+                m.d.comb += downsamplefifo.r_en.eq(1)
                 m.d.sync += downsample_counter.eq(downsample_counter - 1)
-                m.d.comb += self.signal_out.valid.eq(0)
-
-        with m.Else():
-            m.d.comb += [
-                downsamplefifo.r_en.eq(0),
-                self.signal_out.valid.eq(0),
-            ]
 
         return m
 
-- 
2.43.0


From 8d4f257fbd9daae6e9ab6e6787c9368c3351e223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:26 +0000
Subject: [PATCH 38/58] fix: convolution taps are not changed by negative taps
 in the neighbouring slice

---
 amlib/dsp/convolution/mac.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index b20a128..b6f540f 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -95,8 +95,9 @@ class StereoConvolutionMAC(Elaboratable):
             val1 = 0
             val2 = 0
             for j in range(self._slices):
-                val1 += int(taps_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
-                val2 += int(taps2_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
+                # the sign of a tap must not extend into the neighbouring slices
+                val1 += (int(taps_fp[i+j])  & (2**self._bitwidth - 1)) << (self._slices - j - 1) * self._bitwidth
+                val2 += (int(taps2_fp[i+j]) & (2**self._bitwidth - 1)) << (self._slices - j - 1) * self._bitwidth
             taps_fp_mod.append(val1)
             taps2_fp_mod.append(val2)
 
-- 
2.43.0


From 486b2ce46be1c4324d5a599eb1284244dd4a8ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:26 +0000
Subject: [PATCH 39/58] fix: convolution terminates when the samples per slice
 are one less than a power of two

---
 amlib/dsp/convolution/mac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index b6f540f..8e980a6 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -119,7 +119,7 @@ class StereoConvolutionMAC(Elaboratable):
         set1 = Signal()
         set2 = Signal()
         output_channels = Signal(2)
-        ix = Signal(range(self._samples_per_slice + 1))
+        ix = Signal(range(self._samples_per_slice + 2))
 
         previous_sample1 = Signal(self._size_of_slizes)
         previous_sample2 = Signal.like(previous_sample1)
-- 
2.43.0


From 2b0a7676017c346a22630474126b1e99559ae39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:41 +0000
Subject: [PATCH 40/58] fix: convolution holds its output until it is accepted

---
 amlib/dsp/convolution/mac.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index 8e980a6..ae35830 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -149,7 +149,6 @@ class StereoConvolutionMAC(Elaboratable):
         ]
 
         m.d.sync += [
-            self.signal_out.valid.eq(0),
             samples1_write_port.en.eq(0),
             samples2_write_port.en.eq(0),
 
@@ -277,22 +276,24 @@ class StereoConvolutionMAC(Elaboratable):
                 ]
                 m.next = "OUTPUT"
             with m.State("OUTPUT"):
-                m.d.sync += [
-                    set1.eq(0),
-                    set2.eq(0),
-                    ix.eq(0),
+                m.d.sync += ix.eq(0)
+
+                m.d.comb += [
+                    self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
+                    self.signal_out.valid.eq(1),
+                    self.signal_out.first.eq(output_channels == 0),
+                    self.signal_out.last.eq(output_channels == 1),
                 ]
 
-                with m.If(output_channels == 2):
-                    m.next = "IDLE"
-                with m.Elif(self.signal_out.ready):
-                    m.d.sync += [
-                        output_channels.eq(output_channels + 1),
-                        self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
-                        self.signal_out.valid.eq(1),
-                        self.signal_out.first.eq(~output_channels),
-                        self.signal_out.last.eq(output_channels),
-                    ]
+                with m.If(self.signal_out.ready):
+                    m.d.sync += output_channels.eq(output_channels + 1)
+
+                    with m.If(output_channels == 1):
+                        m.d.sync += [
+                            set1.eq(0),
+                            set2.eq(0),
+                        ]
+                        m.next = "IDLE"
 
         return m
 
-- 
2.43.0


From 9ad30a5af4835d9dd9dce401b0c40ee12e249432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:09 +0000
Subject: [PATCH 41/58] fix: FixedPointFFT output bins were read one cycle too
 early (every bin shifted by one)

---
 amlib/dsp/fixedpointfft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 5c57ff9..2f5f2db 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -422,7 +422,10 @@ class FixedPointFFT(Elaboratable):
                             xr_rd.addr.eq(idx),
                             xi_rd.addr.eq(idx),
                         ]
-                    m.next = "READOUT"
+                    m.next = "READOUT_LATCHED"
+
+            with m.State("READOUT_LATCHED"):
+                m.next = "READOUT"
 
             with m.State("READOUT"):
                 with m.If(N & 1):
-- 
2.43.0


From ff81f4a7279112169d640a8e30ef7ee72f19d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 42/58] fix: FixedPointFFT window coefficients were stored one
 address too high

---
 amlib/dsp/fixedpointfft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 2f5f2db..d869d7e 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -222,7 +222,6 @@ class FixedPointFFT(Elaboratable):
                     m.d.sync += wfidx.eq(0)
                     m.next = "DONE"
                 with m.Else():
-                    m.d.sync += wfidx.eq(wfidx+1)
                     m.next = "WINDOW_WR"
 
             with m.State("WINDOW_WR"):
@@ -231,6 +230,7 @@ class FixedPointFFT(Elaboratable):
                         wFr_wr.addr.eq(wfidx),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
+                        wfidx.eq(wfidx+1),
                     ]
                     m.next = "WINDOW_WRLOOP"
 
-- 
2.43.0


From f610c1a1a0618fe0af5b93ac1424f67642da0cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:26 +0000
Subject: [PATCH 43/58] fix: FixedPointFFT window load: imaginary coefficients
 all went to address 0 and data was taken a cycle after the strobe

---
 amlib/dsp/fixedpointfft.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index d869d7e..6403cbc 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -143,10 +143,6 @@ class FixedPointFFT(Elaboratable):
 
         # Window write
         wfidx = Signal(range(self.pts+1))
-        m.d.comb += [
-            wFr_wr.data.eq(self.wf_real),
-            wFi_wr.data.eq(self.wf_imag),
-        ]
 
         # FFT
         widx = Signal(N)
@@ -228,6 +224,9 @@ class FixedPointFFT(Elaboratable):
                 with m.If(self.wf_strobe):
                     m.d.sync += [
                         wFr_wr.addr.eq(wfidx),
+                        wFi_wr.addr.eq(wfidx),
+                        wFr_wr.data.eq(self.wf_real),
+                        wFi_wr.data.eq(self.wf_imag),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
                         wfidx.eq(wfidx+1),
-- 
2.43.0


From 4ae5a290af8e7ac2d40f0fee85cf21ec33eb4003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 44/58] fix: IntegratedLogicAnalyzer with 2 pretrigger samples
 captured 3

---
 amlib/debug/ila.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 79f6bed..8b24aa6 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -139,7 +139,13 @@ class IntegratedLogicAnalyzer(Elaboratable):
                 if with_enable:
                     delayed_enable = Signal()
                     m.d.comb += delayed_enable.eq(synced_enable)
-            else: # samples_pretrigger >= 2
+            elif self.samples_pretrigger == 2:
+                # the buffered FIFO below can't delay by only one cycle
+                m.d.sync += delayed_inputs.eq(synced_inputs)
+                if with_enable:
+                    delayed_enable = Signal()
+                    m.d.sync += delayed_enable.eq(synced_enable)
+            else: # samples_pretrigger >= 3
                 capture_fifo_width = self.sample_width
                 if with_enable:
                     capture_fifo_width += 1
-- 
2.43.0


From 5573fb74278e719ea3ccddc10290d8c104014698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:41 +0000
Subject: [PATCH 45/58] fix: StreamILA in another output domain watched the
 wrong stream for the last sample

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 8b24aa6..8638d5e 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -812,7 +812,7 @@ class StreamILA(Elaboratable):
 
 
                         # If this was the last sample, we're done! Move back to idle.
-                        with m.If(self.stream.last):
+                        with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
                     with m.Else():
-- 
2.43.0


From 5210fbfe5a372de3fa640e55bdb2ad55ad1ee887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:01 +0000
Subject: [PATCH 46/58] fix: StreamILA waited for ready before offering the
 next word (deadlock with consumers waiting for valid)

---
 amlib/debug/ila.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 8638d5e..a9bd936 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -802,8 +802,8 @@ class StreamILA(Elaboratable):
                 ]
 
                 # Each time the UART accepts a valid word, move on to the next one.
-                with m.If(in_domain_stream.ready):
-                    with m.If(data_valid):
+                with m.If(data_valid):
+                    with m.If(in_domain_stream.ready):
                         m.d.sync += [
                             current_sample_number   .eq(current_sample_number + 1),
                             data_valid              .eq(0),
@@ -815,8 +815,9 @@ class StreamILA(Elaboratable):
                         with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
-                    with m.Else():
-                        m.d.sync += data_valid.eq(1)
+                # Don't wait for the consumer before offering the next word.
+                with m.Else():
+                    m.d.sync += data_valid.eq(1)
 
 
         # If we're not streaming out of the same domain we're capturing from,
-- 
2.43.0


From 4f4a10f89e340082f0c0517afad103c645874556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:52 +0000
Subject: [PATCH 47/58] fix: StreamILA capturing in a non-sync domain could not
 stream into the sync domain

---
 amlib/debug/ila.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index a9bd936..e4ea03d 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -820,6 +820,14 @@ class StreamILA(Elaboratable):
                     m.d.sync += data_valid.eq(1)
 
 
+        # Convert our sync domain to the domain requested by the user, if necessary.
+        # The clock-domain crossing below is left out, because our output domain
+        # is not to be renamed, even if it is the sync domain.
+        if self.domain != "sync":
+            core = DomainRenamer(self.domain)(m)
+            m = Module()
+            m.submodules.core = core
+
         # If we're not streaming out of the same domain we're capturing from,
         # we'll add some clock-domain crossing hardware.
         if self._o_domain != self.domain:
@@ -838,7 +846,7 @@ class StreamILA(Elaboratable):
             m.submodules.cdc = fifo = AsyncFIFOBuffered(
                 width=len(in_domain_signals),
                 depth=16,
-                w_domain="sync",
+                w_domain=self.domain,
                 r_domain=self._o_domain
             )
 
@@ -854,10 +862,6 @@ class StreamILA(Elaboratable):
                 fifo.r_en               .eq(self.stream.ready)
             ]
 
-        # Convert our sync domain to the domain requested by the user, if necessary.
-        if self.domain != "sync":
-            m = DomainRenamer(self.domain)(m)
-
         return m
 
 class StreamILATest(GatewareTestCase):
-- 
2.43.0


From b5a2b9bbacb19baadf610d321ba3e53b0d94bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 48/58] fix: AsyncSerialILAFrontend read multi-byte samples in
 the wrong byte order

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index e4ea03d..06ab371 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1266,7 +1266,7 @@ class AsyncSerialILAFrontend(ILAFrontend):
             raw_sample    = all_samples[i:i + sample_width_bytes]
             sample_length = len(Cat(self.ila.signals))
 
-            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='big')
+            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='little')
 
 
     def _read_samples(self):
-- 
2.43.0


From bdd2a382071b03455b2e76b1b274dcb8841eaae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 49/58] fix: SyncSerialILA ignored its cs_idles_high parameter

---
 amlib/debug/ila.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 06ab371..cda2398 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -506,6 +506,7 @@ class SyncSerialILA(Elaboratable):
 
         self.clock_phase = clock_phase
         self.clock_polarity = clock_polarity
+        self.cs_idles_high = cs_idles_high
 
         # Extract the domain from our keyword arguments, and then translate it to sync
         # before we pass it back below. We'll use a DomainRenamer at the boundary to
@@ -552,13 +553,18 @@ class SyncSerialILA(Elaboratable):
         m  = Module()
         m.submodules.ila = self.ila
 
-        transaction_start = Rose(self.spi.cs)
+        # Our chip select, as an active-high signal.
+        selected = Signal()
+        m.d.comb += selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
+
+        transaction_start = Rose(selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
             word_size=self.bits_per_sample,
             clock_polarity=self.clock_polarity,
-            clock_phase=self.clock_phase
+            clock_phase=self.clock_phase,
+            cs_idles_high=self.cs_idles_high
         )
         m.submodules.spi = interface
         m.d.comb += [
@@ -573,7 +579,7 @@ class SyncSerialILA(Elaboratable):
 
         # Our first piece of data is latched in when the transaction
         # starts, so we'll move on to sample #1.
-        with m.If(self.spi.cs):
+        with m.If(selected):
             with m.If(transaction_start):
                 m.d.sync += current_sample_number.eq(1)
 
-- 
2.43.0


From bdb48b4081920153ab0b8ea78055948cfb3664f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 50/58] fix: SyncSerialILA's domain parameter left edge
 detectors in the sync domain

---
 amlib/debug/ila.py |  8 ++++++--
 amlib/io/spi.py    | 12 +++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index cda2398..487544a 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -18,7 +18,6 @@ import subprocess
 from abc             import ABCMeta, abstractmethod
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Memory, DomainRenamer, Mux
-from amaranth.hdl.ast  import Rose
 from amaranth.lib.cdc  import FFSynchronizer
 from amaranth.lib.fifo import SyncFIFOBuffered, AsyncFIFOBuffered
 from vcd             import VCDWriter
@@ -557,7 +556,12 @@ class SyncSerialILA(Elaboratable):
         selected = Signal()
         m.d.comb += selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
 
-        transaction_start = Rose(selected)
+        # (A register instead of Rose, because DomainRenamer below would not move that
+        # to our domain.)
+        previously_selected = Signal()
+        transaction_start   = Signal()
+        m.d.sync += previously_selected.eq(selected)
+        m.d.comb += transaction_start.eq(selected & ~previously_selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index ae1dd3a..39c82c9 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -259,8 +259,12 @@ class SPIDeviceInterface(Elaboratable):
         # Generate the leading and trailing edge detectors.
         # Note that we use rising and falling edge detectors, but call these leading and
         # trailing edges, as our clock here may have been inverted.
-        leading_edge  = Rose(serial_clock, domain="sync")
-        trailing_edge = Fell(serial_clock, domain="sync")
+        # (Registers instead of Rose/Fell, because DomainRenamer does not move those to
+        # another domain.)
+        previous_clock = Signal()
+        m.d.sync += previous_clock.eq(serial_clock)
+        leading_edge  = serial_clock & ~previous_clock
+        trailing_edge = ~serial_clock & previous_clock
 
         # Determine the sample and output edges based on the SPI clock phase.
         sample_edge = trailing_edge if self.clock_phase else leading_edge
@@ -331,7 +335,9 @@ class SPIDeviceInterface(Elaboratable):
         # with clock phase 0 we need to output the first bit when chip select
         # goes active, because it will be sampled on the leading edge
         if self.clock_phase == 0:
-            with m.If(Rose(chip_selected, domain="sync")):
+            previously_selected = Signal()
+            m.d.sync += previously_selected.eq(chip_selected)
+            with m.If(chip_selected & ~previously_selected):
                 output_one_bit(m)
 
         with m.If(chip_selected):
-- 
2.43.0


From c46862e0395b504b88e6bb39374da6d282088486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 51/58] fix: WishboneRAM: accept any bytes-like initializer, as
 documented

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 23b9d48..9c462e0 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -30,7 +30,7 @@ class WishboneRAM(Elaboratable):
                 value = f.read()
 
         # If we don't have bytes, read this direction.
-        if not isinstance(value, bytes):
+        if not isinstance(value, (bytes, bytearray, memoryview)):
             return value
 
         bytes_per_chunk = data_width // granularity
-- 
2.43.0


From 28ccc0597c1497bb13c664db14a49429e7a4da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 52/58] fix: WishboneRAM: byte initializers fill words of
 data_width bits at any granularity

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 9c462e0..6c92463 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -33,7 +33,7 @@ class WishboneRAM(Elaboratable):
         if not isinstance(value, (bytes, bytearray, memoryview)):
             return value
 
-        bytes_per_chunk = data_width // granularity
+        bytes_per_chunk = data_width // 8
 
         words = (value[pos:pos + bytes_per_chunk] for pos in range(0, len(value), bytes_per_chunk))
         return [int.from_bytes(word, byteorder=byteorder) for word in words]
-- 
2.43.0


From 56ca76efccefbe3ec6a8624853da8a333945d1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 53/58] fix: WishboneRAM: pad a partial last word, so
 big-endian images keep their byte addresses

---
 amlib/soc/memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 6c92463..9a1fe38 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -35,7 +35,8 @@ class WishboneRAM(Elaboratable):
 
         bytes_per_chunk = data_width // 8
 
-        words = (value[pos:pos + bytes_per_chunk] for pos in range(0, len(value), bytes_per_chunk))
+        words = (bytes(value[pos:pos + bytes_per_chunk]).ljust(bytes_per_chunk, b"\0")
+                 for pos in range(0, len(value), bytes_per_chunk))
         return [int.from_bytes(word, byteorder=byteorder) for word in words]
 
     def __init__(self, *, addr_width, data_width=32, granularity=8, init=None,
-- 
2.43.0


From dcb3be4c0cefdb97d7ce4bce60ef0fa758ef3ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 54/58] fix: WishboneROM: pass the granularity on

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 9a1fe38..b3ae05c 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -153,7 +153,7 @@ class WishboneROM(WishboneRAM):
         super().__init__(
             addr_width=addr_width,
             data_width=data_width,
-            granularity=8,
+            granularity=granularity,
             init=data,
             read_only=True,
             name=name
-- 
2.43.0


From e4d2da9853a57b6c9e8c4447b3c0969d1ac54dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 55/58] fix: divide the bar graph range linearly when it is no
 multiple of the bar length

---
 amlib/io/led.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 001f43a..125cf8f 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -111,7 +111,8 @@ class NumberToBitBar(Elaboratable):
             bar_bits = self.bitbar[1:-1] or self.bitbar[:1]
             if debug: print("barbits: " + str([bin(b.value) for b in bar_bits]))
 
-            range_max_values = [(self.maxvalue - self.minvalue) // (len(bar_bits) - 1) * i for i in range(1, len(bar_bits))]
+            # the upper bounds are rounded up, so that a range which is no multiple of the bar is still divided linearly
+            range_max_values = [-(-(self.maxvalue - self.minvalue) * i // (len(bar_bits) - 1)) for i in range(1, len(bar_bits))]
             rng_vals = [int(val) for val in range_max_values]
             if debug: print("ranges:  " + str(rng_vals))
 
-- 
2.43.0


From f2b609f26d1660fab980a88cebdb90247c2c76eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 56/58] fix: SimpleSoC.generate_c_header: registers that are
 not 1, 2 or 4 bytes wide get their address and size macros instead of a
 KeyError

---
 amlib/soc/simplesoc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/soc/simplesoc.py b/amlib/soc/simplesoc.py
index 6d1f25b..ae1702a 100644
--- a/amlib/soc/simplesoc.py
+++ b/amlib/soc/simplesoc.py
@@ -439,7 +439,8 @@ class SimpleSoC(CPUSoC, Elaboratable):
 
             # If we have information on how to access this resource, generate convenience
             # macros for reading and writing it.
-            if hasattr(resource.resource, 'access'):
+            # (registers that do not match the size of any of our C types only get their macros.)
+            if hasattr(resource.resource, 'access') and size in types_for_size:
                 c_type = types_for_size[size]
 
                 # Generate a read stub, if useful...
-- 
2.43.0


From 4d7ef4e81876b8a72f01bbc9b21aa7d2af10adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 57/58] fix: SimpleSoC.resources: find the BIOS memories where
 add_bios_and_peripherals puts them

---
 amlib/soc/simplesoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/simplesoc.py b/amlib/soc/simplesoc.py
index ae1702a..e7cee10 100644
--- a/amlib/soc/simplesoc.py
+++ b/amlib/soc/simplesoc.py
@@ -260,7 +260,7 @@ class SimpleSoC(CPUSoC, Elaboratable):
             for resource in resources:
                 if self._build_bios and omit_bios_mem:
                     # If we're omitting bios resources, skip the BIOS ram/rom.
-                    if (self.ram._mem is resource) or (self.rom._mem is resource):
+                    if (self.scratchpad._mem is resource.resource) or (self.bootrom._mem is resource.resource):
                         continue
 
                 # ... and extract the peripheral's range/vitals...
-- 
2.43.0


From c1ff10756cba9d75316b5565a080f3e7e1987531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:04 +0000
Subject: [PATCH 58/58] fix: FixedPointFFT: two-point transforms can be
 elaborated (negative shift count)

---
 amlib/dsp/fixedpointfft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 6403cbc..762094e 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -240,7 +240,7 @@ class FixedPointFFT(Elaboratable):
                     m.d.sync += [
                         stage.eq(0),
                         idx.eq(0),
-                        mask.eq(~((2 << (N-2))-1)),
+                        mask.eq(~((1 << (N-1))-1)),
                     ]
                     m.next = "FFTLOOP"
                 with m.Else():
-- 
2.43.0

