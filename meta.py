NOTES = ("Every check elaborates the design from /repo's working tree, translates the elaborated netlist to a C++ transition "
         "function (mc/compile.py), explores all states of design x environment x oracle within the stated bounds (mc/engine*.hpp), "
         "and replays model paths clock by clock in amaranth's simulator. Findings and repairs: known_findings.txt.")
NOT_APPLICABLE = []
BFS = "Exhaustive within the listed configurations and bounds (evidence says per configuration whether the reachable product space was exhausted). Trusts amaranth 0.4 elaboration; the netlist translation is revalidated on every run by replaying paths in the amaranth simulator."
ENUM = "Exhaustive enumeration of the stated finite operation/input space, executed directly on the repository's Python code against an independent reference model."
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, note=BFS, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, note=note, **kw))


U = "amlib/utils/"
P("U01", "Bit sequences behave as immutable LSB-first sequences of bits",
  "A bit sequence built from an integer, string, bytes or iterable has exactly the bits and length that representation denotes, and converting it back, indexing, slicing, iterating, reversing, concatenating, repeating and combining it bitwise all agree with doing the same on a plain LSB-first list of bits. Indexing and slicing with negative positions count from the end as for any Python sequence, equality holds exactly for the same length and bits, and no operation changes its operands.",
  ["inputs", "programs"], "All bit sequences up to the bound in every construction form, and all operations and operand pairs on them.",
  "The unit tests check a handful of literals per operation; index/slice arithmetic and leading-zero handling depend on every length and position.",
  [U + "bits.py"], [("bits constructors and operators", U + "bits.py: class bits")], note=ENUM,
  technique="exhaustive enumeration of operation x operand space on the real class against a list-of-bits model")
P("U02", "Transactionalized FIFO never loses, reorders or leaks uncommitted data",
  "A reader sees exactly the committed entries in write order, with the data output showing the next entry whenever the FIFO reports non-empty; a commit makes the writes (or consumed reads) of earlier cycles permanent, and a discard returns that side to its last committed position, including its data output. The empty, full and space-available outputs always equal what the number of committed and uncommitted entries implies, and writes while full or reads while empty have no effect.",
  ["histories", "configurations"], "Every sequence of read/write/commit/discard strobes and data, for several widths and depths (powers of two or not), from every reachable pointer position.",
  "The single unit test performs one linear history; wrap-around combined with commit/discard interleavings of both ports is a product space of thousands of states.",
  [U + "fifo.py"], [("committed and current pointers, read-ahead address selection", U + "fifo.py: TransactionalizedFIFO.elaborate")])
P("U03", "Edge helpers and edge-to-pulse report each edge exactly once",
  "The rising, falling and any-edge helpers output one for exactly those cycles in which the one-bit input differs from its value in the previous clock cycle in the corresponding direction, and the edge-to-pulse converter does so for rising edges. The past-value helper returns the complete value its input had one clock cycle ago, for inputs of any width, in the requested clock domain.",
  ["histories", "configurations"], "All input histories (bounded memory, so all reachable states), every helper, several widths and domains.",
  "Only edge-to-pulse has a test with a single waveform; the helper functions have none.",
  [U + "__init__.py", U + "edgetopulse.py"], [("delayed copy of the input", U + "__init__.py: _single_edge_detector, past_value_of"), ("edge_last", U + "edgetopulse.py")])
P("U04", "Strobe stretcher keeps the output high for exactly the requested cycles",
  "The stretched output is high in a cycle if and only if the strobe was high in that cycle or one of the N-1 cycles before it, where N is the requested length, in the requested clock domain. In the variant that allows delay the same window starts one cycle later.",
  ["histories", "configurations"], "All strobe histories including re-strobing within the stretch window, for N from 1 upward and both delay modes.",
  "The unit test covers N=2 with one isolated strobe.",
  [U + "cdc.py"], [("shift register of past strobes", U + "cdc.py: stretch_strobe_signal")])
P("U05", "Clock-domain synchronizers deliver each field once, unmodified, N stages later",
  "After synchronization every plain signal and every non-output field of a record, including nested records, appears in the target domain unmodified and exactly the requested number of target-clock edges after the edge-sampled input, with fields kept in their own positions. Fields marked as outputs are passed through in the opposite direction without synchronization, and a caller-provided output object is the one driven.",
  ["inputs", "schedules", "configurations"], "All input histories and all interleavings of source changes with target clock edges, for several stage counts and record shapes.",
  "The unit tests only construct the synchronizers and never simulate them.",
  [U + "cdc.py"], [("recursive per-field synchronizer construction", U + "cdc.py: synchronize")])
P("U06", "Timer raises done exactly the loaded number of cycles after start",
  "Once started with a non-zero count, the timer asserts done exactly that many cycles later and not before, a non-zero load value taking precedence over the reload value for the first period. With a non-zero reload value done recurs exactly every reload cycles; otherwise done lasts one cycle and the timer becomes startable again, or stays done if restarting is disallowed.",
  ["inputs", "histories", "configurations"], "All load/reload/start input histories at small counter widths, including counts of one and constant load/reload parameters.",
  "Tests use counts 10, 5 and 3 with one start each.",
  [U + "timer.py"], [("IDLE/RUNNING/DONE state machine and counter", U + "timer.py: Timer.elaborate")])
P("U07", "Clock dividers and dividing counters keep exact ratio and phase",
  "While enabled, the clock divider toggles its output every half divisor cycles so that each full period is exactly the divisor; while disabled the output returns to and stays at the configured polarity. The dividing counter counts active cycles modulo its width, flags exactly the counts that are multiples of the divisor since the last wrap or reset, increments its divided count at exactly those, and holds everything while inactive.",
  ["histories", "configurations"], "All enable/reset histories over complete counter periods for several divisors, widths and polarities.",
  "Only the dividing counter has a test, with one divisor and no deactivation in mid-period; the clock divider has none.",
  [U + "clockdivider.py", U + "dividingcounter.py"], [("half-period counter", U + "clockdivider.py"), ("modulo counter and wrap handling", U + "dividingcounter.py")])
P("U08", "Shift registers and NRZI encoder preserve every bit in order",
  "The input shift register always holds the last N enabled bits, most recent in the least significant place, and zero after clear, which wins over shifting. The output shift register emits a loaded word least significant bit first, one bit per enabled cycle, filling with zeros or rotating as configured, with loading taking precedence; the NRZI encoder toggles its output exactly on one bits and holds it on zero bits.",
  ["histories", "configurations"], "All load/enable/clear/data histories for several depths and both rotation modes.",
  "Tests exercise depth 8 with one waveform; rotation and NRZI are untested.",
  [U + "shiftregister.py", U + "nrziencoder.py"], [("shift/rotate update", U + "shiftregister.py"), ("toggle register", U + "nrziencoder.py")])
P("U09", "LFSR hardware and software sequences are identical and periodic",
  "The register sequence produced by the gateware is, step for step, the sequence yielded by the software generator for the same degree, taps and reset value, each new bit being the parity of the tapped bits. The software generator yields every value of the cycle exactly once and stops when it would return to its starting value; primitive tap sets therefore visit all non-zero values.",
  ["configurations", "histories"], "All tap sets and all non-zero reset values for small degrees, followed for a complete period.",
  "The tests check three fixed polynomials from reset value one.",
  [U + "lfsr.py"], [("feedback parity and shift", U + "lfsr.py: elaborate and generate")])
P("U10", "One-hot bus multiplexer forwards exactly the selected interface",
  "When exactly one input interface is valid, the multiplexed output fields carry that interface's values; fields declared as OR-ed carry the bitwise OR of all inputs, and pass-back fields reach every input unchanged. With no valid interface the OR-ed fields still reflect only what the inputs drive, so an idle bus contributes nothing.",
  ["inputs", "configurations"], "All input combinations with at most one valid interface, for several interface counts and field widths.",
  "There is no test for the multiplexer.",
  [U + "bus.py"], [("encoder + switch, OR reduction, pass-back", U + "bus.py: OneHotMultiplexer.elaborate")])

S = "amlib/stream/"
P("S01", "Stream plumbing is lossless: every word arrives once, in order, with its flags",
  "Joining two streams transfers payload, valid and every flag forward and ready backward, including user-defined extra fields. A stream connected into a FIFO and out again delivers exactly the accepted words in order, without loss, duplication or corruption, under every pattern of producer stalls and consumer back-pressure, with start and end flags on the same words they entered with.",
  ["schedules", "inputs", "configurations"], "All producer/consumer handshake schedules and payload/flag values, for FIFO depths including one and all connection option combinations.",
  "The connection helpers have no direct tests; they are only exercised inside larger blocks with fixed timing.",
  [S + "__init__.py"], [("field-wise connection", S + "__init__.py: StreamInterface.attach / stream_eq"), ("FIFO adapters", S + "__init__.py: connect_*")])
P("S02", "Stream arbitration never splits or mixes packets and honours priority",
  "The arbiter passes through at most one input at a time: once an input has begun sending, its words reach the output contiguously, unmodified and acknowledged only by the real consumer, until it stops asserting valid, whatever the other inputs do. In every cycle in which the current input is not sending, the earliest-registered requesting input becomes the current one for the next cycle (without requests the current input stays selected); inputs that are not current are never acknowledged, and the idle output is high exactly when no input is requesting. The multiplexer likewise forwards only the single valid stream and its flags (should several be valid, only the first-added one is forwarded and acknowledged).",
  ["schedules", "configurations"], "All interleavings of request, word and back-pressure events of one to five input streams.",
  "The only test performs one fixed interleaving of two streams with ready always high.",
  [S + "arbiter.py"], [("priority grant held while valid", S + "arbiter.py: StreamArbiter.elaborate"), ("one-hot forwarding", S + "arbiter.py: StreamMultiplexer")])
P("S03", "Constant generator streams exactly the requested slice of its data",
  "After start the generator emits, in order and each exactly once under any back-pressure, the constant bytes beginning at the start position, limited by the maximum length and by the end of the data, with the first flag on exactly the first word and the last flag on exactly the final word. Done pulses once after the final word is accepted, words never change while waiting to be accepted, and each later start streams again from its own start position. A start strobed while a transmission is in progress, up to and including its done cycle, is ignored.",
  ["schedules", "inputs", "configurations"], "All start positions, maximum lengths, ready schedules and restarts, for several data lengths (powers of two or not), widths and byte orders.",
  "Tests use one string, ready always high, and skip the wide-data cases.",
  [S + "generator.py"], [("position counter, ROM address look-ahead, last-word computation", S + "generator.py: ConstantStreamGenerator")])
P("S04", "Stream serializer emits each array element once with correct framing",
  "After start the serializer emits the elements of its input array in order from the first, limited by the maximum length and the array's end, each exactly once under any back-pressure, with first and last flags on exactly the first and final words. Done pulses once after the final word is accepted and the block then accepts a new start; starts strobed before that, up to and including the done cycle, are ignored.",
  ["schedules", "inputs", "configurations"], "All array contents at small width, maximum lengths, ready schedules and repeated starts for array lengths that are and are not powers of two.",
  "The test streams one array with ready always high.",
  [S + "generator.py"], [("position counter and last-word computation", S + "generator.py: StreamSerializer")])
P("S05", "Packet list streamer sends every packet of the list completely and in order",
  "After start the streamer emits all packets of its list in order, every word exactly once under any back-pressure, marking the first and last word of each packet. After the final packet it reports done once, returns to idle, and a new start sends the same list again; starts strobed before that, up to and including the done cycle, are ignored.",
  ["schedules", "configurations"], "All ready schedules and restart times, for several packet lists (including total sizes that are powers of two and single-word packets) and data widths.",
  "The tests use two fixed lists with ready always high.",
  [S + "generator.py"], [("packet length ROM, position accumulation", S + "generator.py: PacketListStreamer")])
P("S06", "I2C stream transmitter puts exactly the streamed packets on the bus",
  "Each packet accepted on the input stream is sent as one I2C transaction: a start condition, every byte of the packet in order exactly once, and a stop after the byte flagged last, however the producer's words are spaced in time. No byte that was not in the packet is ever written to the bus, and no accepted byte is dropped or reordered between packets.",
  ["schedules", "histories"], "All producer stall patterns relative to bus timing for packets of one to several bytes, including back-to-back packets and acknowledge/no-acknowledge answers.",
  "There is no test of the transmitter with a stalling producer.",
  [S + "i2c.py"], [("STREAMING state and FIFO read enable", S + "i2c.py: I2CStreamTransmitter.elaborate")])
P("S07", "Streaming UART transmitters emit exact 8-N-1 frames, LSB first",
  "Every word accepted from the stream appears on the line as one frame per byte: a low start bit, eight data bits least significant first and a high stop bit, each exactly the divisor in length, with multi-byte words sent least significant byte first. Words are accepted exactly once, none is lost or repeated under any stream timing, the line idles high, and the byte transmitter's idle and driving outputs tell exactly when a frame is in progress.",
  ["schedules", "inputs", "configurations"], "All byte values, stream schedules and gaps, for several divisors and word widths.",
  "The unit tests for this module cannot even be imported without extra packages and send three fixed words.",
  [S + "uart.py"], [("baud counter, bit counter, shift register", S + "uart.py: UARTTransmitter"), ("byte sequencing", S + "uart.py: UARTMultibyteTransmitter")])

I = "amlib/io/"
P("I01", "Async serial transmitter produces exact frames for every format",
  "For every accepted character the transmitter drives a low start bit, the data bits least significant first, the parity bit demanded by the configured parity mode if any, and a high stop bit, each lasting exactly the divisor in cycles; the line is high otherwise. Ready is asserted exactly when a new character would be accepted, and a character presented then is sent exactly once.",
  ["inputs", "schedules", "configurations"], "All characters, all acknowledge timings, all parity modes, several data widths and divisors including run-time divisor values.",
  "Tests check one character per parity mode at one divisor.",
  [I + "serial.py"], [("shift register and baud timer", I + "serial.py: AsyncSerialTX")])
P("I02", "Async serial receiver decodes every valid frame and flags every bad one",
  "Any well-formed frame arriving at any phase is delivered exactly once with the transmitted character and no error; a wrong parity bit or a missing stop bit raises exactly the parity or frame error with it, and a character completing while acknowledge is low is dropped and raises the overflow error. A glitch shorter than half a bit is never delivered as an error-free character. A reported character stays unchanged while it is not acknowledged, and the receiver recovers to decode the next well-formed frame after any bad one.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "All frame contents including corrupted parity/stop bits, all gaps and acknowledge timings, all parity modes, several divisors.",
  "Tests feed four hand-made frames with ideal timing.",
  [I + "serial.py"], [("start detection, mid-bit sampling, error flags", I + "serial.py: AsyncSerialRX")])
P("I03", "Debouncer changes only after a stable input and strobes exactly once",
  "The debounced button state changes only after the inverted input has differed from it for the full debounce interval, is never affected by shorter glitches, and changes exactly once per such stable change. Each change to pressed or released produces exactly one single-cycle strobe of the corresponding kind, simultaneous with the announced change.",
  ["inputs", "histories"], "All input histories around the debounce threshold, with the counter brought near its limits.",
  "The test uses one press without glitches.",
  [I + "debouncer.py"], [("free-running stability counter", I + "debouncer.py")])
P("I04", "I2C initiator obeys the bus protocol for every operation sequence",
  "For every sequence of start, stop, read and write commands, data changes only while the clock is low except for deliberate start and stop conditions, each written byte is sent most significant bit first followed by sampling the target's acknowledge, and each read byte returns the bits the target drove followed by the requested acknowledge. A target stretching the clock is always waited for, and busy is asserted from command acceptance until the operation has completed.",
  ["histories", "inputs", "schedules", "configurations"], "All command sequences up to a bound with all data bits, target acknowledge answers and clock-stretch durations.",
  "The tests run a few fixed operations with cooperative targets.",
  [I + "i2c.py"], [("bus state tracking", I + "i2c.py: I2CBus"), ("initiator FSM", I + "i2c.py: I2CInitiator")])
P("I05", "I2C target answers only its address and transfers every byte intact",
  "The target acknowledges its address byte exactly when the seven address bits match and ignores all bus traffic until the next start otherwise. When addressed for writing it reports each received byte once and answers with the acknowledge the user chose; when addressed for reading it sends the user's byte most significant bit first and stops sending after a not-acknowledge; start, restart and stop strobes occur exactly for transactions addressed to it.",
  ["histories", "inputs", "fault_sequences"], "All initiator bit sequences up to a bound: matching and foreign addresses, both directions, repeated starts and stops at any bit position.",
  "Tests drive a few fixed complete transactions.",
  [I + "i2c.py"], [("target FSM", I + "i2c.py: I2CTarget")])
P("I06", "I2C initiator and target composed transfer exactly the intended bytes",
  "With the repository's initiator and target on one open-drain bus, every byte written by the initiator is delivered to the target exactly once and every byte supplied by the target is returned to the initiator, with acknowledge bits carried faithfully in both directions, under all clock-stretching choices. Every commanded operation completes: the pair never deadlocks.",
  ["schedules", "inputs", "histories"], "All command sequences, data values from a bounded alphabet and all busy/stretch schedules of the target user up to a bound.",
  "The tests exercise initiator and target only separately against scripted partners.",
  [I + "i2c.py"], [("initiator and target FSMs with shared bus sampling", I + "i2c.py")])
P("I07", "SPI device interface exchanges every word correctly in every mode",
  "In every clock polarity, phase and bit order, each word shifted in by the controller while selected is delivered once with the bits it sent, word after word within one selection for any word size, and simultaneously the word supplied by the user is shifted out bit for bit. Deselecting aborts a partial word without reporting it, and the next selection starts on a word boundary.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "All words, all clock phases relative to the system clock within the supported rate, aborts after any number of bits, all four modes, both bit orders, word sizes that are and are not powers of two.",
  "Tests run one transfer with word sizes 8 and 16 in mode zero.",
  [I + "spi.py"], [("edge detection, bit counter, shift registers", I + "spi.py: SPIDeviceInterface")])
P("I08", "SPI controller interface clocks exactly one word per transfer",
  "Each start-transfer request produces exactly word-size clock pulses of the configured period with the data line carrying the outgoing word in the configured bit order and stable around every sampling edge. The word returned by the device is captured bit for bit and reported with exactly one completion strobe, and the clock idles at its configured polarity between transfers.",
  ["inputs", "schedules", "configurations"], "All outgoing and incoming words at small width, all request timings, several divisors, all modes and bit orders.",
  "Tests check one loopback transfer.",
  [I + "spi.py"], [("clock divider, bit counter, shift registers", I + "spi.py: SPIControllerInterface")])
P("I09", "SPI command interface reports complete commands and words only",
  "A command is reported exactly once after exactly the configured number of command bits has been clocked in while selected, and a data word exactly once after the following word bits; incomplete commands or words cut off by deselection are never reported. The word supplied in response to a command is shifted out most significant bit first, and idle and stalled outputs reflect selection and completion state.",
  ["inputs", "fault_sequences", "schedules", "configurations"], "All commands and words at small sizes, deselection after any number of bits, extra clocks, all clock/chip-select phases within the supported rate.",
  "The test performs two full transfers.",
  [I + "spi.py"], [("receive/latch/transmit FSM", I + "spi.py: SPICommandInterface")])
P("I10", "SPI registers are written exactly by complete write commands and read back",
  "A register takes a new value if and only if a complete write command addressed to it finishes, in which case it takes exactly the written value and its write strobe fires once; reads, aborted transfers and accesses to other addresses leave it unchanged. A read returns the register's (or read-only signal's) value, or the default for unknown addresses, and the read strobe fires once per completed read. Registering a second register at an address in use is refused.",
  ["inputs", "histories", "fault_sequences", "configurations"], "All sequences of reads, writes and aborts over all addresses at small widths.",
  "The test does one write and one read per register.",
  [I + "spi.py"], [("address decode and write strobes", I + "spi.py: SPIRegisterInterface")])
P("I11", "SPI bus multiplexer connects exactly the selected device",
  "The shared data return line carries the output of the device whose chip select is active, and every device receives the shared clock, data and its own chip select. A device that is not selected never influences the shared bus.",
  ["inputs", "configurations"], "All combinations of select and data lines for one to several devices.",
  "There is a single smoke test of the multiplexer at most.",
  [I + "spi.py"], [("chip-select driven output selection", I + "spi.py: SPIMultiplexer")])
P("I12", "I2S transmitter serializes every accepted sample on the right channel and edges",
  "Every sample accepted from the stream appears exactly once on the serial line, most significant bit first, in the slot of its channel and with the bit offset of the configured format, data changing only on the falling bit-clock edge. Left and right samples alternate in stream order and stay paired with the word clock however the stream stalls. The reported fill level equals the number of buffered samples.",
  ["schedules", "inputs", "configurations"], "All stream schedules, samples at small widths, several bit-clock ratios and both formats.",
  "Tests simulate one sample sequence without judging it bit by bit.",
  [I + "i2s.py"], [("bit counter and channel FSM", I + "i2s.py: I2STransmitter")])
P("I13", "I2S receiver delivers every received sample once with its channel",
  "Every complete frame slot on the serial line is delivered exactly once as a stream word holding the received sample bits, with the first/last flags identifying the channel, in line order; partial slots before synchronization are never delivered. Under back-pressure words are delivered in order without duplication or mixing of channels until the buffer is exhausted. The reported fill level equals the number of buffered words.",
  ["inputs", "schedules", "configurations"], "All sample values at small widths, all alignments of start-up to the word clock, consumer schedules, both formats.",
  "Tests simulate one sample sequence without judging it bit by bit.",
  [I + "i2s.py"], [("bit counter and channel FSM", I + "i2s.py: I2SReceiver")])
P("I14", "LED decoders and bar graphs display every value correctly",
  "The seven-segment decoders light exactly the conventional, mutually distinct hexadecimal glyph of every nibble and the decimal points asked for, for every digit of the number. The bar graph is a thermometer: it is monotone in the input, contiguous from one end, empty at (and below) the minimum and completely lit only from the maximum upward; in between the range is divided linearly over one to all-but-one segments, to within one segment.",
  ["inputs", "configurations"], "All input values for all option combinations and several value ranges.",
  "There are no tests for these decoders.",
  [I + "led.py"], [("segment table", I + "led.py: NibbleToSevenSegmentHex"), ("threshold comparison", I + "led.py: NumberToBitBar")])
P("I15", "MAX7219 driver sends its full initialization and then every digit row",
  "After reset the driver waits for the configured start-up delay, then transmits the complete initialization sequence, in order, as 16-bit register writes to every module in the chain, and then repeatedly transmits each digit row with the current data for every module. Every word is framed by chip select and clocked most significant bit first, with no truncated or repeated word.",
  ["inputs", "histories", "configurations"], "All digit contents at bounded alphabet, several chain lengths and divisors, followed over complete refresh cycles.",
  "The test simulates without judging the serial output.",
  [I + "max7219.py"], [("step counter and shift FSM", I + "max7219.py: SerialLEDArray")])
P("I16", "WS2812 driver emits exact pulse trains and a valid reset gap",
  "For each refresh the driver emits 24 bits per LED in green-red-blue order, most significant bit first, each bit a pulse whose high time is the zero or one width and whose total length is the bit period, for all LEDs in chain order from the values stored by the user; done_out is strobed once when the refresh has finished. Between refreshes the line is low for at least the 50 microsecond latch time.",
  ["inputs", "configurations", "histories"], "All stored colours from a bounded alphabet, all write timings between refreshes, several chain lengths and clock frequencies.",
  "The test simulates without judging the waveform.",
  [I + "ws2812.py"], [("bit timing FSM", I + "ws2812.py: WS2812")])

Dd = "amlib/dsp/"
P("D01", "FIR filters compute the exact fixed-point convolution in both implementations",
  "For every input history the filter output equals the sum over its taps of the correspondingly delayed input times the quantized coefficient, scaled and wrapped to the output width. The resource-sharing implementation produces the same output sequence as the parallel one for every enabled sample.",
  ["inputs", "histories", "configurations"], "All short input histories at small width and bounded-alphabet longer ones, for several tap counts and both implementations.",
  "Tests plot or run one waveform without comparing with the convolution.",
  [Dd + "fixedpointfirfilter.py"], [("delay line and multiply-accumulate", Dd + "fixedpointfirfilter.py")])
P("D02", "Half-band filter computes its exact convolution in both implementations",
  "For every input history the output is the half-band convolution: the symmetric non-zero coefficients applied to pair sums plus half the centre sample, scaled and wrapped to the output width. The resource-sharing implementation produces the same output sequence as the parallel one for every enabled sample.",
  ["inputs", "histories", "configurations"], "All short input histories at small width, several filter orders, both implementations.",
  "Tests run one waveform without comparing with a reference.",
  [Dd + "fixedpointhbfilter.py"], [("pair sums, centre tap, MAC loop", Dd + "fixedpointhbfilter.py")])
P("D03", "IIR filter follows its difference equation exactly",
  "For every input history the output equals the fixed-point difference equation with the quantized feed-forward and feedback coefficients applied to past inputs and past outputs. Samples are consumed only on enabled cycles and the state is otherwise held.",
  ["inputs", "histories", "configurations"], "All short input and enable histories at small width for several orders.",
  "Tests run one waveform without comparing with a reference.",
  [Dd + "fixedpointiirfilter.py"], [("feed-forward and feedback sums", Dd + "fixedpointiirfilter.py")])
P("D04", "CIC decimator equals the cascade of moving sums, independent of overflow",
  "The output sequence equals the input passed through the configured number of stages of moving sums over the decimation window, decimated and scaled, with fixed latency, regardless of intermediate integrator wrap-around. Exactly one output strobe is produced per decimation period.",
  ["inputs", "histories", "configurations"], "All input histories over a bounded alphabet for several stages and decimation ratios.",
  "Tests run one waveform without comparing with a reference.",
  [Dd + "fixedpointcicfilter.py"], [("integrators, decimator, combs", Dd + "fixedpointcicfilter.py")])
P("D05", "Filter bank is exactly the cascade of its member filters",
  "The output of a filter bank for every input and enable history equals that of the requested number of individual filters connected in series.",
  ["inputs", "histories", "configurations"], "All short input and enable histories for one to several stages.",
  "There is no test of the filter bank.",
  [Dd + "filterbank.py"], [("chaining of filters", Dd + "filterbank.py")])
P("D06", "Fractional resampler keeps the exact rate ratio and loses no sample",
  "The resampler accepts input samples and produces output samples in exactly the upsampling to downsampling ratio, each output being the filtered, zero-stuffed input picked at the exact phase. Under any input gap or output back-pressure the produced sequence is the same: no sample is lost, repeated or reordered.",
  ["schedules", "inputs", "configurations"], "All input and output handshake schedules with bounded-alphabet samples for several ratios.",
  "Tests run with the output always ready.",
  [Dd + "resampler.py"], [("zero stuffing FSM, filter enable, downsample counter, output FIFO", Dd + "resampler.py")])
P("D07", "Stereo convolution MAC computes exact convolution in all modes",
  "For every pair of input samples the block emits exactly one pair of outputs, flagged first and last, equal to the full convolution of the past inputs with the configured taps in mono, stereo or crossfeed routing, scaled to the sample width. The result is the same for every number of parallel slices and every output ready schedule.",
  ["inputs", "schedules", "configurations"], "All bounded-alphabet sample histories and ready schedules for several tap sets (positive and negative), modes and slice counts.",
  "Tests use one tap set per mode with the output always ready.",
  [Dd + "convolution/mac.py"], [("tap memories, slice MACs, output FSM", Dd + "convolution/mac.py")])
P("D08", "FFT equals the exact fixed-point radix-2 transform for every input",
  "For every input frame the outputs equal the fixed-point radix-2 transform of the windowed samples (products rounded down, log2(points) guard bits, result scaled by 1/points), and the k-th output strobe of a transform carries bin k in natural order, exactly one strobe per bin. The done flag is low from the accepted start until the last bin has been output, a loaded window coefficient (real and imaginary) applies to the sample of its own index in all later transforms, start requests during an operation are ignored, and a transform is unaffected by the previous one.",
  ["inputs", "histories", "configurations"], "All bounded-alphabet input frames for small transform sizes, consecutive transforms.",
  "Tests run a few frames and compare only coarsely or not at all.",
  [Dd + "fixedpointfft.py"], [("bit-reversed load, butterflies, window ROM", Dd + "fixedpointfft.py")])

G = "amlib/debug/ila.py"
P("L01", "Logic analyzer captures exactly the consecutive samples around the trigger",
  "After a trigger the sample memory holds exactly the configured number of samples in order, starting the configured number of clock cycles before the trigger cycle (those with enable high, when there is an enable), and reading any index returns that sample. Capturing, sampling and completion outputs bound the capture exactly, triggers during a capture are ignored, and a finished capture is not disturbed until the next trigger. All this holds once the pre-trigger history has been filled, in whatever clock domain the analyzer is placed.",
  ["histories", "inputs", "configurations"], "All signal, enable and trigger histories for several depths and pre-trigger lengths.",
  "The module's tests cannot be imported here and cover one capture per option.",
  [G], [("write position, pretrigger delay line, capture FSM", G + ": IntegratedLogicAnalyzer")])
P("L02", "Streaming analyzer emits each captured sample once, in order, framed",
  "After each completed capture the stream carries exactly the captured samples in order, each accepted exactly once under every ready schedule, with first and last flags on the first and final samples, also when the stream is in another clock domain. A consumer that waits for valid before asserting ready receives the complete capture, and afterwards the analyzer can be triggered again.",
  ["schedules", "histories", "configurations"], "All consumer ready schedules and repeated captures, same-domain and cross-domain clock interleavings.",
  "The module's tests cannot be imported here and use ready always high.",
  [G], [("readout FSM and CDC FIFO", G + ": StreamILA")])
P("L03", "Serial analyzer frontends reconstruct exactly the captured signal values",
  "What the serial readouts transmit and the host-side frontend parses back is exactly the captured sequence of signal values, each signal with its own name, width and bits, at the timestamps given by the sample rate. The SPI readout returns the samples in order starting with the first for every selection.",
  ["inputs", "configurations"], "All captured values at bounded widths, several signal layouts and sample widths.",
  "The module's tests cannot be imported here and never run the host frontend.",
  [G], [("sample split and parse", G + ": ILAFrontend, AsyncSerialILAFrontend"), ("SPI readout", G + ": SyncSerialILA")])

O = "amlib/soc/"
P("O01", "Wishbone memory honours every access exactly once",
  "Every selected bus cycle is acknowledged exactly once, one cycle after it is presented; a write changes exactly the byte lanes selected at exactly the addressed word and a read returns the word's current contents, initialized as requested. A read-only memory never changes, and without an active cycle and strobe nothing is written or acknowledged.",
  ["histories", "inputs", "configurations"], "All sequences of bus signals at small widths and depths, read-only and writable, several granularities and initial values.",
  "There are no tests for the bus memories.",
  [O + "memory.py"], [("write enables and acknowledge register", O + "memory.py: WishboneRAM.elaborate")])
P("O02", "Interrupt sources never lose or invent an event",
  "An event becomes pending in the cycle after its level, rising or falling condition occurs and stays pending until software writes a one to its bit; an event occurring in the same cycle as the clearing write is not lost, and writing ones never affects other bits. The interrupt line is high exactly when some pending event is enabled.",
  ["histories", "configurations"], "All event and register-write histories for two events of every mode combination.",
  "There are no tests for the interrupt logic.",
  [O + "event.py"], [("pending/enable registers and trigger detection", O + "event.py: InterruptSource.elaborate")])
P("O03", "Serial peripheral moves every character once between bus and line",
  "Characters written while enabled are transmitted on the line exactly once, in order, and characters received on the line are returned by reads of the data register exactly once, in order, as long as the buffers do not overflow. Status flags truthfully reflect buffer state and the divisor register controls the bit period.",
  ["histories", "schedules", "inputs"], "All register access schedules and line traffic with bounded-alphabet characters.",
  "There are no tests for the peripheral.",
  [O + "uart.py"], [("FIFOs between CSR and PHY", O + "uart.py: UARTPeripheral.elaborate")])
P("O04", "Peripheral bridge maps every register, window and event to its address",
  "Every register, bus window and event requested of a peripheral is reachable over the bridge's bus at exactly the address its memory map reports, honouring requested addresses and alignments, and an access strobes exactly the addressed registers once with the data written, or returns the registers' values. The bridge's event status, pending and enable registers follow each other in this order and its interrupt line is raised for every enabled pending event of the peripheral.",
  ["configurations", "histories"], "Peripherals of many shapes (banks, explicit and implicit addresses and alignments, widths, windows, events, bus widths), and for each all sequences of register, word and window accesses and event changes.",
  "There are no tests for peripherals or their bridge.",
  [O + "peripheral.py"], [("placement of banks, windows and event registers", O + "peripheral.py: PeripheralBridge.__init__"), ("requests of a peripheral", O + "peripheral.py: Peripheral, CSRBank")])
P("O05", "System-on-chip places, connects and documents its parts consistently",
  "Every memory and peripheral added to a simple system-on-chip is reachable from both processor buses at exactly the addresses its memory map reports (the requested one, or a free, size-aligned one), no two parts overlap, and simultaneous accesses of both buses each complete with their own data. Interrupting peripherals get consecutive numbers in the order of addition and drive that processor input, and the resource list, C header and linker script state exactly these addresses, sizes, register accessors and interrupt numbers.",
  ["programs", "histories", "configurations"], "All sequences of add operations up to a bound, and for several systems all bounded sequences of accesses from both buses with interrupt events.",
  "There are no tests for the system-on-chip.",
  [O + "simplesoc.py"], [("bus, arbiter and interrupt wiring", O + "simplesoc.py: SimpleSoC.elaborate"), ("placement and interrupt numbering", O + "simplesoc.py: add_rom, add_ram, add_peripheral"), ("generated files", O + "simplesoc.py: resources, generate_c_header, generate_ld_script")],
  technique="explicit-state exploration of the elaborated system under free processor buses, plus exhaustive enumeration of add-operation sequences with the generated header compiled and executed")

T = "amlib/test/"
P("T01", "CRC engine equals polynomial division for every parameter set and split",
  "For every parameter set the computed checksum equals the remainder of binary polynomial division with the given polynomial, initial value, reflections and final XOR, whatever way the message is split into partial updates. Appending the checksum yields the algorithm's fixed residue, and resetting restores the initial state.",
  ["inputs", "configurations", "histories"], "All parameter combinations at small widths and all short messages with all splits; all catalogued algorithms.",
  "Tests check the catalogue check value of each algorithm only.",
  [T + "crc.py"], [("table and bitwise update", T + "crc.py: CrcRegister, CrcAlgorithm")], note=ENUM,
  technique="exhaustive enumeration of parameter sets x messages x splits on the real code against bitwise polynomial division")
P("R01", "A synchronous reset returns every block to its power-up behaviour",
  "Whatever a block has been doing, asserting the synchronous reset of its clock domains while its inputs are at rest makes it behave, from then on and for any inputs, exactly as a block that has just been powered up: all registered outputs are at their reset values and nothing of the interrupted transfer, packet, word, count or configuration shows up afterwards. Data outputs count only while the block declares them valid; the contents of memories (RAM, LED colours, window function, filter sample memories) and flip-flop input synchronizers are not reset by design, so inputs rest for a few cycles around the reset.",
  ["histories", "crash points", "configurations"], "All bounded (mostly unbounded) histories over a small input alphabet, a reset at any cycle of them, and all continuations.",
  "No test ever asserts a reset; whether every state register takes part in it depends on the state the reset arrives in and on the inputs that follow it.",
  ["amlib/"], [("state registers of all blocks", f) for f in ["amlib/utils/fifo.py", "amlib/stream/generator.py", "amlib/io/i2c.py", "amlib/io/spi.py", "amlib/io/serial.py", "amlib/io/i2s.py", "amlib/dsp/fixedpointfirfilter.py", "amlib/debug/ila.py", "amlib/soc/uart.py"]],
  technique="explicit-state exploration of two copies of each elaborated block in lockstep, one reset at every point of every explored history, one never used before")
