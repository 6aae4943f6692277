#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None,
         observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state or []],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe or [],
            "hook_needed": hook,
        }})


T = "transcoder/"
# ---------------------------------------------------------------- stream
prop("C01", "Every 2 KB frame of the output stream ends in its ACK; output is whole frames",
     "The byte stream the transcoder emits starts with the 7-byte header and, for every sequence of player operations, every 2048-byte frame except the last ends with exactly one 4-byte ACK, no operation straddles a frame boundary, and no ACK occurs anywhere else. "
     "The stream ends with one TERMINATE followed by zero padding to a multiple of 2048 bytes, whether it ends because the input ran out or because the output size limit was reached. "
     "With a size limit, no audio/video operation starts at or beyond the limit and the padded output ends in the first 2 KB frame that extends past the last byte emitted before the stop; without one nothing is dropped.",
     ["inputs", "configurations"],
     "every operation sequence of any length (frames exactly full, one short, one over, empty), both video modes, every size limit including 0/none and limits inside, at and beside frame boundaries",
     "There is no test of the multiplexer at all (movie.py cannot even be imported by the test suite); alignment depends on the whole preceding length.",
     [T + "movie.py", T + "opcodes.py", T + "machine.py"],
     [("2 KB boundary bookkeeping and padding", T + "movie.py: Movie.emit_stream, Movie.done")],
     [("stream position", "bytes emitted so far; decides where ACK goes", T + "movie.py: Movie.stream_pos")],
     ["the bytes yielded by Movie.emit_stream"])

prop("C02", "The output stream decodes to exactly the operations that were encoded",
     "For every sequence of audio/video operations (any of the 32 duty cycles, any of the 32 screen pages, any content byte, any four offsets), decoding the emitted bytes - operation entry address, content, four offsets - with the player's symbol table gives back the same operations in the same order, and nothing else. "
     "Every operation has its own distinct entry address. "
     "Two operations compare equal exactly when they would be encoded to the same bytes.",
     ["inputs", "programs"],
     "all 1024 audio/video operations x all content bytes and offset tuples, and ACK/TERMINATE/NOP/HEADER with all parameters, in generated sequences",
     "The tests compare a few operation objects for equality; none looks at an emitted byte.",
     [T + "opcodes.py", T + "machine.py", T + "symbol_table.py", "player/iivision.dbg"],
     [("operation classes and their entry addresses", T + "opcodes.py: _make_tick_opcodes, _fill_opcode_addresses"),
      ("emission of command then data", T + "machine.py: Machine.emit")],
     observe=["bytes from Machine.emit / Movie.emit_stream"])

prop("C03", "The transcoder's operations do what they claim on the player built from source",
     "For every audio/video operation the transcoder can emit, jumping to the address it emits in the player assembled from the current player source executes that very operation: the speaker pulse width it names, and the content byte stored at the four named offsets of the named screen page. "
     "The same holds for ACK (buffer management, bank switch), NOP and TERMINATE. "
     "Every address is the start of such a routine and lies outside the memory that is erased at start-up.",
     ["programs", "inputs"],
     "every operation the transcoder knows, with generated content and offsets, executed on a 6502 simulator running the freshly built player",
     "The tests never assemble, load or run the player; the symbol file read by the transcoder is a committed artefact that nothing compares with the source.",
     ["player/main.s", "player/iivision.dbg", "player/apple2-asm-hgr.cfg", T + "opcodes.py", T + "symbol_table.py"],
     [("symbol table export", "player/main.s: .DEBUGINFO, op_* labels"),
      ("address lookup", T + "opcodes.py: _parse_symbol_table, _fill_opcode_addresses")],
     observe=["emitted addresses vs. routine behaviour in the built binary"])

# ---------------------------------------------------------------- player
prop("C04", "Each player operation stores exactly its four bytes and reads only its operands",
     "For every sequence of audio/video operations, the running player consumes exactly seven stream bytes per operation (address, content, four offsets), stores the content byte at exactly the four given offsets of the operation's page, and writes no other memory outside its own code and zero-page scratch space. "
     "The effect of an operation never depends on which operations preceded it. "
     "At every dispatch the index register the dispatch loop relies on is zero.",
     ["programs", "histories", "inputs"],
     "all sequences over the 1024 operations with any content and offsets (repeated offsets, offsets in any order, all operand values)",
     "No test runs the player; a register left dirty by one operation only shows in particular successors.",
     ["player/main.s"],
     [("operation macros and shared tails", "player/main.s: op_tick_4 .. op_tick_66 macros")],
     [("X register", "must be 0 at every dispatch", "player/main.s: op_tick_6, op_tick_16")],
     ["memory writes and stream reads in simulation"])

prop("C05", "Every audio/video operation takes 73 cycles with its named speaker pulse width",
     "Every audio/video operation takes exactly 73 CPU cycles from its first speaker toggle to the first toggle of the operation that follows, whatever the operands and whatever follows. "
     "Its two speaker toggles are exactly N cycles apart for the operation named N, except 22 and 40, which are one cycle short. "
     "There are no other speaker toggles.",
     ["programs", "inputs", "histories"],
     "all 32 duty cycles x 32 pages x operand values (page-crossing offsets included) x following operations",
     "Timing of 6502 code is not tested at all; it depends on instruction mix and on where the linker puts the code.",
     ["player/main.s", "player/apple2-asm-hgr.cfg"],
     [("cycle-counted operation bodies", "player/main.s: op_tick_* macros")],
     observe=["cycle stamps of speaker accesses in simulation"])

prop("C06", "The player reads the stream in order, never early, and acknowledges each 2 KB",
     "Whatever the schedule by which network data arrives, the player consumes the stream bytes in order without skipping, repeating or reading bytes not yet received, across any number of wraps of the 8 KB receive buffer. "
     "After each 2048-byte frame it advances the receive pointer by exactly 2048, issues one RECEIVE command, and flips exactly the soft switch named in the ACK. "
     "When less than 2 KB is available it waits without consuming, and it resumes at the right place.",
     ["schedules", "histories", "inputs"],
     "all streams of whole frames and all arrival schedules (trickled, bursty, stalled, exactly 2 KB, full 8 KB)",
     "No test runs the player or models the network card; the repository's own simulator does not implement TCP buffers.",
     ["player/main.s"],
     [("ACK and receive loop", "player/main.s: op_ack, checkrecv, recv, op_nop")],
     [("W5100 address pointer", "saved in Y across the slow path", "player/main.s: op_ack"),
      ("S0_RX_RD", "acknowledged position", "player/main.s: op_ack")],
     ["W5100 register traffic in simulation"])

prop("C07", "The ACK slow path takes two operation periods with the speaker kept neutral",
     "When data is already available, the time from the ACK's first speaker toggle to the first toggle of the next audio/video operation is exactly two 73-cycle periods, and the speaker toggles every 34 to 39 cycles meanwhile. "
     "This holds at every frame boundary, every buffer position and for both bank selections. "
     "While waiting for data the speaker keeps being toggled.",
     ["schedules", "histories"],
     "every frame boundary of generated streams, with every buffer offset, bank and successor operation, data available or late",
     "Not tested; depends on branch placement relative to page boundaries.",
     ["player/main.s"],
     [("slow path timing", "player/main.s: op_ack, checkrecv, recv, op_nop")],
     observe=["cycle stamps of speaker accesses in simulation"])

prop("C08", "The player boots, connects with bounded retries, starts the header's mode",
     "From a cold start the player programs the network card (reset, MAC, IP, 8 KB buffers, TCP mode, ports, peer), and connects, retrying a refused connection five times before it reports failure and stops; an unopenable socket is reported and stops it. "
     "It then consumes the 7-byte header once at least 256 bytes have arrived and clears the whole display: for mode 0 it shows single hi-res main memory only, for any other mode it also enables and clears auxiliary memory and turns on double hi-res with writes going to main memory. "
     "The first audio/video operation executed is the one right after the header.",
     ["fault_sequences", "schedules", "configurations"],
     "all sequences of connection outcomes and status polls, arrival schedules of the first data, both modes",
     "No test runs the player.",
     ["player/main.s"],
     [("bootstrap", "player/main.s: bootstrap .. op_header, _op_header_hgr")],
     observe=["W5100 register writes, soft-switch accesses, console output in simulation"])

prop("C09", "Pausing never corrupts playback; terminating and reset leave cleanly to ProDOS",
     "A key pressed at any time during playback pauses it at the next frame boundary until a second key, and the operations executed, their order and their effects are the same as without the pause. "
     "After TERMINATE the player waits for a key, consumes nothing further, and quits to ProDOS with a valid QUIT call, having invalidated the power-up byte. "
     "The reset vector installed at start-up is valid and leads to the same exit.",
     ["schedules", "histories"],
     "key presses at any point of any stream, any number of them, any hold-off before the resuming key, at the terminating operation, and a reset at any point",
     "No test runs the player.",
     ["player/main.s"],
     [("keyboard handling", "player/main.s: recv, op_terminate, exit")],
     observe=["stores, MLI call parameters and vectors in simulation"])

# ---------------------------------------------------------------- encoder
V = T + "video.py"
prop("C10", "The encoder always knows what is on the player's screen",
     "After any number of emitted stores, applying them in order to a blank screen gives exactly the screen contents the encoder believes the player shows, byte for byte in both memory banks. "
     "This holds for every history of target frames, bank switches, encodings abandoned in the middle and encodings continued long after they ran out of work.",
     ["histories", "inputs"],
     "all sequences of target frames, bank choices and numbers of stores taken per frame, both modes and palettes, any random choices of the encoder",
     "No test takes a store from the encoder; test_diff_weights stops before encoding.",
     [V, T + "screen.py"],
     [("belief update with each store", V + ": Video._index_changes"), ("applying a store", T + "screen.py: Bitmap.apply, MemoryMap.write")],
     [("believed screen", "memory maps and packed bitmap held by the encoder", V + ": Video.memory_map, aux_memory_map, pixelmap")],
     ["stores yielded by Video.encode_frame vs. Video.memory_map"])

prop("C11", "The encoder only ever stores to visible bytes of hi-res page 1",
     "Every store the encoder emits names a page from 32 to 63, an offset from 0 to 255, a content byte from 0 to 255 and exactly four offsets, and never hits a screen hole. "
     "Screen holes of the believed screen stay zero. "
     "In double hi-res the high bit of the content is never set.",
     ["histories", "inputs"],
     "all target frames (including ones with junk in the holes), histories and modes",
     "No test takes a store from the encoder.",
     [V, T + "screen.py"],
     [("masking of screen holes", V + ": Video._index_changes; " + T + "screen.py: SCREEN_HOLES")],
     observe=["stores yielded by Video.encode_frame"])

prop("C12", "A still picture converges to a perceptually identical screen",
     "If the target frame stops changing, the encoder reaches - for every target and every earlier history - a screen whose every visible byte has perceptual distance zero from the target, after at most one store operation per differing byte and pass, within a bounded number of passes over each bank. "
     "From then on it only re-stores values already on the screen. "
     "Encoding never stops yielding operations.",
     ["histories", "inputs"],
     "all start screens, target frames, interleavings of bank passes, modes and palettes",
     "The debug assertions for this are commented out in the code; no test runs an encoding to the end.",
     [V, T + "screen.py"],
     [("priority queue until exhausted", V + ": Video._index_changes")],
     observe=["believed and replayed screen vs. target"])

prop("C13", "Every store is exact or an improvement, and no usable slot is wasted",
     "In every emitted operation the content byte is exactly the target byte at the first offset. "
     "Each further distinct offset is one where storing that content brings the display strictly closer to the target than what was there when the frame's encoding began; such offsets are taken in order of improvement, and all four slots are used while enough such offsets remain. "
     "Within one frame's encoding a byte once stored exactly is never overwritten with something else.",
     ["histories", "inputs"],
     "all target frames, start screens, points in the encoding, modes and palettes",
     "No test takes a store from the encoder.",
     [V, T + "screen.py"],
     [("candidate selection", V + ": Video._compute_error; " + T + "screen.py: Bitmap.compute_delta_page")],
     observe=["stores yielded by Video.encode_frame"])

prop("C14", "Screen differences are served in order of accumulated visual weight",
     "The first offset of every emitted operation is an unserved location with the highest accumulated priority, where a location's priority is the sum of its visual differences over the successive frames encoded for that bank since it was last served or matched. "
     "A location that no longer differs loses its priority; one that is not served keeps gaining, so no difference is starved. "
     "The two banks keep separate priorities.",
     ["histories", "inputs"],
     "all sequences of frames, partial encodings, and bank switches",
     "Accumulation over several partially encoded frames is not exercised by any test.",
     [V],
     [("update priorities and heap", V + ": Video._index_changes, _heapify_priorities")],
     [("accumulated priorities", "per (page, offset), per bank", V + ": Video.update_priority, aux_update_priority")],
     ["order of stores yielded by Video.encode_frame"])

# ---------------------------------------------------------------- bitmap model
S = T + "screen.py"
prop("C15", "Incremental screen updates equal a from-scratch recomputation",
     "For every history of single-byte updates, the packed screen representation equals the one packed from scratch out of the resulting memory, in both video modes, including the bits shared with neighbouring columns. "
     "The underlying memory holds exactly the last value written at each location and nothing else changes.",
     ["histories", "inputs"],
     "all initial memories and update sequences over (page, offset, bank, value), adjacent and first/last columns included",
     "The tests apply a handful of fixed updates at fixed places.",
     [S],
     [("neighbour fix-up", S + ": Bitmap.apply, _fix_scalar_neighbours, _make_header, _make_footer"), ("full packing", S + ": Bitmap._pack")],
     [("packed screen", "one scalar per two screen columns", S + ": Bitmap.packed")],
     ["Bitmap.packed after Bitmap.apply"])

prop("C16", "The packed model reproduces the dots the Apple II hardware displays",
     "For every screen memory, both modes and every byte position, the display dots the model derives for that byte and its neighbourhood are the dots the hardware shows: hi-res bits doubled, delayed by one dot when the byte's high bit is set, with the last dot of the previous byte extended into the gap; double hi-res seven dots per byte, auxiliary before main, high bit ignored. "
     "Storing a byte in the model changes those dots as storing it in memory would. "
     "The colour clock phase assigned to each byte position matches its place on the line.",
     ["inputs"],
     "all values of a byte and of the neighbouring bits (enumerable), at all columns, in both modes, from whole generated screens",
     "Tests check a few dozen chosen bit patterns.",
     [S],
     [("packing, masking and dot conversion", S + ": HGRBitmap, DHGRBitmap: _body, masked_update, mask_and_shift_data, to_dots, PHASES")],
     observe=["to_dots(mask_and_shift_data(packed))"])

prop("C17", "Dots map to colours by a sliding four-dot window on the colour clock",
     "The colour of each pixel is determined by the four dots starting there and by its position modulo four on the colour clock, for dot strings of any length and any start phase. "
     "Hence splitting or shifting a dot string, with the phase adjusted, gives the same colours for the same dots, and the value and enumerated forms agree. "
     "Left and right rotation of a nibble are inverse, have period four and preserve the number of set bits.",
     ["inputs"],
     "all dot strings, lengths, start phases and both colour enumerations; all nibbles and rotation counts",
     "Two long dot strings and a few rotations are tested, with phase 0 and one enumeration only.",
     [T + "colours.py"],
     [("sliding window", T + "colours.py: dots_to_nominal_colour_pixels, rol, ror")],
     observe=["return values"])

prop("C18", "Difference weights equal the distance between the displayed and the wanted",
     "For every pair of current and target screens, the weight computed for each byte is the perceptual distance between the two displays in the neighbourhood of that byte, and zero where both displays agree there. "
     "The gain computed for storing a content byte at each offset of a page, and the distance computed for a single store, equal what the same distance gives when the byte is actually stored. "
     "Computing weights changes neither screen.",
     ["inputs"],
     "all pairs of screens, all pages, banks and content bytes, both modes and palettes",
     "One pair of nearly blank frames in one mode and palette is tested; the page-wise and single-byte forms are marked as untested in the code.",
     [S],
     [("vectorised differences", S + ": Bitmap._diff_weights, _diff_weights_page, compute_delta_page, byte_pair_difference")],
     observe=["return values vs. a scalar recomputation"])

prop("C19", "The visual distance is the perceptual edit distance of the two displays",
     "The distance between two displays of a byte's neighbourhood is the cheapest way to turn one colour sequence into the other by substituting colours at their CIE2000 difference in the chosen palette or by swapping adjacent pixels at cost one, with no insertions or deletions. "
     "It is symmetric, never negative, zero for equal colour sequences, never exceeds the plain substitution cost, and fits in 16 bits. "
     "Each palette's colours and costs are those of the named palette.",
     ["inputs", "configurations"],
     "all pairs of masked neighbourhoods at every byte offset, both modes and palettes, and all pairs of colour sequences",
     "The tests of the tables need files that take 90 minutes to make and check only symmetry and sign; the value itself is never checked.",
     [T + "make_data_tables.py", T + "palette.py", T + "colours.py"],
     [("cost matrices and distance", T + "make_data_tables.py: compute_diff_matrix, compute_substitute_costs, edit_distance")],
     observe=["return values vs. an independent dynamic program and CIE2000 implementation"])

prop("C20", "Distance tables survive generation, storage and loading unchanged and symmetric",
     "For every display model and palette, the table generated, written to disk and loaded again gives, for each byte offset and each ordered pair of masked values, exactly the distance of those two displays. "
     "It gives the same value in both orders and zero on the diagonal. "
     "Tables of different modes and palettes never get mixed up.",
     ["inputs", "configurations"],
     "all pairs (a, b) of masked values at every offset, for generated small display models and for full-size tables of both modes and palettes",
     "The full-size tests time out or need tables that are not there; the on-disk format is only half of the matrix and its completion is untested.",
     [T + "make_data_tables.py", S],
     [("table generation", T + "make_data_tables.py: compute_edit_distance, make_edit_distance"), ("loading", S + ": Bitmap.edit_distances")],
     observe=["loaded table entries"])

prop("C21", "Screen addresses follow the Apple II memory layout one to one",
     "Every pixel row and byte column corresponds to exactly one memory address per hi-res page, given by the Apple II interleave, and all the lookup tables between row/column, page/offset and address are mutually inverse and agree with it. "
     "The screen holes are exactly the bytes that correspond to no row and column.",
     ["inputs"],
     "all rows, columns and both hi-res pages; all page/offset pairs",
     "No test looks at the address tables.",
     [S],
     [("address computation and lookup tables", S + ": y_to_base_addr, _populate_mappings")],
     observe=["lookup tables"])

prop("C22", "Flat and paged views of screen memory agree, and bad geometry is rejected",
     "Converting between the flat 8 KB view and the 32-page view preserves every byte in both directions, and a write through either view lands at the one byte it names. "
     "Flat writes outside the hi-res page's address range, memory of the wrong size and hi-res page numbers other than 1 and 2 are rejected, leaving memory unchanged.",
     ["inputs", "histories"],
     "all memories, write sequences through both views, addresses in and out of range, shapes and page numbers",
     "No test writes through these views.",
     [S],
     [("memory views", S + ": FlatMemoryMap, MemoryMap")],
     observe=["data arrays and raised errors"])

# ---------------------------------------------------------------- audio / movie
prop("C23", "Each audio sample becomes the duty cycle proportional to its amplitude",
     "For every sound file (any channel count, length, level, sample rate), the audio stream yields one value per output sample, all channels averaged and in order, proportional to the amplitude times the normalisation and clipped to the range -15 to 16. "
     "Automatic normalisation scales so that the 99% bulk of samples just fits the range, and silence stays at the neutral value 0.",
     ["inputs", "configurations"],
     "all PCM inputs: mono/stereo/multi-channel, any length including several read blocks, full-scale, silent, mostly silent, DC; all output rates; explicit and automatic normalisation",
     "audio.py is not even imported by the tests.",
     [T + "audio.py"],
     [("decode, normalise, quantise", T + "audio.py: Audio._decode, _normalization, audio_stream")],
     observe=["values yielded by Audio.audio_stream"])

prop("C24", "One operation per audio sample, and video frames switch on time",
     "The multiplexed programme contains exactly one audio/video operation per audio sample, in order, each with the pulse width of its sample. "
     "Video frame k becomes the target at the first sample at or after time k divided by the input frame rate, for every frame rate and audio rate, so sound and picture never drift; only every n-th frame is encoded when skipping is on, and skipped frames still consume their time. "
     "Playback ends when either the sound or the frames run out.",
     ["inputs", "configurations", "histories"],
     "all audio rates, frame rates (fractional included), frame-skip factors, lengths of sound and video",
     "movie.py is not imported by the tests and Video.tick is untested.",
     [T + "movie.py", V],
     [("frame clock", V + ": Video.tick"), ("multiplexing", T + "movie.py: Movie.encode")],
     [("frame_number", "next frame due", V + ": Video.frame_number")],
     ["operations yielded by Movie.encode"])

prop("C25", "Stores always go to the memory bank the player has selected",
     "In double hi-res, banks alternate at every ACK starting from main memory, the ACK announces the bank in force for the operations after it, and every operation's content is meant for that bank of the current frame. "
     "In single hi-res the main bank is selected throughout. "
     "Decoding the finished stream and steering its stores by the announced bank reproduces the encoder's believed screen in both banks.",
     ["histories", "inputs", "configurations"],
     "all movies: any frames, lengths, frame changes coinciding with or near bank switches, both modes, frame skipping, size limits",
     "No test runs the multiplexer; the bank switch happens in one generator while another is suspended.",
     [T + "movie.py", V, T + "opcodes.py"],
     [("bank flip-flop", T + "movie.py: Movie.emit_stream, Movie.encode"), ("announced bank", T + "opcodes.py: Ack")],
     [("current bank", "", T + "movie.py: Movie.aux_memory_bank")],
     ["decoded byte stream vs. encoder memory maps"])

prop("C26", "A transcoded file plays back on the player as encoded",
     "For every input movie and every choice of options, the command-line transcoder writes a file which the player built from source, receiving it over the network, plays to its end: each audio sample's pulse width in order, and at the end the screen memory the encoder believes in, in the selected video mode. "
     "The file goes to the named output or, by default, to the input name with its last extension replaced by .a2m. "
     "Options for mode, palette, audio rate, normalisation, frame skipping and size limit each take effect.",
     ["inputs", "configurations"],
     "all inputs and option combinations within generated small movies",
     "There is no end-to-end test; transcoder main, movie and audio are never imported by the tests and the player is never run.",
     [T + "main.py", T + "movie.py", V, T + "audio.py", T + "frame_grabber.py", "player/main.s"],
     [("command line", T + "main.py: main"), ("pipeline", T + "movie.py: Movie")],
     observe=["output file, simulated player"])

prop("C27", "Each input frame is delivered once, in order, converted for mode and palette",
     "The frame source yields, for every input video, one screen (main, and auxiliary in double hi-res) per frame in input order with nothing lost, repeated or reordered, no matter how fast it is consumed. "
     "Each is the conversion of that very frame, resized to 280x192, by the external converter invoked for the chosen mode and palette; results cached by an earlier run with the same input, mode and palette are reused and those of another mode or palette never are. "
     "No temporary images remain.",
     ["inputs", "schedules", "histories", "configurations"],
     "all frame counts (0, fewer and more than the queue length), consumer speeds, cache states (empty, partial, complete, from another mode or palette), file names",
     "Only the cache directory name of three file names is tested.",
     [T + "frame_grabber.py"],
     [("worker and queue", T + "frame_grabber.py: FileFrameGrabber.frames"), ("cache directory", T + "frame_grabber.py: FileFrameGrabber._output_dir")],
     observe=["frames yielded, converter invocations, files left"])

prop("C28", "A failing frame conversion is reported instead of hanging the transcoder",
     "If reading, converting or loading any frame fails, the frame source delivers the frames before it and then raises an error to its consumer. "
     "It never waits forever and never passes off a failed frame as the end of the video.",
     ["fault_sequences", "schedules"],
     "a fault at any frame: the video reader, the converter (missing, not producing output, producing output of the wrong size), or the output directory; any consumer speed",
     "No test runs the frame source.",
     [T + "frame_grabber.py"],
     [("worker thread hand-over", T + "frame_grabber.py: FileFrameGrabber.frames")],
     observe=["outcome of iterating the frame source"])

prop("C29", "The symbol file parser recovers every symbol of any cc65 debug file",
     "For every cc65 debug file, parsing yields each symbol line's attributes under the symbol's name and nothing from other lines, whatever the order of lines and attributes and whether or not the file ends in a newline. "
     "Parsing from an open stream and from a file name agree.",
     ["inputs"],
     "all well-formed debug files: any records of other kinds, symbols with any attribute set, any order",
     "One two-line example is tested.",
     [T + "symbol_table.py"],
     [("parser", T + "symbol_table.py: SymbolTable.parse")],
     observe=["returned mapping"])

prop("C30", "The server streams the whole file to every client",
     "Every client that connects receives exactly the bytes of the served file as it is at that time, followed by end of stream, for any file size and however slowly it reads. "
     "A client that disconnects early or resets the connection does not stop later clients from being served. Once stopped, the server can be started again on its port at once.",
     ["histories", "fault_sequences", "inputs"],
     "all sequences of clients (complete, slow, early-closing, resetting, queued) and all file contents and sizes including empty and larger than socket buffers",
     "The server has no tests.",
     ["server/server.py"],
     [("request handler", "server/server.py: main, ChunkHandler.handle")],
     observe=["bytes received on loopback connections"])

# ---------------------------------------------------------------- simulator
prop("C31", "Simulated soft switches and I/O addresses behave as on the Apple II",
     "For every sequence of accesses, a soft switch is on exactly if its set address was accessed later than its clear address (in an access mode that operates it), and reading its status address gives bit 7 set exactly when it is on. "
     "Switches do not affect one another. "
     "Accessing an I/O address in a mode it does not support, or one that is not mapped, is trapped with the address and kind of access reported, and changes nothing.",
     ["histories", "inputs"],
     "all sequences of reads and writes over the I/O page",
     "The simulator has no tests.",
     ["simulator/machine.py", "simulator/apple2.py"],
     [("soft switches and I/O dispatch", "simulator/machine.py: SoftSwitch, Machine.io_interceptor; simulator/apple2.py: AppleII.__init__")],
     observe=["values read, exceptions"])

prop("C32", "The simulated network card is a pointer-addressed auto-increment memory",
     "For every sequence of pointer and data accesses through the card's four I/O registers, the data register reads and writes the byte at the pointer last set through the two address registers, each half set independently of the other, and each data access advances the pointer by one within the 32 KB address space. "
     "Data written to card memory or plain registers is read back unchanged until overwritten, and the mode register is readable and writable through its own address. "
     "An OPEN command sets the socket status to INIT and a CONNECT command to ESTABLISHED; other unknown commands change nothing.",
     ["histories", "inputs"],
     "all sequences of pointer-half writes, data reads and writes, and mode writes",
     "The simulator has no tests.",
     ["simulator/uthernet.py", "simulator/apple2.py", "simulator/machine.py"],
     [("indirect bus", "simulator/apple2.py: _uther_wadrh, _uther_wadrl, _uther_wdata; simulator/uthernet.py: read_data, write_data")],
     [("address pointer", "", "simulator/uthernet.py: Uthernet.ptr")],
     ["values read back"])

prop("C33", "The simulator guards memory regions: ROM is immutable, entry points are enforced",
     "For every memory layout and every sequence of accesses, a write to a write-protected region is refused and changes nothing, every other write takes effect, and interceptors see exactly the accesses to their own region. "
     "Execution that enters another region other than at a declared entry point is reported unless it got there by a return, and every handler declared for an entry point runs each time execution arrives there.",
     ["inputs", "histories"],
     "all region layouts, write/read sequences and control transfers",
     "The simulator has no tests.",
     ["simulator/memory.py"],
     [("region registration and execution check", "simulator/memory.py: MemoryManager")],
     observe=["memory contents, exceptions, handler calls"])

prop("C34", "The simulator starts a programme on a completely loaded machine",
     "For every ROM image and programme, starting the simulator places every byte of the slot 6 and main ROM parts of the image at $C600-$C6FF and $D000-$FFFF, the extracted programme at $8000 and the character output vector at $36, and nothing anywhere else; the programme then runs from $8000, reads what was loaded, meets the guarded regions, takes breaks through the ROM's own vector, and the simulator ends when it loops in place. "
     "If the programme cannot be extracted, the simulator exits with a failure status and executes nothing.",
     ["inputs", "histories"],
     "all ROM images, programmes and break vectors",
     "The simulator has no tests.",
     ["simulator/simulator.py", "simulator/apple2.py"],
     [("loading", "simulator/simulator.py: main"),
      ("running", "simulator/apple2.py: AppleII.Run")],
     observe=["memory contents, instructions executed, exit status"])

prop("C35", "The player's disk image boots into the player, with every file intact",
     "Building the disk image yields a consistent ProDOS (or DOS 3.3) volume that holds the assembled programme byte for byte under its name and with its load address, the system files of the template, and every further file given, with its type and in its directory. "
     "With a loader machine type the first system file on the disk is the loader, which puts the programme at its load address and jumps there without touching memory that ProDOS has in use: the player as it is written ends below the loader's file buffer at $BB00. "
     "A name too long for the file system is refused.",
     ["inputs", "configurations"],
     "all programme contents and sizes that fit the disk and memory, names, start addresses, trees of further files, the machine types of the Makefile",
     "Nothing tests the disk image.",
     ["player/main.s", "player/make/createDiskImage", "player/Makefile", "player/apple2-asm-hgr.cfg"],
     [("disk image", "player/make/createDiskImage"),
      ("size of the player", "player/main.s, player/apple2-asm-hgr.cfg")],
     observe=["contents of the disk image, memory after the loader has run"])

prop("C36", "A transcode whose input or output fails ends in an error, not silently",
     "If the sound cannot be found, decoded or read to its end, a picture that is due cannot be read or converted, or the output cannot be written, then the transcoder's command line ends, and ends in an error (an exception or a failing exit status), never as if the film were complete. "
     "Whatever it has written by then is the beginning of the output it would have written without the failure. "
     "A failure of a picture that is never due does not matter.",
     ["fault_sequences", "inputs"],
     "all films and options; a fault of any kind at any sample, picture or in writing the output",
     "No test runs the command line.",
     [T + "main.py", T + "movie.py", T + "audio.py", T + "frame_grabber.py"],
     [("end of sound and picture", T + "movie.py: Movie.encode"),
      ("reading sound", T + "audio.py: Audio.audio_stream, Audio._normalization"),
      ("writing", T + "main.py: main")],
     observe=["outcome of main.py, contents of the output file"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
