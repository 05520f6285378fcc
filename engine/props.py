"""Single source of the property metadata: properties.jsonl and MANIFEST.json are generated from it."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), level="proof", technique="", note="", claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=list(state), observe=list(observe), level=level, technique=technique, note=note, claimed=claimed, na=na))


prop("C01", "Only well-ordered section sequences are accepted",
     "A section sequence is accepted only if every message reads 0, 1, then one or more groups of [2] 3 4 5 6 7 (a repeated group may omit 2 and 3, the first may not omit 3), then 8, with the stream ending only between messages. "
     "The first section, read error or end of data that does not fit makes the submessage stream report exactly one error (the reader's own error unchanged, else invalid order, missing grid definition, or unexpected end of data) and yield nothing afterwards. "
     "Every submessage completed before that point is still delivered, and no accepted sequence is rejected.",
     ["inputs", "histories"], "every sequence of section numbers 0-255, read errors and end-of-data positions, of any length",
     "The repository's tests feed a handful of hand-written sequences; acceptance quantifies over all sequences, including ones that go wrong after several submessages or messages.",
     ["src/parser.rs", "src/context.rs"],
     [("section-order state machine", "src/parser.rs: Grib2SubmessageValidator"), ("whole-file reading fails on the first error", "src/context.rs: Grib2::read")],
     observe=["Grib2SubmessageStream::next", "from_reader / from_slice"],
     technique="abstract reachability of the parser's typestate (MIR) against the section grammar automaton")

prop("C02", "Each submessage carries the sections that belong to it",
     "Every submessage the parser yields consists of the Section 0 and 1 of its own message, the most recent Section 2 (if any) and Section 3 read in that message, and the Sections 4, 5, 6 and 7 of its own group, plus the End Section when it closes the message. "
     "Sections of an earlier message are never carried over into a later one, and this holds for both the section-valued and the index-valued submessage streams.",
     ["inputs", "histories"], "every accepted section sequence, any number of messages and repeated groups",
     "Which cached section is current depends on the whole history of repeats; tests cover two or three shapes of file.",
     ["src/parser.rs"],
     [("per-message caches of sections 0-3", "src/parser.rs: Grib2SubmessageStream / Grib2SubmessageIndexStream")],
     observe=["Grib2SubmessageStream::next", "Grib2::iter"],
     technique="abstract reachability with provenance tokens for sections (MIR)")

prop("C03", "Message and submessage numbers count what was read",
     "The index pair of the k-th submessage of the m-th message (both from 0) is always (m, k): the submessage number restarts at 0 at each message and increases by one per repeated group, the message number increases by one per End Section. "
     "The CLI finds the submessage whose index pair equals the requested one.",
     ["inputs", "histories"], "all accepted section sequences",
     "Tests check the indices of two small files only.",
     ["src/parser.rs", "src/context.rs", "cli/src/commands/decode.rs"],
     [("counters in the validator", "src/parser.rs"), ("index carried in Grib2SubmessageIndex", "src/datatypes.rs")],
     observe=["MessageIndex of SubmessageIterator items"],
     technique="abstract reachability with ghost counters (MIR)")

prop("C04", "Reported section offsets and sizes match the byte stream",
     "For every section the reader yields (up to the first error), the reported offset is the position of the section's first octet in the underlying stream (also when the reader did not start at position 0 or garbage precedes a message), the size is the section length (16 for Section 0, 4 for Section 8, octets 1-4 otherwise) and the number is octet 5. "
     "After each section the stream stands exactly at the next section's first octet, and a section's payload handed out later is exactly octets 6 to its end.",
     ["inputs"], "all section lengths and numbers, any start position and amount of leading garbage",
     "Tests compare a few well-formed files; the offset arithmetic must hold for every length and every message.",
     ["src/reader.rs"],
     [("offset bookkeeping whole_size/rest_size", "src/reader.rs: Grib2SectionStream"), ("payload seek", "src/reader.rs: read_sect_payload_as_slice")],
     observe=["Grib2SectionStream::next", "Grib2::sections", "Grib2SubmessageDecoder::from"],
     technique="inductive invariant over the reader's abstract state with a ghost stream position (MIR value flow)")

prop("C05", "The section table is complete and indices point into it",
     "After reading, the section list contains every section of the file exactly once and in file order, and each submessage's section indices designate, in that list, exactly the sections that compose it. "
     "Iterating submessages yields them in order, each once, with each slot taken from the index of the same section.",
     ["inputs", "histories"], "all readable files, all submessages",
     "Tests look at two small files; index/table agreement depends on the history of repeated groups.",
     ["src/parser.rs", "src/context.rs", "src/datatypes.rs"],
     [("section cacher and position enumeration", "src/parser.rs: cache_sect"), ("slot mapping", "src/context.rs: SubmessageIterator::next")],
     observe=["Grib2::sections", "SubMessageSection::index"],
     technique="abstract reachability with provenance tokens (MIR) and slot-wise value flow")

prop("C06", "Short reads are never taken for the end of data",
     "A reader whose read calls return fewer bytes than asked for (any split of the same bytes) produces the same result as one that returns everything at once. "
     "Only a read of zero bytes counts as end of data, and a section cut off by the end of data is an error.",
     ["fault_sequences", "inputs"], "every way a Read implementation may split the bytes it returns",
     "All tests read from files or cursors that always fill the buffer.",
     ["src/reader.rs"],
     [("reading of Section 0, section headers and Section 8", "src/reader.rs: Grib2Read for SeekableGrib2Reader")],
     observe=["from_reader over a chunking reader"],
     technique="who-may-call rule and value flow: every result of a raw read call feeds an accumulate-until-full-or-zero loop (MIR)")

prop("C07", "Reading malformed container bytes never panics",
     "Opening a GRIB2 stream through the library returns a value or an error for every byte sequence: no arithmetic overflow or underflow, out-of-bounds access, failed unwrap or explicit panic can be reached from the section reader and the submessage parser, whatever lengths, section numbers and truncations the bytes contain.",
     ["inputs"], "all byte sequences, all I/O outcomes",
     "Tests use well-formed data and a few truncations; the declared lengths can take any value.",
     ["src/reader.rs", "src/parser.rs", "src/context.rs", "src/datatypes/sections.rs"],
     [("length checks in section reading", "src/reader.rs"), ("payload size checks", "src/datatypes/sections.rs: from_payload")],
     observe=["from_reader", "from_slice", "Grib2SectionStream::next"],
     technique="panic-obligation analysis: interval/linear-inequality abstract interpretation over MIR, path-partitioned")

prop("C08", "The search for a message start covers every offset",
     "When looking for the start of a message the reader examines every byte position in order and stops at the first position holding the magic number with a full Section 0 available, so leading or intervening garbage of any length, aligned in any way with the read buffer, never hides a message. "
     "The reported skip distance equals the number of bytes before that position.",
     ["inputs"], "all garbage lengths and alignments relative to the 4096-byte buffer",
     "Tests use no or short garbage; the boundary between two buffers is never exercised.",
     ["src/reader.rs"],
     [("chunked scan with overlap", "src/reader.rs: read_sect0")],
     observe=["Grib2SectionStream::next", "from_reader"],
     technique="loop-summary value flow with a ghost stream position (MIR)")

prop("C09", "Fixed fields of Sections 0, 1, 3, 4, 5 and 6 come from their octets",
     "Discipline, edition check and total length of Section 0; centre, sub-centre, table versions, reference-time significance, reference time, status and type of Section 1; point count and template number of Section 3; coordinate count and template number of Section 4; point count and template number of Section 5; and the bit-map indicator of Section 6 are the big-endian values of the octets the WMO specification assigns to them. "
     "An edition other than 2 is rejected with an error naming it.",
     ["inputs"], "all payload contents of sufficient length",
     "Tests compare a few files in which many of the fields are zero or equal, so swapped or shifted octets go unnoticed.",
     ["src/datatypes/sections.rs", "src/reader.rs"],
     [("octet accessors", "src/datatypes/sections.rs")],
     observe=["Indicator", "Identification", "GridDefinition", "ProdDefinition", "ReprDefinition accessors"],
     technique="byte-provenance value flow (MIR) compared with an octet table")

prop("C10", "Grid definition templates are read from the specified octets",
     "For grid definition templates 3.0, 3.20, 3.30 and 3.40 every exposed parameter (earth shape fields, numbers of points, first/last point, LaD, LoV, Latin1/2, increments, N, projection centre and scanning mode) is the big-endian, sign-magnitude where signed, value of the octets the specification assigns; each template number selects its own definition. "
     "Other template numbers, and a list of numbers of points appended to templates 3.0 and 3.40, are reported as not supported, and the short name and shape (ni, nj) belong to the template.",
     ["inputs"], "all section 3 payloads",
     "Test files use a few parameter values, mostly non-negative and with coinciding fields.",
     ["src/datatypes/sections.rs", "src/grid/latlon.rs", "src/grid/gaussian.rs", "src/grid/lambert.rs", "src/grid/polar_stereographic.rs", "src/grid/earth.rs"],
     [("template dispatch", "src/datatypes/sections.rs: GridDefinitionTemplateValues::try_from"), ("from_buf readers", "src/grid/*.rs")],
     observe=["GridDefinitionTemplateValues::try_from", "grid_shape", "short_name"],
     technique="byte-provenance value flow per template path (MIR) compared with an octet table")

prop("C11", "Product definition fields are located per template",
     "For every supported product definition template number, parameter category and number, generating process, forecast time (unit and value) and the two fixed surfaces (type, signed scale factor, signed scaled value) are read from the octets that template assigns to them; template numbers outside the supported list, and templates without that element, yield none.",
     ["inputs"], "all 65536 template numbers and all payloads",
     "Tests cover a few template numbers; the offset tables have dozens of entries.",
     ["src/datatypes/sections.rs", "src/codetables/old.rs"],
     [("per-template offset tables", "src/datatypes/sections.rs: ProdDefinition"), ("supported template list", "src/codetables/old.rs")],
     observe=["ProdDefinition accessors"],
     technique="path-partitioned value flow over the template-number partition (MIR), compared with a per-template octet table and cross-checked between siblings")

prop("C12", "Signed integers use sign-magnitude representation",
     "A signed GRIB integer of 1, 2, 3, 4 or 8 octets is decoded as sign-magnitude: the most significant bit is the sign and the remaining bits the magnitude, for every bit pattern (including all ones and negative zero).",
     ["inputs"], "all bit patterns of each width",
     "Tests sample about ten bit patterns.",
     ["src/helpers.rs"],
     [("sign-magnitude conversion", "src/helpers.rs: GribInt, grib_int_from_bytes")],
     observe=["every signed field of grid, product and data representation templates"],
     technique="bit-provenance abstract interpretation (MIR): symbolic bits, exhaustive over sign cases")

prop("C13", "Data representation parameters come from their octets",
     "The packing parameters of data representation templates 5.0, 5.2, 5.3, 5.40, 5.41 and 5.200 (reference value, binary and decimal scale factors, bit counts, group parameters, spatial differencing order and octet count, run-length levels) used in decoding are the big-endian, sign-magnitude where signed, values of the octets the specification assigns. "
     "A field of integer original type, an unsupported group splitting method, an unknown missing value management code or an unknown spatial differencing order is refused with an error.",
     ["inputs"], "all section 5 payloads",
     "The tests decode a handful of files whose parameters are small and often equal.",
     ["src/decoder/param.rs", "src/decoder/complex.rs", "src/decoder/run_length.rs", "src/decoder/simple.rs", "src/decoder/png.rs", "src/decoder/jpeg2000.rs"],
     [("parameter readers", "src/decoder/param.rs")],
     observe=["Grib2SubmessageDecoder::dispatch"],
     technique="byte-provenance value flow (MIR) compared with an octet table, guards checked on every path")

prop("C14", "Decoding dispatches on the template and the submessage's own sections",
     "A decoder built from a submessage uses that submessage's grid point count, data point count, template number, Section 5 and 7 payloads and bit map; bit-map indicator 0 uses the Section 6 bits, 255 means no bit map, any other is an error. "
     "Template numbers 0, 2, 3, 40, 41 and 200 are decoded by the method of that number and every other number is an error.",
     ["inputs"], "all submessages, all template numbers and bit-map indicators",
     "Tests decode one file per template; unsupported codes are hardly exercised.",
     ["src/decoder.rs"],
     [("decoder construction", "src/decoder.rs: Grib2SubmessageDecoder::from"), ("dispatch", "src/decoder.rs: dispatch")],
     observe=["Grib2SubmessageDecoder::from", "dispatch"],
     technique="path-partitioned value flow (MIR) compared with a dispatch table")

prop("C15", "Unpacked values follow the packing formula",
     "For templates 5.0, 5.2, 5.3, 5.40 and 5.41 each decoded value is (R + X*2^E) * 10^-D of its packed integer X, missing values become NaN, and a bit width of zero yields the constant R * 10^-D for each encoded point.",
     ["inputs"], "all packed integers and scale factors",
     "Tests compare a few files with particular scale factors (D is often 0, E small).",
     ["src/decoder/simple.rs", "src/decoder/param.rs", "src/decoder/complex/missing.rs"],
     [("scaling iterator", "src/decoder/simple.rs: SimplePackingDecodeIterator")],
     observe=["values yielded by dispatch"],
     technique="float expression value flow (MIR) normalised and compared with the formula")

prop("C16", "The bit map selects present and missing points in order",
     "With a bit map, the n-th yielded value is NaN when bit n (most significant first) is 0 and otherwise the next decoded value, no decoded value being skipped or used twice; exactly as many points as the grid defines are yielded and the advertised remaining count is exact. "
     "A bit map with fewer bits than grid points is refused, and without a bit map all points are present.",
     ["inputs"], "all bit maps and grid sizes, including sizes that are not multiples of 8",
     "Tests use a 16-bit bit map; alignment and trailing padding are not exercised.",
     ["src/decoder/bitmap.rs", "src/decoder.rs"],
     [("bit-map iterator", "src/decoder/bitmap.rs: BitmapDecodeIterator")],
     observe=["Grib2DecodedValues"],
     technique="transition-function value flow and inductive invariant (MIR, bit domain)")

prop("C17", "Complex packing groups are located and expanded as specified",
     "In complex packing the group references, widths and lengths are taken in that order from octet-aligned runs of ngroup values each with the stated bit widths; group width and length are scaled by their reference and increment with the true last length replacing the last one; each group's values are read with its width and added to its reference and the overall minimum. "
     "With missing value management the all-ones (and, for two codes, all-ones minus one) pattern of the group's width, or of the reference width for zero-width groups, is missing and never otherwise.",
     ["inputs"], "all group parameters and payloads",
     "The tests decode two files.",
     ["src/decoder/complex.rs"],
     [("group layout", "src/decoder/complex.rs: decode_complex_packing"), ("group expansion", "ComplexPackingValueDecodeIterator")],
     observe=["values yielded by dispatch for templates 5.2 and 5.3"],
     technique="value flow over iterator construction and transition function (MIR)")

prop("C18", "Spatial differencing is inverted by the recurrence",
     "For template 5.3, non-missing values are restored with v[n] = d[n] + v[n-1] (order 1) or d[n] + 2 v[n-1] - v[n-2] (order 2), seeded with the first one or two values from the descriptors, missing values passing through without disturbing the recurrence; the descriptors are order+1 sign-magnitude integers of the stated octet count, the last being the overall minimum added to every group value.",
     ["inputs", "histories"], "all difference sequences with missing values anywhere",
     "Tests use short sequences and one missing pattern.",
     ["src/decoder/complex/diff.rs", "src/decoder/complex.rs"],
     [("recurrence state", "src/decoder/complex/diff.rs")],
     observe=["values yielded by dispatch for template 5.3"],
     technique="transition-function value flow (MIR) compared with the recurrence")

prop("C19", "Run-length packed levels expand to the specified runs",
     "For template 5.200 each code not above the maximum level starts a new run of one point of that level and each higher code extends the current run by (code - MV - 1) * L^k for its k-th consecutive extension digit with L = 2^nbit - 1 - MV; level 0 is missing (NaN) and level i is the i-th listed value times 10^-D. "
     "An extension before any level, a level beyond the list and a total differing from the encoded point count are errors.",
     ["inputs"], "all code sequences and parameters",
     "Tests use one file and two hand-written sequences.",
     ["src/decoder/run_length.rs"],
     [("run expansion", "src/decoder/run_length.rs: rleunpack, decode")],
     observe=["dispatch for template 5.200"],
     technique="loop-summary value flow (MIR)")

prop("C20", "The n-bit reader yields consecutive big-endian bit fields",
     "Reading fixed-width integers from a byte sequence yields the successive n-bit fields, most significant bit first, starting at the given bit offset, for every width from 1 to 32: the read position advances by exactly n bits per item and the iteration ends exactly when fewer than n bits remain. "
     "A width of zero yields zeros for the stated count.",
     ["inputs"], "all widths 1-32, bit offsets 0-7 and data lengths",
     "Tests use three widths on one byte sequence.",
     ["src/decoder/stream.rs"],
     [("bit reader", "src/decoder/stream.rs: NBitwiseIterator")],
     observe=["all packed data decoding"],
     technique="bit-provenance abstract interpretation (MIR), exhaustive over (offset, width) partitions")

prop("C21", "Decoding malformed data sections never panics",
     "Building a decoder and iterating its values returns values or an error for every content of Sections 3, 5, 6 and 7: no out-of-bounds access, arithmetic overflow, failed unwrap or explicit panic is reachable in the decoding of any template.",
     ["inputs"], "all payload contents and lengths",
     "Tests decode well-formed data only.",
     ["src/decoder.rs", "src/decoder"],
     [("size checks in decoders", "src/decoder/*.rs")],
     observe=["Grib2SubmessageDecoder::from", "dispatch", "iteration of values"],
     technique="panic-obligation analysis: interval/linear-inequality abstract interpretation over MIR")

prop("C22", "Metadata accessors never panic on readable files",
     "On any submessage of a successfully read file, every public accessor and description of the identification, grid, product and data representation definitions, of templates, parameters, forecast times and surfaces returns a value, none or an error: no accessor indexes beyond the payload, overflows or unwraps a missing value.",
     ["inputs"], "all payloads long enough for the section to be accepted, all template numbers",
     "Tests call accessors on well-formed files only.",
     ["src/datatypes/sections.rs", "src/datatypes/product_attributes.rs", "src/context.rs", "src/grid"],
     [("minimum payload sizes", "src/datatypes/sections.rs: from_payload"), ("bounds checks in accessors", "src/datatypes/sections.rs")],
     observe=["public accessors of SubMessage, Identification, GridDefinition, ProdDefinition, ReprDefinition"],
     technique="panic-obligation analysis: interval/linear-inequality abstract interpretation over MIR")

prop("C23", "JPEG 2000 decoding keeps the C library's memory discipline",
     "Every stream, codec and image handed out by the JPEG 2000 library is released exactly once on every path and not used afterwards; null results are never dereferenced. The read callback delivers the next bytes of the code stream, never more than the requested count or the bytes left, at least one while any are left, reports the end of the data as the library expects it (all bits one), and neither panics nor touches a null buffer; the code stream outlives the library's reads and its bookkeeping is freed exactly once. Pixels are read only after successful decoding, within the dimensions of the component they belong to, only for single-component images, and what is returned does not refer to released memory.",
     ["inputs", "fault_sequences"], "all code streams and all failures of library calls",
     "Tests decode one valid code stream.",
     ["src/decoder/jpeg2000.rs", "src/decoder/jpeg2000/ext.rs"],
     [("owning wrappers with Drop", "src/decoder/jpeg2000/ext.rs")],
     observe=["dispatch for template 5.40"],
     technique="ownership/typestate analysis of foreign calls and pointer provenance over MIR paths")

prop("C24", "Scanning mode and projection flags select the specified behaviour",
     "Scanning-mode bits 1 to 4 (most significant first) mean -i, +j, j-consecutive and alternating rows; projection-centre bit 1 means south pole and bit 2 bipolar. "
     "A grid whose scanning mode has any of bits 5-8 set is refused as not supported, whichever template it comes from, when indices or coordinates are requested; so are polar stereographic projection-centre flags with any of bits 3-8 set.",
     ["inputs"], "all 256 flag values, all templates",
     "Tests check four scanning modes on one template.",
     ["src/grid.rs", "src/grid/latlon.rs", "src/grid/gaussian.rs", "src/grid/lambert.rs", "src/grid/polar_stereographic.rs"],
     [("flag predicates", "src/grid.rs: ScanningMode, ProjectionCentreFlag"), ("rejection", "ij/latlons of each grid definition")],
     observe=["ScanningMode methods", "ij()", "latlons()"],
     technique="bit-provenance abstract interpretation (MIR) and guard-dominance on all paths to success")

prop("C25", "Grid indices enumerate the grid in scanning order",
     "The index iterator yields exactly ni*nj pairs, each (i, j) with i < ni and j < nj once, the fast index being i unless the scanning mode says j-consecutive, every second row or column running backwards exactly when alternating rows are flagged; its size hint is the exact number of pairs left at every moment and it never panics, also for empty grids.",
     ["inputs", "histories"], "all ni, nj and scanning modes",
     "Tests cover 2x3 grids.",
     ["src/grid.rs"],
     [("index iterator", "src/grid.rs: GridPointIndexIterator")],
     observe=["SubMessage::ij"],
     technique="transition-function value flow with an inductive invariant (MIR)")

prop("C26", "Point-count mismatches between grid and section are refused",
     "Grid indices and coordinates are handed out for a submessage only if the number of points of the grid definition equals the number of points the iterator will yield; otherwise an invalid-value error naming both numbers is returned, and errors of the grid definition are passed on unchanged.",
     ["inputs"], "all grid definitions",
     "Tests never build an inconsistent file.",
     ["src/context.rs"],
     [("count comparison", "src/context.rs: SubMessage::ij, latlons")],
     observe=["SubMessage::ij", "SubMessage::latlons"],
     technique="guard-dominance value flow over all paths to success (MIR)")

prop("C27", "Coordinates of regular grids are the specified ones",
     "For latitude/longitude grids the k-th latitude (longitude) is first + k*(last-first)/(n-1) microdegrees in degrees, longitudes running in the scanning direction through 360 degrees where necessary and normalised below 360; for Gaussian grids the latitudes are the computed ones, north to south unless scanned in +j, or an error if they cannot be computed. "
     "A latitude range contradicting the scanning direction is refused, and the pair for index (i, j) is (latitude j, longitude i).",
     ["inputs"], "all grid extents and scanning modes",
     "Tests check a few grids; direction and wrap-around combinations are sampled.",
     ["src/grid/helpers.rs", "src/grid/latlon.rs", "src/grid/gaussian.rs"],
     [("evenly spaced coordinates", "src/grid/helpers.rs"), ("direction consistency", "is_consistent_for_j")],
     observe=["GridDefinitionTemplateValues::latlons"],
     technique="value flow of float expressions, sequence summaries and guards (MIR)")

prop("C28", "Projected grids hand the right definition to the projection library",
     "For polar stereographic and Lambert grids the projection is defined by the earth radii, LaD, LoV and standard parallels of the section in degrees (the pole chosen by the projection-centre flag), the origin is the projected first grid point, grid steps are Dx and Dy in metres signed by the scanning directions, and each returned pair is (latitude, longitude) in degrees of the back-projected point of the same index. "
     "Errors of the projection library and unknown earth shapes become errors.",
     ["inputs"], "all projected grid definitions and scanning modes",
     "Tests check two grids at their corners.",
     ["src/grid/lambert.rs", "src/grid/polar_stereographic.rs", "src/grid/helpers.rs"],
     [("projection definition strings", "latlons of the two grids"), ("shared helper", "src/grid/helpers.rs")],
     observe=["GridDefinitionTemplateValues::latlons"],
     technique="value flow including format-string arguments and float expressions (MIR)")

prop("C29", "Earth radii follow Code Table 3.2",
     "The earth radii for shape codes 0 to 8 are the ones Code Table 3.2 lists (in metres; codes 1, 3 and 7 from the section's scaled values as scaled value * 10^-scale factor, the factor being sign-magnitude, and code 3 in kilometres), and codes 9 and above have none.",
     ["inputs"], "all 256 shape codes and all scale factors and values",
     "Tests check one code.",
     ["src/grid/earth.rs"],
     [("radii table", "src/grid/earth.rs: radii")],
     observe=["EarthShapeDefinition::radii"],
     technique="value flow per shape code (MIR) compared with the table")

prop("C30", "Each code table lookup uses the table of that number",
     "Looking up a code in the table for (section, number), and for discipline and category where applicable, returns the entry of exactly that table at exactly that code; pairs without a table and codes beyond it are reported as not implemented with the code. "
     "Template, parameter, surface and process descriptions use the table of their own element.",
     ["inputs"], "all disciplines, categories and codes",
     "Tests look up a few codes in a few tables.",
     ["src/codetables/old.rs", "src/context.rs", "src/datatypes/product_attributes.rs", "cli/src/commands"],
     [("table binding", "src/codetables/old.rs: ArrayLookup implementations")],
     observe=["CodeTable*::lookup", "describe()", "CLI listings"],
     technique="path-partitioned value flow to generated constants, name/number agreement, and lookup-argument provenance (MIR)")

prop("C31", "Parameter identification composes discipline, category and number",
     "A submessage's parameter carries its discipline, centre, table versions, category and number from their own fields, and matching against an external code compares discipline*65536 + category*256 + number with the code's value; the code generator assigns values by the same composition.",
     ["inputs"], "all disciplines, categories and numbers",
     "Tests check one parameter.",
     ["src/context.rs", "src/datatypes/product_attributes.rs", "src/codetables/external.rs", "codegen/src/param_codes.rs"],
     [("parameter()", "src/context.rs"), ("as_u32 / id", "src/datatypes/product_attributes.rs, codegen/src/param_codes.rs")],
     observe=["SubMessage::parameter", "Parameter::is_identical_to", "#[parameter_codes]"],
     technique="bit-provenance value flow, sibling agreement (MIR)")

prop("C32", "Surface values and forecast units are interpreted as coded",
     "A fixed surface's value is scaled_value * 10^-scale_factor, or NaN when the scaled value is missing (all ones); scale factor and value report as missing exactly for all ones. "
     "A forecast time unit code is named exactly when Code Table 4.4 defines it, with that table's meaning, and is otherwise kept as its number.",
     ["inputs"], "all codes and values",
     "Tests check four values.",
     ["src/datatypes/product_attributes.rs", "src/codetables/grib2.rs", "src/codetables/core.rs"],
     [("FixedSurface::value", "src/datatypes/product_attributes.rs"), ("Table4_4", "src/codetables/grib2.rs")],
     observe=["FixedSurface", "ForecastTime"],
     technique="value flow and enum discriminant table comparison (MIR)")

prop("C33", "Reference times are valid instants or errors",
     "The reference time is the UTC instant of the year, month, day, hour, minute and second of Section 1, in that order; combinations that are not a valid instant are reported as an error, never as a panic or a different instant.",
     ["inputs"], "all values of the seven octets",
     "Tests check one valid time and a few invalid ones.",
     ["src/datatypes/sections.rs"],
     [("create_date_time", "src/datatypes/sections.rs")],
     observe=["Identification::ref_time"],
     technique="value flow into the calendar constructor and guard on its result (MIR)")

prop("C34", "Submessage iteration honours the iterator contract",
     "Over any mix of next, nth and re-iteration, the submessage iterator yields submessages in file order without repeating or skipping any that was not asked to be skipped, its size hint is the exact number left, and no call panics merely because of the order of calls.",
     ["histories"], "all sequences of iterator calls",
     "Tests call next and nth(0) only.",
     ["src/context.rs"],
     [("position handling", "src/context.rs: SubmessageIterator")],
     observe=["Grib2::iter", "SubmessageIterator::nth"],
     technique="transition-function value flow with an inductive invariant (MIR)")

prop("C35", "Exported binary data are complete or an error is reported",
     "Exporting writes every decoded value, in order, as 4 bytes in the chosen byte order to the requested file, and any failure to create the file, to write or to complete writing buffered data makes the command fail.",
     ["inputs", "fault_sequences"], "all value sequences and I/O failures at any point",
     "Tests export to a working disk.",
     ["cli/src/commands/decode.rs"],
     [("write_output", "cli/src/commands/decode.rs")],
     observe=["gribber decode -b / -l"],
     technique="must-flush typestate over paths and byte-order value flow (MIR)")

prop("C36", "CLI failures are reported and never silently ignored",
     "Every error a CLI subcommand meets while opening, parsing, decoding or exporting reaches the process exit status as non-zero with a message, and invalid or out-of-range submessage indices are reported as errors rather than panics.",
     ["inputs", "fault_sequences"], "all error sources and index strings",
     "Tests check a few failing invocations.",
     ["cli/src"],
     [("error propagation to main", "cli/src/main.rs"), ("index parsing", "cli/src/cli.rs")],
     observe=["exit status and stderr of gribber"],
     technique="error-discard dataflow: every Result reaching the CLI is propagated or rendered (MIR)")

prop("C37", "Text export pairs each value with its own coordinates",
     "Decoded values are printed in grid order, each with the latitude and longitude of the same grid point; coordinates are replaced by NaN only when the grid is not supported for coordinate computation, and any other coordinate error fails the command.",
     ["inputs"], "all submessages",
     "Tests compare a few printed lines.",
     ["cli/src/commands/decode.rs"],
     [("zip of coordinates and values", "cli/src/commands/decode.rs: exec")],
     observe=["gribber decode"],
     technique="path-partitioned value flow (MIR)")

prop("C38", "Generated code tables hold each entry at its own code",
     "When code tables are generated from the definition files, the entry for code c is stored at position c (ranges fill all their codes, reserved and missing codes leave gaps as empty entries) or the whole table is left empty; no entry is ever stored at another code's position.",
     ["inputs"], "all definition tables",
     "Tests use three small tables.",
     ["gen/src/lib.rs"],
     [("CodeTable::to_vec", "gen/src/lib.rs")],
     observe=["generated CODE_TABLE_* constants"],
     technique="loop-summary value flow with an inductive invariant (MIR)")

prop("C39", "Generated tables are named after what they contain, and failures stop the build",
     "A table loaded from a definition file is stored and exported under the section, number, discipline and category it was declared for, which is the name the library looks it up by; a file that cannot be opened or a record that cannot be parsed is an error of loading, never a silently shortened table.",
     ["inputs", "fault_sequences"], "all definition files",
     "Tests load four fixture files.",
     ["gen/src/cct_csv.rs", "gen/src/grib2_codeflag_csv.rs", "build.rs", "src/codetables/old.rs"],
     [("CodeDB::load / export", "gen/src"), ("required tables", "build.rs")],
     observe=["OUT_DIR/cct.rs, OUT_DIR/grib2_codeflag.rs"],
     technique="value flow of file names and labels to table keys, and error-propagation paths (MIR)")

prop("C40", "Generated parameter codes map back to their variants",
     "The enum generated from a parameter table has exactly one variant per distinct name with the value composed from its discipline, category and number, lines repeating a name being merged into that variant without losing an entry; converting a value returns the variant with that value and every other value is an error. "
     "A line that cannot be parsed makes generation fail.",
     ["inputs"], "all parameter tables",
     "Tests generate from one table and check a few codes.",
     ["codegen/src/param_codes.rs", "codegen/src/lib.rs"],
     [("table parsing and mapping", "codegen/src/param_codes.rs")],
     observe=["#[parameter_codes]"],
     technique="value flow of table fields to generated code and error-propagation paths (MIR)")

prop("C41", "Command-line listings show every submessage's own properties",
     "`list` prints one line per submessage in file order, with its index, parameter, generating process, forecast time, both fixed surfaces with their units, the numbers of missing (never negative) and of all grid points and the grid type, a value that the submessage does not provide being left blank; with --dump, it prints each submessage's index and description. "
     "`inspect` prints for every section its position, end and number, for every submessage the indices of its sections and its templates, and every template used, each listing on its own exactly as together with others; `info` prints the contents of each message's own Sections 0 and 1 once. No combination of provided and missing values makes a listing fail.",
     ["inputs"], "all files, all combinations of options, values that submessages provide or not",
     "The CLI tests compare the output for a few files, none of them with more than one message and missing values.",
     ["cli/src/commands/list.rs", "cli/src/commands/inspect.rs", "cli/src/commands/info.rs"],
     [("line of a submessage", "cli/src/commands/list.rs"), ("sections, submessages and templates", "cli/src/commands/inspect.rs"), ("identification of a message", "cli/src/commands/info.rs")],
     observe=["stdout of `gribber list`, `gribber inspect` and `gribber info`"],
     technique="text produced on every path through the listing commands as symbolic fragments, compared with the accessors of the right submessage (abstract interpretation of MIR)")

EXTRA_NA = []
