def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                technique=technique, note=note, na=na)


PROPS = [
    P('C01', 'A failing reader is reported by the parsing call that hit it',
      'When the application\'s reader reports an error or missing data to the C++ parsing library (mkvparser), at any '
      'read, the parsing call in progress (loading headers, clusters, cues, tracks, the next block or entry) reports '
      'failure or underflow to its caller; it never reports success, and never carries on with a value that was not '
      'read.',
      ['fault_sequences', 'inputs'],
      'every read the parser issues, at every position of every file, failing with an error or with underflow',
      'the tests use readers that never fail, apart from truncated files at a few offsets',
      ['mkvparser/mkvparser.cc', 'mkvparser/mkvparser.h'],
      [('status checks after every read, and after every function that reads', 'mkvparser/mkvparser.cc'),
       ('ReadUInt, GetUIntLength, UnserializeUInt, ParseElementHeader', 'mkvparser/mkvparser.cc')],
      'interprocedural failure-propagation dataflow on LLVM IR (interval path exploration from each failing call)',
      'Every call of the reader and of every function that can reach it is an obligation; a path on which a failed '
      'call leads to a success return is a violation. Assumes callbacks do not modify parser objects, and lists the '
      'two places where failure is deliberately answered otherwise.'),
    P('C02', 'A failing writer is reported by the muxing call that hit it',
      'When the application\'s writer reports an error to the muxing library (mkvmuxer) for any write, seek or '
      'position query, the muxing call in progress (adding a frame, writing a header or element, closing a cluster, '
      'finalizing the segment) reports failure to its caller and never success.',
      ['fault_sequences', 'histories'],
      'every write the muxer issues, in every history of calls, failing',
      'the tests\' writers never fail',
      ['mkvmuxer/mkvmuxer.cc', 'mkvmuxer/mkvmuxerutil.cc', 'mkvmuxer/mkvwriter.cc'],
      [('return-value checks after every write', 'mkvmuxer/mkvmuxer.cc'),
       ('Write* helpers return false / 0 / negative status', 'mkvmuxer/mkvmuxerutil.cc')],
      'interprocedural failure-propagation dataflow on LLVM IR (interval path exploration from each failing call)',
      'Every call of the writer and of every muxer function that can reach it is an obligation; a path on which a '
      'failed call leads to a success return is a violation. Assumes callbacks do not modify muxer objects.'),
    P('C03', 'webm_parser never loses a non-ok status',
      'In the webm_parser library, any status other than completed that comes from the reader, the application\'s '
      'callback or a nested element parser is returned to the caller of the parser unchanged in kind: it is never '
      'turned into success, and parsing does not carry on past it, except for the documented skip paths.',
      ['fault_sequences', 'inputs', 'programs'],
      'every status a reader or a callback may return at any point, for every document and every split of the input',
      'tests inject failures at a few points of a few elements',
      ['webm_parser/src/', 'webm_parser/include/webm/'],
      [('Feed() loops testing completed_ok()', 'webm_parser/src/*.cc, *.h')],
      'interprocedural status-propagation dataflow on LLVM IR (interval path exploration from each non-ok call)',
      'Every call that yields a status is an obligation: assuming it is partial, or an error, every feasible path to '
      'a return must return a status that is not completed.'),
    P('C09', 'A failed allocation is an error, never a null dereference',
      'Where the parsing and muxing libraries (mkvparser, mkvmuxer and the HDR helper) allocate with the non-throwing '
      'form of new, a failed allocation makes the call in progress report failure to its caller: it is not reported '
      'as success, and the null result is never dereferenced.',
      ['fault_sequences', 'inputs'],
      'every non-throwing allocation, failing at any point of any parse or muxing history',
      'allocations do not fail in tests',
      ['mkvparser/mkvparser.cc', 'mkvmuxer/mkvmuxer.cc', 'mkvmuxer/mkvmuxerutil.cc', 'common/hdr_util.cc'],
      [('null checks after new (std::nothrow)', 'mkvparser/mkvparser.cc, mkvmuxer/mkvmuxer.cc')],
      'failure-propagation and null-dereference dataflow on LLVM IR from every non-throwing allocation',
      'Each allocation (and each call that hands one up) is assumed to yield null; every feasible path must avoid '
      'dereferencing it and must return a failure value.'),
    P('C10', 'What the library allocates is released exactly once and never used after',
      'Every object or buffer the parsing and muxing libraries (mkvparser, mkvmuxer, the HDR helper) allocate is, on '
      'every path including every error path, either released once, kept by exactly one owner that releases it when '
      'destroyed or when it replaces it, or handed to the caller; nothing is released twice, overwritten while still '
      'held, left dangling in an object, or used after its release.',
      ['inputs', 'histories', 'fault_sequences'],
      'every input, every sequence of setter, parse and finalize calls and every failing read, write or allocation',
      'tests free whole objects on the success path; leaks and double frees on error paths need a failure at one point',
      ['mkvparser/mkvparser.cc', 'mkvmuxer/mkvmuxer.cc', 'common/hdr_util.cc'],
      [('owned raw pointer members and their destructors', 'mkvparser/mkvparser.h, mkvmuxer/mkvmuxer.h'),
       ('error-path releases', 'mkvparser/mkvparser.cc, mkvmuxer/mkvmuxer.cc')],
      'ownership analysis on LLVM IR: path exploration from every allocation, typestate dataflow of owned members, '
      'release-on-every-path rule for array elements',
      'Ownership handed to standard containers and smart pointers is trusted to them. Members are followed per access '
      'path; aliases of a member made by the caller are not.'),
    P('C19', 'The libraries keep no mutable state outside the objects of the caller',
      'No library in the repository (mkvparser, mkvmuxer, webm_parser, webvtt, m2ts, common) keeps writable '
      'process-wide state: no writable variable of static or thread storage, no store through one, and no call of C '
      'library functions that keep hidden process-wide state, so parsers and muxers working on distinct objects, in '
      'any interleaving or from any threads, cannot influence one another.',
      ['schedules', 'histories'],
      'every interleaving of operations on distinct parser and muxer objects',
      'tests run one object at a time on one thread',
      ['mkvparser/', 'mkvmuxer/', 'webm_parser/', 'webvtt/', 'm2ts/', 'common/'],
      [('constants only at namespace and function scope', 'all library sources')],
      'effect analysis over all globals, stores and external calls of the linked LLVM IR',
      'Covers the POSIX configuration; the _WIN32 branches are not compiled here. Standard output and error streams '
      'are not counted as library state.'),
    P('C20', 'Parsing any input uses bounded call-stack depth',
      'However deeply an input nests elements and however many elements or entries it has, the parsing libraries '
      '(mkvparser, webm_parser, webvtt, m2ts) use call-stack depth bounded by a constant: no parsing function calls '
      'itself, directly or through others, once per nested or following element, and the elements that may nest in '
      'themselves (simple tags, chapter atoms) are limited to a fixed depth.',
      ['inputs'],
      'every input, of every nesting depth and length',
      'tests use shallow documents',
      ['mkvparser/mkvparser.cc', 'webm_parser/src/', 'webvtt/', 'm2ts/'],
      [('depth-limited recursive parser', 'webm_parser/src/recursive_parser.h'),
       ('iterative element loops', 'mkvparser/mkvparser.cc')],
      'call-graph cycle analysis with a decreasing-depth argument for the one recursive parser',
      'Calls through application-provided interfaces are cut; the child-parser tree is finite because children are '
      'created at construction, except by the depth-limited recursive parser.'),
    P('C04', 'Each element size the muxer writes is the number of bytes that follow',
      'For every master element, block and variable-length element the muxer writes, the size it declares equals the '
      'number of payload bytes it then writes, whatever optional fields are set and whatever their values, and each '
      'element size it announces or reserves in advance (cues, cue points, void space, seek entries, patched '
      'cluster and segment sizes) equals what is written in its place.',
      ['inputs', 'histories', 'configurations'],
      'every combination of set and unset optional fields, every value (so every coded length), every number of '
      'sub-elements, frames and cues',
      'a wrong size shows up only for the combinations of optional fields and value magnitudes where the two '
      'computations differ, and the tests sample a few',
      ['mkvmuxer/mkvmuxer.cc', 'mkvmuxer/mkvmuxerutil.cc'],
      [('size computations paired with Write methods', 'mkvmuxer/mkvmuxer.cc'),
       ('EbmlElementSize / GetUIntSize / GetCodedUIntSize and WriteEbmlElement', 'mkvmuxer/mkvmuxerutil.cc')],
      'symbolic byte accounting on LLVM IR: size expressions and emitted bytes are normalised to guarded linear sums '
      'over object fields and compared term by term',
      'Obligations: every written element header against the bytes emitted until the element ends, every '
      'position check, the encoding primitives and the length classes. Assumes objects do not change between size '
      'computation and write within one call, and coded track numbers take one byte.'),
    P('C05', 'webm_parser reads each element where and as what the WebM schema says',
      'webm_parser accepts under each parent element exactly the child elements the WebM schema places there, reads '
      'each with the type the schema gives it, delivers it in the member of the result that is named after it with '
      'the right cardinality and the schema\'s default when it is absent, and after a seek assumes for each element '
      'id the chain of parents the schema gives it.',
      ['inputs', 'programs'],
      'every element of the WebM schema, at every place in a document, present or absent, with or without a seek',
      'tests build a handful of documents per element and check some members and defaults',
      ['webm_parser/src/', 'webm_parser/include/webm/dom_types.h'],
      [('child registrations of each element parser', 'webm_parser/src/*_parser.h'),
       ('default member values', 'webm_parser/include/webm/dom_types.h'),
       ('ancestry lookup', 'webm_parser/src/ancestory.cc')],
      'extraction of registration, default and ancestry tables from LLVM IR, compared with a schema table',
      'The schema table in spec/schema.py is written from the WebM/Matroska specification; deciding is by comparison '
      'of extracted tables, for all elements. How the value bytes are decoded is not part of it.'),
    P('C06', 'Element ids are the registered ones, consistently in both id tables',
      'Every element id the repository names, for the streaming parser as well as for the muxer and the file parser, '
      'is the id registered for the element of that name, is a well-formed EBML id, is not shared by two elements, '
      'and the two id tables agree on every element both name.',
      ['inputs', 'configurations'],
      'every named element id',
      'tests use the same constants on both sides, so a wrong constant cancels out',
      ['webm_parser/include/webm/id.h', 'common/webmids.h'],
      [('enum class Id', 'webm_parser/include/webm/id.h'), ('enum MkvId', 'common/webmids.h')],
      'comparison of the enumerators in the compiled debug information with a registry table',
      'Ids are compared by element name with the table in spec/schema.py.'),
    P('C07', 'The muxer writes each property in the element that stands for it',
      'Each property set on a muxer object (segment info, track, video, audio, colour, mastering metadata, projection, '
      'encoding, cue point, chapter, tag, cluster, frame) is written as the value of the element that stands for it, '
      'with the type of that element, inside the element the schema nests it in, and is left out only when it is '
      'unset. A block consists of track number, two-byte relative time, flags and the frame bytes, and the compact '
      'block form is used only for frames without additional data, discard padding and duration.',
      ['inputs', 'configurations'],
      'every combination of set properties and every value of them, for every kind of muxer object',
      'tests compare a few files and set a few combinations of properties',
      ['mkvmuxer/mkvmuxer.cc', 'mkvmuxer/mkvmuxerutil.cc'],
      [('Write methods of the muxer classes', 'mkvmuxer/mkvmuxer.cc'),
       ('WriteFrame, WriteBlock, WriteSimpleBlock', 'mkvmuxer/mkvmuxerutil.cc')],
      'extraction of every element write (id, value term, guards, enclosing element) from LLVM IR by symbolic byte '
      'accounting, compared with a property/element table and the schema',
      'Covers which member is written where and when; the numeric encoding of a value and the arithmetic on times '
      'are not decided. One known finding: the type of ReferenceBlock.'),
    P('C16', 'Each value the file parser hands out comes from the element it is named after',
      'Every value the file parser hands out (segment info, track, video, audio, colour, mastering, projection, '
      'content encodings, chapters, tags, cues, seek entries, EBML header) is the payload of the element it is named '
      'after, read as the type of that element, with the schema default when the element is absent, and of no other '
      'element.',
      ['inputs', 'programs'],
      'every accessor and public member, for every document with any subset of the elements in any order',
      'tests check a handful of accessors on a few files, where several elements have equal or default values',
      ['mkvparser/mkvparser.cc', 'mkvparser/mkvparser.h'],
      [('element-id dispatch in the Parse functions', 'mkvparser/mkvparser.cc'),
       ('accessors', 'mkvparser/mkvparser.h')],
      'element-id dataflow and backward value-provenance analysis on LLVM IR',
      'For each accessor or member the set of (read function, element id) its value can come from is computed '
      'over all paths and compared with a table. How payload bytes are decoded is not part of it.'),
    P('C14', 'Memory is read and written only inside the buffer it belongs to',
      'For every input, complete or truncated or malformed, the muxer, the parsers and the transport stream tools read '
      'and write only inside the array, string, vector or allocated buffer at hand: every computed position and every '
      'run of bytes copied, read or compared lies within it. Wherever an object keeps a buffer together with its length '
      '(frame payload and additional data, codec private data, key identifiers, signatures, compression settings, '
      'projection data, video frame buffers), the length never exceeds what the buffer holds, also after failed, '
      'repeated or empty assignments and copies. Frames with a track number outside the supported range are rejected '
      'before it selects a per-track entry.',
      ['inputs', 'histories'],
      'every input file, frame, string and length, and every sequence of assignments and copies of buffers',
      'tests use well-formed files and buffers of matching size and run without memory checking, so an access just outside a buffer passes unnoticed',
      ['mkvmuxer/mkvmuxer.cc', 'mkvmuxer/mkvmuxerutil.cc', 'mkvparser/mkvparser.cc', 'common/video_frame.cc', 'm2ts/vpxpes_parser.cc', 'webm_parser/src'],
      [('Frame, Track, ContentEncoding, Projection', 'mkvmuxer/mkvmuxer.cc'),
       ('VpxPesParser, VpxPes2Ts, Webm2Pes', 'm2ts'),
       ('UnserializeString, UnserializeFloat, ReadVInt', 'mkvparser/mkvparser.cc'),
       ('ByteParser::Feed', 'webm_parser/src/byte_parser.h'),
       ('Vp9HeaderParser', 'common/vp9_header_parser.cc')],
      'demand-driven difference-bound analysis on LLVM SSA with extents of objects, container sizes, pointer/length pairs and buffer contracts of functions',
      'Not decided, and listed as such in the evidence: elements found by binary search, the transport stream padding '
      'loops, the scanning of text lines up to their terminating zero, and buffers whose size only the caller knows.'),
    P('C15', 'Copies and convenience calls carry every field',
      'Wherever the library copies a frame, track description, colour, mastering metadata, chromaticity, projection, '
      'chapter or tag object, and wherever a convenience call builds a frame from its arguments, each field of the '
      'result gets the value of the same field (or argument) of the source: none is dropped, swapped, truncated or '
      'left at an old value. An optional part may be skipped only when the source marks it as absent.',
      ['inputs', 'histories'],
      'every combination of field values of the source and every earlier state of the destination, on every path that '
      'reports success',
      'tests copy a few objects in which most fields have default values',
      ['mkvmuxer/mkvmuxer.cc', 'mkvparser/mkvparser.cc', 'common/hdr_util.cc'],
      [('Frame::CopyFrom, SetColour, SetProjection, SetMasteringMetadata, ShallowCopy', 'mkvmuxer/mkvmuxer.cc'),
       ('AddFrame, AddFrameWithAdditional, AddFrameWithDiscardPadding, AddMetadata', 'mkvmuxer/mkvmuxer.cc'),
       ('Track::Info::Copy', 'mkvparser/mkvparser.cc'), ('CopyColour, CopyMasteringMetadata', 'common/hdr_util.cc')],
      'per-field typestate over all paths of LLVM IR (stale, reset, absent in the source, copied, other) with value '
      'provenance and argument-to-field summaries of setters',
      'The pairing of fields is by name; functions are the 30 copy, setter and forwarding functions of the table in '
      'props/c15.py.'),
    P('C11', 'Array indexes stay inside the elements in use, through every growth',
      'Every index that a caller passes to an accessor of the muxer or the parser (tracks, content encodings, cues, '
      'chapters, editions, atoms, displays, tags, seek entries, cue track positions) is checked against the number '
      'of elements in use: outside it, also below zero, the accessor reports nothing instead of reading elsewhere. '
      'Adding elements, however many and in whatever order, never writes past the allocated array, and each array '
      'is grown, with its recorded size, before an element that would not fit is added.',
      ['inputs', 'histories'],
      'every index value and every sequence of additions',
      'tests pass valid indexes and add a few elements, so neither the first index past the end nor the later growth steps are reached',
      ['mkvmuxer/mkvmuxer.cc', 'mkvparser/mkvparser.cc'],
      [('Get...ByIndex, GetEdition, GetAtom, GetDisplay, GetTag, GetEntry', 'mkvparser/mkvparser.cc, mkvmuxer/mkvmuxer.cc'),
       ('Expand...Array, AddCue, MakeNewCluster, QueueFrame, CreateBlock', 'mkvparser/mkvparser.cc, mkvmuxer/mkvmuxer.cc')],
      'demand-driven difference-bound (ABCD) analysis on LLVM SSA with versioned fields and class invariants',
      'Not decided, and listed as such in the evidence: indexes found by binary search in the cluster and cue lists, '
      'indexes kept inside block entries and clusters, and Block::GetFrame, whose index is a precondition.'),
    P('C17', 'webm_parser reports as consumed exactly the bytes it consumed',
      'Every parsing step of webm_parser reports to its caller exactly the number of bytes it took from the reader '
      '(whether it completes, stops midway or fails), keeps its running totals of bytes read and bytes remaining in '
      'step with them, gives each element\'s header its true size and each frame its true position in the file; a '
      'reader moves its position by exactly the count it reports.',
      ['inputs', 'schedules', 'programs'],
      'every split of the input into reads, every status of reader and callback, every document',
      'tests feed everything at once or byte by byte; a miscount shows only for particular splits or statuses',
      ['webm_parser/src/'],
      [('*num_bytes_read accumulation in each Feed()', 'webm_parser/src/*.cc, *.h'),
       ('total_bytes_read_, header_bytes_read_, num_bytes_remaining_', 'webm_parser/src/'),
       ('reader positions', 'webm_parser/src/file_reader.cc, buffer_reader.cc, istream_reader.cc')],
      'linear accounting dataflow on LLVM IR: counters against the sum of counts reported by the calls on each path',
      'All paths of every function that is handed a reader and a count. Assumes a parser is not its own child, and that '
      'one-byte reads deliver one byte or nothing.'),
    P('C21', 'Every element is parsed from a fresh state in webm_parser',
      'When webm_parser starts an element, or resumes after a seek, nothing it remembers from elements parsed earlier '
      '(values, byte counts, progress, the decision to skip, a header read ahead) influences the result: everything '
      'parsing can change is set again whenever an element starts. A parser that delegates an element to another one '
      'passes on a header read too far and the answer whether the element was skipped.',
      ['inputs', 'histories'],
      'every sequence of elements and seeks handled by one parser object',
      'stale state shows only for particular sequences of elements on a reused parser object',
      ['webm_parser/src/'],
      [('Init() and InitAfterSeek() of every element parser', 'webm_parser/src/'),
       ('GetCachedMetadata(), WasSkipped()', 'webm_parser/src/'),
       ('DidSeek()', 'webm_parser/src/webm_parser.cc')],
      'must-write dataflow on LLVM IR: members changed by parsing against members written on every starting path',
      'All parser classes (template instances included). Which value is written is not judged. Two members of the float '
      'parser count as one group and the header of a child is taken as computed before use (listed as assumptions).'),
    P('C12', 'The muxer refuses requests it could not write correctly',
      'A call that would make the muxer write something a reader cannot use reports failure instead of success: empty or '
      'inconsistent frames, frames of unknown tracks or with a time before the last one, block times outside the range of the '
      'format, blocks in a finished cluster, track numbers outside 1 to 126 or used twice, tracks added after the header was '
      'written, cue points without track or cluster, cues for unknown tracks, unsupported stereo and alpha modes, invalid '
      'colour, luminance and chromaticity values, missing buffers and writers, a time scale of zero, and sizes no number can be '
      'coded in. Track numbers it chooses itself are free and in range.',
      ['inputs', 'histories'],
      'every argument and every order of calls',
      'tests use valid requests; each refusal has its own wrong requests, many of them only after particular earlier calls',
      ['mkvmuxer/mkvmuxer.cc', 'mkvmuxer/mkvmuxerutil.cc', 'mkvmuxer/mkvmuxer.h'],
      [('Frame::IsValid, AddGenericFrame, QueueOrWriteFrame, DoWriteFrame', 'mkvmuxer/mkvmuxer.cc'),
       ('Tracks::AddTrack, Segment::CuesTrack, SetChunking, AddCuePoint', 'mkvmuxer/mkvmuxer.cc'),
       ('Colour::Valid, MasteringMetadata::Valid, PrimaryChromaticity::Valid', 'mkvmuxer/mkvmuxer.cc'),
       ('WriteFrame, WriteUIntSize, SerializeInt, Is...ValueValid', 'mkvmuxer/mkvmuxerutil.cc')],
      'guard analysis: path-sensitive interval and relation facts on LLVM SSA before success and before the guarded calls',
      'The requests judged are those of the table in props/c12.py. A test of a member is taken to speak about the value '
      'the member has later in the same call.'),
    P('C13', 'The file parser refuses values outside the limits of the format',
      'The file parser accepts an element only with a value inside the limits the format sets for it: positive dimensions, '
      'channels, sampling rates, frame rates, scales and track numbers, track numbers up to 127 and no two tracks with the same '
      'number, times, delays and positions that are not negative, supported encryption and cipher modes, colour values inside '
      'their range, finite numbers, versions and id lengths it supports, and a duration that fits the type reporting it. '
      'Anything else, including numbers that do not fit the type, missing mandatory values and empty frames, makes the '
      'operation that loads the element fail, and payloads of unsuitable length are refused before they are read.',
      ['inputs'],
      'every value and every payload length of every element the parser decodes',
      'tests parse well-formed files and a few broken ones; each limit has its own wrong values, many of which (eight byte numbers, not-a-number) no test contains',
      ['mkvparser/mkvparser.cc'],
      [('EBMLHeader::Parse, SegmentInfo::Parse, Tracks::ParseTrackEntry, VideoTrack::Parse, AudioTrack::Parse', 'mkvparser/mkvparser.cc'),
       ('Colour::Parse, MasteringMetadata::Parse, Projection::Parse, ContentEncoding', 'mkvparser/mkvparser.cc'),
       ('CuePoint::Load, SeekHead::ParseEntry, Block::Parse', 'mkvparser/mkvparser.cc'),
       ('UnserializeUInt, UnserializeInt, UnserializeFloat, ReadID', 'mkvparser/mkvparser.cc')],
      'guard analysis: path-sensitive interval facts on LLVM SSA from each decoded value to success, with a table of limits per element',
      'The limits are the ones of the table in props/c13.py: those the parser enforced when this was written, and those '
      'its accessors promise. Elements the parser skips are not judged.'),
    # ---- not applicable to static analysis
    P('N01', 'What the muxer writes, the parsers read back with equal values',
      'For every sequence of muxer calls that succeeds, both parsers read from the finished file the same tracks, '
      'settings, frames (bytes, order, key flags, times), cues, chapters and tags that were given to the muxer.',
      ['inputs', 'histories', 'configurations'],
      'every muxing history and every value',
      'tests compare a handful of reference files',
      ['mkvmuxer/mkvmuxer.cc', 'mkvparser/mkvparser.cc', 'webm_parser/src/'],
      [('writers and readers of the same elements', 'mkvmuxer/, mkvparser/, webm_parser/')],
      na='equality of run-time values across two programs and a file; the structural parts are claimed separately (sizes '
         'C04, placement C07, provenance C16, schema C05), the rest needs execution'),
    P('N02', 'Numbers are encoded and decoded exactly',
      'Every unsigned and signed integer, float and variable-length integer that the muxer can encode is decoded by '
      'both parsers to the same number, for every value and every coded length.',
      ['inputs'], 'every number and every coded length', 'tests sample a few numbers per length',
      ['mkvmuxer/mkvmuxerutil.cc', 'mkvparser/mkvparser.cc', 'webm_parser/src/var_int_parser.cc'],
      [('SerializeInt, WriteUInt, ReadUInt, UnserializeInt, VarIntParser', 'mkvmuxer/, mkvparser/, webm_parser/')],
      na='bit-level arithmetic identities over loops: deciding them needs symbolic execution or a solver, a different family'),
    P('N03', 'Seeking by time finds the last entry not after the requested time',
      'For every set of clusters and cues and every requested time, time-based lookups (cluster, cue point, track '
      'entry) return the last suitable entry whose time does not exceed the request.',
      ['inputs', 'histories'], 'every file and every requested time', 'tests look up a few times in small files',
      ['mkvparser/mkvparser.cc'], [('binary searches over loaded clusters and cue points', 'mkvparser/mkvparser.cc')],
      na='functional correctness of binary searches over run-time orderings; static bounds only show the indexes stay '
         'inside the arrays (claimed in C11)'),
    P('N04', 'Frames come out in time order and times convert without loss',
      'Blocks are written in non-decreasing time order within the limits of the relative time field, and conversions '
      'between nanoseconds and time-code units neither overflow nor change the time by more than one unit.',
      ['inputs', 'histories'], 'every order of frames and every time', 'tests use short, regular frame sequences',
      ['mkvmuxer/mkvmuxer.cc'], [('queued frames and relative time codes', 'mkvmuxer/mkvmuxer.cc')],
      na='depends on the run-time times of frames of several tracks; the range guard on the relative time is a claim of '
         'its own, the ordering is not decidable from the source without relating run-time quantities'),
    P('N05', 'The VP9 level estimate matches the definition of the levels',
      'For every sequence of frames the level reported is the lowest VP9 level whose limits on picture size, sample '
      'rate, bit rate, tiles and reference spacing the stream respects.',
      ['inputs', 'histories'], 'every VP9 stream', 'tests use a few streams',
      ['common/vp9_level_stats.cc'], [('running maxima and the level table', 'common/vp9_level_stats.cc')],
      na='numeric statistics over run-time frame sequences with floating-point tolerance'),
]
