prop("C01", "Record and file headers keep every field and are judged exactly",
  "A record header written for any stream, type, time, format version, sizes and compression stores each value at its fixed byte position and reads back exactly those values. The reader accepts every header a writer can produce and rejects any header with an impossible size, record type or compression. A file header is recognised exactly when its magic numbers, header sizes and version are valid, and the end of the user records derived from it never lies beyond the file nor beyond a trailing index.",
  ["inputs"], "all field values of record, index, description and file headers, including every corrupted 32-byte and 80-byte header",
  "Tests build a handful of files with small records; header fields range over 2^256 values and the acceptance test has boundary cases (payloads near 4 GB, legacy type ids) no test reaches.",
  ["vrs/FileFormat.h", "vrs/FileFormat.cpp", "vrs/Record.cpp"],
  [("RecordHeader", "vrs/FileFormat.cpp"), ("FileHeader", "vrs/FileFormat.cpp"), ("isSanityCheckOk", "vrs/FileFormat.cpp")],
  note="All byte contents of both headers; no bound.")
prop("C08", "Records have one total order, and merging batches keeps it",
  "Records are ordered by timestamp, then by stream (type, then instance), then by position in the file or creation order; the order is total and antisymmetric for all non-NaN times. When batches of collected records are merged into the pending write queue, every record is kept exactly once with its stream, the queue stays sorted, and the reported byte count is the sum of the payload sizes.",
  ["inputs", "histories"], "all pairs of records; all merges of up to four records over two batches",
  "Tests compare a few fixed records; ties on time, stream and position, and interleavings of late batches, are not enumerated by them.",
  ["vrs/IndexRecord.h", "vrs/StreamId.h", "vrs/RecordFileWriter.h", "vrs/RecordFileWriter.cpp"],
  [("RecordInfo::operator<", "vrs/IndexRecord.h"), ("SortRecord::operator<", "vrs/RecordFileWriter.h"), ("addRecordBatchesToSortedRecords", "vrs/RecordFileWriter.cpp")],
  note="The orders are proved for all inputs; the merge is checked bounded (4 records, 2 batches) and not counted as proved.")
prop("C10", "A written record is its header followed by its exact payload",
  "Writing a record of any size appends a 32-byte header carrying its time, stream, type, format version, previous size, total size and compression, followed by exactly the payload bytes it was given, raw or compressed, and nothing else. A compressed payload is used only when the codec succeeded and made the payload smaller, and then the header names the codec and the original size. Write errors of the file are reported, and a recycled record object carries nothing over from its previous use.",
  ["inputs", "fault_sequences"], "all payload sizes up to 4 GB and contents, all presets, all codec outcomes (any size or failure at any step), all file write failures",
  "Tests write small payloads with well-behaved codecs; codec failures, incompressible data at every size and write failures are not exercised.",
  ["vrs/Record.cpp", "vrs/Compressor.cpp", "vrs/DataSource.cpp", "vrs/FileFormat.cpp"],
  [("Record::writeRecord", "vrs/Record.cpp"), ("Record::set", "vrs/Record.cpp"), ("Compressor::compress", "vrs/Compressor.cpp")],
  note="All sizes and contents (one arbitrary byte position is watched). lz4 and zstd themselves are assumed contracts.", trusted=["lz4 and zstd entry points: contract stubs (harness/codec.h): arbitrary result sizes within capacity, arbitrary failures"])
prop("C17", "Image and audio geometry follows the pixel and sample formats exactly",
  "For every pixel format, dimensions and strides, the row size, plane count, per-plane row size and height, bytes per pixel, channel count and raw image size are exactly those the format defines, the raw size being the sum of its planes without wrap-around, and unknown only when the format has no fixed layout or a dimension is zero. For every audio format the sample size, frame size and block size follow from the sample format, channel count and sample count. Two image or audio descriptions are equal exactly when all their parameters are.",
  ["inputs"], "all pixel formats, 32-bit dimensions and strides; all audio sample formats, channel counts, strides and sample counts",
  "Tests use a few small sizes for a few formats; odd dimensions, custom strides per plane and sizes above 4 GB are not sampled.",
  ["vrs/RecordFormat.h", "vrs/RecordFormat.cpp"],
  [("ImageContentBlockSpec geometry", "vrs/RecordFormat.cpp"), ("AudioContentBlockSpec geometry", "vrs/RecordFormat.cpp")],
  note="All inputs; rows are assumed to fit in 32 bits and audio frames in 255 bytes (the widths the format stores them in).")
prop("C18", "Content block sizes add up to the record size",
  "The size of a record format, or of its remaining blocks from any position, is the sum of its blocks' sizes when every one is known and unknown otherwise. A block with a known size has that size if it fits in what remains of the record; the single block of unknown size takes exactly what the following blocks leave, and when that cannot be determined or the record is too small the size is unknown. Empty trailing blocks are not counted, and every index past the end is an empty block.",
  ["inputs"], "all record formats with any number of content blocks (up to 2^20) of any known or unknown sizes, and all remaining sizes",
  "Tests check a few two- and three-block formats; overlong known sizes and several unknown blocks in every position are not sampled.",
  ["vrs/RecordFormat.h", "vrs/RecordFormat.cpp"],
  [("RecordFormat::getBlockSize", "vrs/RecordFormat.cpp"), ("RecordFormat::getRemainingBlocksSize", "vrs/RecordFormat.cpp"), ("ContentBlock::getBlockSize", "vrs/RecordFormat.cpp")],
  note="Any number of blocks (inductive invariants). Counting blocks of a type is checked bounded (5 blocks).")
prop("C02", "A file in several chunks reads, seeks and updates like one contiguous file",
  "Reading, seeking, skipping, overwriting and querying a multi-chunk file gives the results of one file that is the concatenation of its chunks, wherever the boundaries fall, empty chunks included: every byte read or overwritten is at its own position, the size is the sum, and only positions past the end are refused. Writing, truncating and adding chunks keep the chunks contiguous. A system error or short transfer is always reported, and each chunk's file is opened in the right mode and closed once.",
  ["inputs", "fault_sequences"], "any number of chunks of any sizes, any current position and transfer size, any system call failing",
  "Tests use a few fixed chunk sizes; transfers that end on, start at or span several boundaries, empty chunks and failures between chunks are not sampled.",
  ["vrs/DiskFile.h", "vrs/DiskFile.cpp", "vrs/DiskFileChunk.hpp"],
  [("DiskFileT::read", "vrs/DiskFile.cpp"), ("DiskFileT::overwrite", "vrs/DiskFile.cpp"), ("DiskFileT::setPos", "vrs/DiskFile.cpp"), ("DiskFileChunk", "vrs/DiskFileChunk.hpp")],
  note="Chunk count up to 2^20, total size below 2^60. Truncate, addChunk and open are checked bounded (at most 4 chunks) and not counted as proved.",
  trusted=["C library stdio and vrs::os file calls: contract stubs that may fail at any call (harness/C02_chunk.cpp)"])
prop("C04", "The index lists every record where it is, and never overwrites records",
  "Reading an index gives one entry per record, with its time, stream and type, located at the sum of the sizes of the records before it; records that do not fit in the file are dropped and counted, invalid entries are rejected, and an index out of order is sorted. An index that was just written, classic or split, compressed or not, reads back as exactly the records and streams it was given. An index written in the place preallocated for it never touches the user records that follow, whatever was recorded since.",
  ["inputs", "histories"], "any number of index entries of any contents and any file size; bounded: up to three records written in any split of batches, any codec output size, streams added late",
  "Tests use well-formed indexes of a few fixed files; records past the end of the file, out of order entries and preallocations that are too small in every way are not sampled.",
  ["vrs/IndexRecord.h", "vrs/IndexRecord.cpp"],
  [("processClassicIndexRecords", "vrs/IndexRecord.cpp"), ("processSplitIndexRecords", "vrs/IndexRecord.cpp"), ("writeClassicIndexRecord", "vrs/IndexRecord.cpp"), ("completeSplitIndexRecord", "vrs/IndexRecord.cpp")],
  note="Turning entries into locations is proved for any number of entries (up to 2^28); writing and reading back is checked bounded (at most 3 records, 7 streams) and not counted as proved.",
  trusted=["frame compression: contract stub (harness/storecodec.h) that stores the bytes in any of three sizes", "std::set<StreamId> insertion in the proved entries"])
prop("C05", "A lost index is rebuilt with every complete record and nothing else",
  "When a file has no usable index, rebuilding it finds every complete record, in one file or in the chunks that follow a split head, with its exact position, time, stream and type, whether the file stops after a record, inside a header or inside a payload. When a header cannot be right the damage is reported, the records before it are kept, except at most the last one, and nothing after it is listed. When the index is written back, the file read again shows exactly the index that was found, and nothing remains after the index record.",
  ["inputs", "crash_points"], "bounded: up to three records of any times, streams and types, every kind of truncation and header damage",
  "Tests truncate a couple of sample files; damaged headers, and writing the repaired index after the last record was given up, are not sampled.",
  ["vrs/IndexRecord.cpp"],
  [("Reader::rebuildIndex", "vrs/IndexRecord.cpp")], level="other",
  note="Bounded check of the real rebuildIndex and of reading its result: at most 3 user records of 32 or 43 bytes, symbolic fields.",
  trusted=["frame compression: contract stub (harness/storecodec.h)"])
prop("C13", "Compressed frames hold exactly the data given, and failures lose no file",
  "Compressing a frame gives the codec exactly the data given, in order, once, with the declared frame size, and writes exactly what the codec produced; decoding gives the codec the bytes of the file in order, each once, never reads past the limit, keeps the bytes that belong to the next frame, and writes only within the destination. Every codec or file failure is reported. A file replaced atomically, or by a compressed copy, is replaced only when everything was written, and otherwise keeps its previous content.",
  ["inputs", "fault_sequences"], "all sizes and contents (one arbitrary byte is watched), all codec behaviours within its interface (any amount consumed and produced at each call), every file or codec call failing",
  "Tests compress a few buffers with well-behaved codecs and files; partial consumption at arbitrary boundaries, failures at each call and reads at the limit are not sampled.",
  ["vrs/Compressor.cpp", "vrs/Decompressor.cpp", "vrs/DiskFile.cpp"],
  [("Compressor::addFrameData", "vrs/Compressor.cpp"), ("Decompressor::readFrame", "vrs/Decompressor.cpp"), ("Decompressor::allocateCompressedDataBuffer", "vrs/Decompressor.cpp"), ("AtomicDiskFile, writeZstdFile", "vrs/DiskFile.cpp")],
  note="Frames of any size; readFrame is proved with a buffer that needs no growing (growing is proved separately on allocateCompressedDataBuffer). The two file replacement entries are checked bounded and not counted as proved.",
  trusted=["lz4 and zstd entry points: contract stubs (harness/codec.h, harness/decomp.h) that consume, produce and fail arbitrarily"])
prop("C07", "Lookups by time return the first or the nearest matching record",
  "Looking up a record by time returns the first record, in file order, whose time is not before the one asked for and which is of the type, and of the stream, asked for; it returns none exactly when there is no such record. Looking up the nearest record returns a record of the type asked for, no farther than the tolerance, such that no other matching record is nearer, and none exactly when no matching record is within the tolerance. Only records of the file are ever returned, and the index is never read outside its bounds.",
  ["inputs", "histories"], "indexes of any number of records sorted by time with any repeated times, all types and streams, all finite times asked for",
  "Tests look up a few times in a small sorted file; repeated times, times between, before and after all records, and types that match nothing within reach are not enumerated.",
  ["vrs/RecordFileReader.cpp", "vrs/RecordFileReader.h"],
  [("RecordFileReader::getRecordByTime", "vrs/RecordFileReader.cpp"), ("RecordFileReader::getNearestRecordByTime", "vrs/RecordFileReader.cpp"), ("getNearestRecordByTime (stream index)", "vrs/RecordFileReader.cpp")],
  note="Lookups by time, type and stream: any number of records, proved by induction (the binary search is proved in h_by_time and h_lower_bound, then replaced by its contract). The nearest record is checked bounded (up to 3 records, any times) and not counted as proved.",
  trusted=["times in the index are non-negative and sorted (C08 gives the order)"])
prop("C03", "A record is delivered only if it is the record the index names",
  "Reading a record positions the file on it and gives the player the record's own time, stream, type, format version and exact data size, at the start of its data, only when the header read makes sense and has the time, type and stream of the index entry; otherwise nothing is delivered and, except when the file ends right there, an error is returned. The data given to the player are exactly the bytes asked for, never more than the record has, and every failure to position, read or decompress is returned. A record is reported available only when its header was read and makes sense and its data are there.",
  ["inputs", "fault_sequences"], "all index entries, all 32-byte headers found in the file, all amounts of data asked for by the player, every file call failing",
  "Tests read undamaged files; headers which disagree with the index, failures at each step and partial requests are not enumerated.",
  ["vrs/RecordFileReader.cpp", "vrs/StreamPlayer.h", "vrs/FileFormat.cpp"],
  [("RecordFileReader::readRecord", "vrs/RecordFileReader.cpp"), ("RecordFileReader::isRecordAvailableOrPrefetch", "vrs/RecordFileReader.cpp"), ("StreamPlayer::processRecordHeader", "vrs/StreamPlayer.h")],
  note="All header contents and file sizes; no bound. Decompression is represented by its contract (C12, C13); prefetching is off.")
prop("C06", "Lookups by stream, type and number return exactly the record asked for",
  "Asking for the nth record of a stream, or the nth record of a type in a stream, returns exactly that record whatever was asked before, and none exactly when there are not that many; the last record of a type is the last one, a record's position in the file and in its stream is its actual position, and the first and last data times are those of the first and last data records. Streams found by type and number, flavor, tag or name are exactly the streams of the file with these, and counts and record sizes are exact however records are sorted.",
  ["inputs", "histories"], "streams of any number of records of any types, all numbers asked, any earlier request remembered; bounded: all files of up to three records of three streams, all presence, flavor and tag combinations",
  "Tests ask for records of small regular files mostly in increasing order; requests going backwards, remembered answers and files out of order are not enumerated.",
  ["vrs/RecordFileReader.cpp", "vrs/RecordFileReader.h"],
  [("RecordFileReader::getRecord", "vrs/RecordFileReader.cpp"), ("RecordFileReader::getIndex", "vrs/RecordFileReader.cpp"), ("RecordFileReader::buildRecordBoundaries", "vrs/RecordFileReader.cpp")],
  note="Lookups by number are proved for any number of records, given a correct stream index; building the stream indexes, finding streams and record sizes are checked bounded (3 records, 3 streams) and not counted as proved.")
prop("C11", "A data source holds exactly the bytes it was given, in order",
  "A data source made of up to two data layouts and up to three memory chunks announces the exact total size and copies the fixed then variable data of each layout, and then each chunk, in order, nothing else, and never past the announced size. The variable data of a layout is collected before its fixed data is copied, so that the index copied describes it. A non contiguous chunk copies each of its blocks from its own place.",
  ["inputs"], "all layout and chunk sizes and contents, every constructor",
  "Tests write a few combinations of small chunks; empty parts, and the order of collection and copy, are not sampled for each constructor.",
  ["vrs/DataSource.cpp", "vrs/DataSource.h"],
  [("DataSource::copyTo", "vrs/DataSource.cpp"), ("DataLayoutChunk::fillAndAdvanceBuffer", "vrs/DataSource.cpp"), ("NonContiguousChunk::fillAndAdvanceBuffer", "vrs/DataSource.cpp")],
  note="All sizes; data layouts by contract (C14). Non contiguous chunks: any number of blocks, of one fixed block size and stride.")
prop("C12", "Record data reads are exact, bounded by the record, and accounted for",
  "Reading record data fills one or two destinations with exactly the next bytes of the record, in order, or reports an error; asking for more than the record has left reads nothing and fails. Reading a compressed record never reads past the record's data on disk, never drops bytes which were read and not decoded, and never writes past the destination. The unread bytes reported, on disk and to deliver, always match what was read and delivered, after failures too.",
  ["inputs", "fault_sequences"], "all record and destination sizes, all splits between disk reads and decoding, all file and codec failures",
  "Tests read small records in one go; partial decoding, reads resumed in the middle of a record and failures at each step are not enumerated.",
  ["vrs/RecordReaders.cpp", "vrs/RecordReaders.h", "vrs/DataReference.cpp"],
  [("CompressedRecordReader::read", "vrs/RecordReaders.cpp"), ("UncompressedRecordReader::read", "vrs/RecordReaders.cpp"), ("DataReference::readFrom", "vrs/DataReference.cpp")],
  note="Records of any size, reads started anywhere in the record; the decompressor by its contract (C13).")
prop("C14", "Data layout fields never overlap and read back exactly what was written",
  "Every fixed size field of a data layout has its own place in the fixed data, before the index of the variable size fields which ends it; collecting the variable size fields puts each one after the previous ones in exactly the room announced, and indexes it there. The values set or staged in the fields are what these fields read, in the same layout or in another one given the same bytes, whatever order they are set in and whatever the other fields hold. A field the data does not hold reads as its default value and can not be set.",
  ["inputs", "histories"], "any number of fields of any sizes; all values, texts and element counts of a layout with each kind of field",
  "Tests set a few values in a few layouts; overlaps which show only with given sizes, and lengths above a few bytes, are not sampled.",
  ["vrs/DataLayout.cpp", "vrs/DataLayout.h", "vrs/DataPieces.h", "vrs/DataPieceValue.h", "vrs/DataPieceArray.h", "vrs/DataPieceVector.h", "vrs/DataPieceString.h"],
  [("DataLayout::initLayout", "vrs/DataLayout.cpp"), ("DataLayout::collectVariableDataAndUpdateIndex", "vrs/DataLayout.cpp"), ("DataPieceArray::set", "vrs/DataPieceArray.h"), ("DataPieceVector::get", "vrs/DataPieceVector.h")],
  note="Placement and collection: any number of fields (up to 65536) of any sizes, by induction. Values: one layout with each kind of field, all values and lengths. Layouts with 4 GB of variable data or more are out of scope (the format's index is 32-bit).",
  trusted=["DataLayout is instantiated for six of its thirty element types (engine/shim/vrs/helpers/PODMacro.inc): the same templates for the others"])
prop("C15", "Decoding a data layout from any bytes is safe and faithful",
  "Whatever bytes are read from a file as the fixed and variable data of a data layout, accessing its fields never touches memory outside of these bytes, and never asks for more memory than what they can describe. A text, list of texts or map is returned exactly when the bytes hold it entirely, with exactly its content. The index of the variable size fields is declared valid exactly when the fields follow each other and make up all of the variable data.",
  ["inputs"], "all fixed and variable data sizes and contents; bounded for lists of texts and maps: all contents up to 20 bytes",
  "Tests decode what was just encoded; the contents of a damaged file can't be enumerated.",
  ["vrs/DataLayout.cpp", "vrs/DataLayout.h", "vrs/DataPieceVector.h", "vrs/DataPieceStringMap.h"],
  [("loadElement", "vrs/DataLayout.cpp"), ("storeElement", "vrs/DataLayout.cpp"), ("DataLayout::getVarData", "vrs/DataLayout.h"), ("DataLayout::isVarDataIndexValid", "vrs/DataLayout.cpp"), ("DataPieceVector<string>::get", "vrs/DataLayout.cpp"), ("DataPieceStringMap::get", "vrs/DataLayout.cpp")],
  note="Elements, field access and index validation: all sizes and contents. Lists of texts and maps: bounded to 20 bytes, not counted as proved. The fixed data is assumed to have at least the room for the index, as the reader allocates it.",
  trusted=["DataLayout is instantiated for six of its thirty element types (engine/shim/vrs/helpers/PODMacro.inc): the same templates for the others"])
prop("C16", "Reading through a mapped layout yields the matching field or its default",
  "When a data layout is mapped on another one, each of its fields is mapped on a field of the same kind, size, name and element type when there is one, and on none otherwise; the mapping is complete exactly when no required field is missing. Reading a mapped field gives the other layout's value, changing it changes the other layout, and a field which isn't mapped reads as its default and can not be changed. Copying from a mapped layout copies exactly the mapped fields, leaves the others alone, and refuses layouts which aren't mapped as expected.",
  ["inputs"], "any number of fields on both sides in any order; bounded: all combinations of four fields being there, missing or different, all values",
  "Tests map a few pairs of layouts; which fields match in which order has too many combinations to enumerate.",
  ["vrs/DataLayout.cpp", "vrs/DataLayout.h", "vrs/DataPieces.h"],
  [("DataLayout::findMatch", "vrs/DataLayout.cpp"), ("DataLayout::mapPieces", "vrs/DataLayout.cpp"), ("DataLayout::copyMappedValues", "vrs/DataLayout.cpp"), ("DataPiece::isMatch", "vrs/DataLayout.cpp")],
  note="Finding matches and mapping: any number of fields (up to 65536), by induction. Reading and copying through a mapping: bounded to layouts of four fields, not counted as proved.",
  trusted=["DataLayout is instantiated for six of its thirty element types (engine/shim/vrs/helpers/PODMacro.inc): the same templates for the others"])
prop("C20", "Stream ids and numbers given as text are read exactly or refused",
  "A text is read as a stream id exactly when it is two numbers of 16 bits written with digits and separated by the separator expected, and then the id has these two numbers; anything else gives an invalid id. The numeric name of every stream id reads back as this stream id. A text is read as an integer, or a size with a unit, exactly when it is one that fits, entirely, and never is memory outside of the text read.",
  ["inputs"], "bounded: every text of up to 12 characters for stream ids and up to 6 for numbers, and all numbers near the limits of their types; any length for memory safety of stream ids",
  "Tests parse a few well-formed and malformed names; overflowing numbers, texts without a terminator and empty views are not sampled.",
  ["vrs/StreamId.cpp", "vrs/helpers/Strings.cpp"],
  [("StreamId::fromNumericName", "vrs/StreamId.cpp"), ("readInt, readUInt64, readByteSize", "vrs/helpers/Strings.cpp")],
  level="other", note="Memory safety of reading a stream id is proved for any length; exactness is checked bounded (12 characters). The EB unit of byte sizes is left out: the code and its tests take it as 2^50.")

prop("C22", "URIs are parsed exactly, or refused",
  "A text is accepted as a URI exactly when it is an optional valid scheme, a path and optional parameters; then the scheme, the decoded path and each well-formed parameter, decoded, are exactly those of the text, and a refused URI returns nothing. Decoding replaces each percent escape by its byte, keeps all other bytes, UTF-8 included, and refuses control characters. A text with a valid scheme is given to the file handler its scheme names, any other is the path of a disk file, as it is. No memory outside of the text is read.",
  ["inputs"], "bounded: every text of up to 6 characters for decoding and parameters, up to 7 for URIs (free text, and free text after fixed beginnings), up to 5 for paths and locations",
  "Tests parse a few URIs; escapes cut at the end, bytes above 127, repeated or empty parameters and texts without a terminator are not sampled.",
  ["vrs/FileSpec.cpp", "vrs/FileSpec.h"],
  [("FileSpec::parseUri", "vrs/FileSpec.cpp"), ("FileSpec::urldecode", "vrs/FileSpec.cpp"), ("FileSpec::fromPathJsonUri", "vrs/FileSpec.cpp"), ("FileSpec::decodeQuery", "vrs/FileSpec.cpp")],
  level="other", note="Bounded check of the real parsing code on every text up to the bounds; JSON specs are not covered.",
  trusted=["the file handler factory: contract stub (harness/C22.cpp)"])

prop("C19", "Record formats read back from their text as they were",
  "Every content type, image, pixel, audio and sample format has a name which reads back as this value. The text of an image, audio or custom content block, and of a record format made of several blocks, reads back as blocks equal to the original, names of codecs and custom formats included, whatever characters they hold; the text of a name uses only characters which are safe in a format. The name of the tag of a record format reads back as its record type and version, and no other text is taken for one.",
  ["inputs"], "all enum values; bounded: dimensions, strides, rates and sizes up to 1000 (widths up to 100000, versions up to 100000), all names of up to 2 or 3 characters, record formats of two blocks",
  "Tests convert a few formats; characters which need escaping in every position, and combinations of optional parts being there or missing, are not enumerated.",
  ["vrs/RecordFormat.cpp", "vrs/RecordFormat.h", "vrs/helpers/EnumStringConverter.h"],
  [("ImageContentBlockSpec::asString/set", "vrs/RecordFormat.cpp"), ("AudioContentBlockSpec::asString/set", "vrs/RecordFormat.cpp"), ("escapeString, unescapeString", "vrs/RecordFormat.cpp"), ("RecordFormat::parseRecordFormatTagName", "vrs/RecordFormat.cpp")],
  level="other", note="Bounded check of the real code on every value up to the bounds. Key frame times are left out (they are written for debugging only), and so is the count of stereo pairs, which is not part of the text.",
  trusted=["sscanf, istringstream and getline: contracts (harness/scan.h)"])

prop("C09", "Records wait to be written in order, each once, and only old ones are purged",
  "Every record created in a stream waits to be written, exactly once, with the time, type, version and data given, in order of time and then of creation, whatever the order of the calls. Collecting takes exactly the records before the time asked for, in order, and leaves the others. Purging removes exactly the records before the time asked for, except the last state, the last configuration and tags records, keeps the others in order, and tells how many it removed. Recycled record objects are kept up to the limit, reused at most once at a time, with room for the new data, and carry nothing over.",
  ["inputs", "histories"], "bounded: every sequence of up to three records of any types and order of times, every time collected or purged, all cache limits up to 2, records of 0 to 61 bytes",
  "Tests create records in order of time; late records, ties, and purges which keep both a state and a configuration in every order are not enumerated.",
  ["vrs/RecordManager.cpp", "vrs/RecordManager.h", "vrs/Record.cpp"],
  [("RecordManager::createRecord", "vrs/RecordManager.cpp"), ("RecordManager::purgeOldRecords", "vrs/RecordManager.cpp"), ("RecordManager::collectOldRecords", "vrs/RecordManager.cpp"), ("Record::set", "vrs/Record.cpp")],
  level="other", note="Bounded check of the real code on every history up to the bounds, called from one thread.",
  trusted=["os::getTimestampSec: a clock given by the harness"])

# not claimed: see also DESIGN.md
prop("C23", "Pixel conversions keep the image",
  "Normalizing a frame to another pixel format gives, for every pixel, the value the formats define, and never reads or writes outside of the frames.",
  ["inputs"], "all dimensions, strides, formats and pixel values", "Tests convert a few images.", ["vrs/utils/PixelFrame.cpp"], [("PixelFrame::normalizeFrame", "vrs/utils/PixelFrame.cpp")],
  na="The conversions have no written definition to use as a postcondition, rely on image libraries that are external, and part of them (PixelFrameOptions.cpp, PixelFrameOcean.cpp, xprs) is not built here.")
prop("C25", "Several files read together are the union of their records",
  "Opening related files together lists each record of each file exactly once, in order of time, under a unique stream id which leads back to its own file.",
  ["inputs", "histories"], "all sets of files", "Tests open a few files together.", ["vrs/MultiRecordFileReader.cpp"], [("MultiRecordFileReader::open", "vrs/MultiRecordFileReader.cpp")],
  na="Built of hash maps and sets, unique pointers to whole readers and sorting with comparators looking in these maps: no inductive contract is within reach of the verifier, and bounded runs would be concrete tests of one or two records.")
prop("C27", "Recording from several threads loses nothing",
  "Records created by any threads while a file is being written in the background are written exactly once each, and nothing is accessed without its lock.",
  ["schedules"], "all interleavings", "Tests see only a few schedules.", ["vrs/RecordManager.cpp", "vrs/RecordFileWriter.cpp"], [("RecordFileWriter::writeRecordsAsync", "vrs/RecordFileWriter.cpp")],
  na="The verifier executes one thread: it has no ownership or lock invariants for C++ mutexes and condition variables. The sequential part is C08, C09 and C10.")
prop("C28", "A crash while recording loses only what was not written",
  "After a crash at any point, the file can be opened and lists every record which was completely written.",
  ["crash_points"], "all crash points", "Tests do not crash.", ["vrs/RecordFileWriter.cpp", "vrs/DiskFile.cpp"], [("RecordFileWriter", "vrs/RecordFileWriter.cpp")],
  na="What reaches the disk at a crash is decided by the C library's buffers and the file system, for which no contract on this code speaks. Reading files cut anywhere is decided by C04 and C05, atomic replacement by C13.")
prop("C29", "Asynchronous disk files behave like synchronous ones",
  "Files written with the asynchronous disk file chunks have exactly the content written, and errors are reported by a later call.",
  ["schedules", "fault_sequences"], "all completion orders and failures", "Tests see few completion orders.", ["vrs/AsyncDiskFileChunk.h"], [("AsyncDiskFileChunk", "vrs/AsyncDiskFileChunk.cpp")],
  na="Completion of asynchronous operations on other threads and in the kernel: the verifier executes one thread and has no contract for aio or Windows overlapped operations.")
prop("C30", "A cached file description is the description of the file",
  "Details of a file saved in a cache and read back are the details of the file, and a damaged cache is refused.",
  ["inputs"], "all details and all cache contents", "Tests save and read a few.", ["vrs/FileDetailsCache.cpp"], [("FileDetailsCache", "vrs/FileDetailsCache.cpp")],
  na="Parsing and printing is done by rapidjson, an external recursive parser with its own allocators, out of the verifier's reach; what is left in vrs only moves values.")
