import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
p("C01","Extracted bytes equal archived bytes for every supported method chain",
 "For every well-formed archive that uses the supported methods - any legal chain of filters, compressors and encryption (each coder listed after those that feed it, as 7-zip writes them), any number of streams, any split of a stream into files, any packed-stream layout - opening a file and reading it to the end yields exactly the bytes that were archived, all of them and nothing else. This holds for every content, including content crafted around each filter's trigger patterns and around internal buffer boundaries.",
 ["inputs","configurations"],"all contents x all legal coder graphs x all stream/file layouts",
 "the tests extract some twenty fixed archives, one per method, and compare a CRC; no other method combination, parameter, layout or trigger pattern is reached",
 ["struct.go","register.go","reader.go","internal/bra/","internal/bcj2/reader.go","internal/delta/reader.go","internal/aes7z/reader.go","internal/lzma/reader.go","internal/lzma2/reader.go","internal/ppmd/reader.go"],
 [("coder graph wiring","struct.go streamsInfo.folderReader"),("packed stream offsets","struct.go streamsInfo.folderOffset"),("method table","register.go init"),("branch filters","internal/bra/*.go Convert"),("BCJ2 merge","internal/bcj2/reader.go read"),("delta state","internal/delta/reader.go Read")],
 ["File.Open, Read"])
p("C02","File content does not depend on how it is read",
 "The bytes a file delivers and the place where it ends are the same however the reading is split into Read calls: any sequence of buffer sizes, including zero-length and one-byte buffers. No Read reports more bytes than were asked for, reading always makes progress, and after the last byte every further Read of a non-empty buffer returns 0 and io.EOF.",
 ["inputs","histories"],"all contents x all sequences of buffer sizes",
 "the tests use only a one-byte reader and io.ReadAll/io.Copy, never a mixture; the filters keep carry-over state between Read calls that depends on the split",
 ["internal/bra/reader.go","internal/bcj2/reader.go","internal/delta/reader.go","internal/aes7z/reader.go","reader.go","struct.go"],
 [("look-ahead buffer and converted prefix","internal/bra/reader.go readCloser.Read"),("carry of delta history","internal/delta/reader.go Read"),("block buffer","internal/aes7z/reader.go Read"),("file window","reader.go fileReader.Read")],
 ["io.ReadCloser returned by File.Open"])
p("C03","Any history of opens, partial reads and closes yields the right bytes",
 "For every sequence of opening, partially reading and closing files of one archive - in any order, with any number of handles open at once, re-opening files, whatever reuse of decoders the library makes - every handle delivers exactly its own file's bytes from the first one on. A closed handle delivers no further data and answers with an error instead of a panic, closing it again is harmless, and no operation on one handle changes what another delivers.",
 ["histories"],"all sequences of open/read/close operations over all files and handles",
 "the tests extract the files of an archive once, in order; partial reads, reverse order, overlapping handles and cache eviction are not exercised",
 ["reader.go","internal/pool/pool.go","struct.go"],
 [("reader cache keyed by stream offset","internal/pool/pool.go Get/Put"),("hand-back on Close","reader.go fileReader.Close"),("forward seek","struct.go folderReadCloser.Seek"),("file window","reader.go fileReader.Read")],
 ["File.Open, Read, Close"],
 [("pool.items/evictList","idle decoders by offset, LRU","internal/pool/pool.go"),("fileReader.rc/n","the decoder a handle owns and the bytes left","reader.go")])
p("C04","Concurrent use of one archive behaves like isolated use",
 "Files of one archive can be opened, read and closed from several goroutines at once, together with lookups through the filesystem view and with work on other archives and passwords. For every interleaving each goroutine observes exactly what it would observe running alone, and there is no data race, deadlock or panic.",
 ["schedules"],"all thread interleavings of the operations",
 "the tests never access one archive from two goroutines; a free-running test samples a handful of schedules",
 ["internal/pool/pool.go","reader.go","internal/aes7z/key.go","register.go","internal/deflate/reader.go","internal/lz4/reader.go","internal/brotli/reader.go","internal/zstd/reader.go"],
 [("pool mutex","internal/pool/pool.go"),("lazy file list","reader.go initFileList (sync.Once)"),("key cache","internal/aes7z/key.go"),("decoder recycling","internal/*/reader.go sync.Pool"),("method table","register.go sync.Map")],
 ["File.Open, Read, Close, Reader.Open, fs.ReadDir from several goroutines"])
p("C05","The file list equals what the archive header records",
 "For every well-formed archive that uses the supported header records the exposed file list - order, names, sizes, CRCs, the three timestamps, attributes, which entries are empty, and which files share a stream - equals what the header records. This holds however the header is written: plain, compressed or encrypted, optional sections present or absent, all-defined or bit-vector encodings, digests stored per stream or per file, padding records, and headers of any length.",
 ["inputs","configurations"],"all header contents x all legal encodings of them",
 "the tests check CRCs of a few fixed archives; almost no other metadata field or encoding variant is compared with anything",
 ["types.go","reader.go","struct.go"],
 [("header parser","types.go read*"),("number decoding","types.go readUint64"),("file to stream mapping","struct.go FileFolderAndSize, reader.go init"),("encoded headers","reader.go init")],
 ["Reader.File, FileHeader"])
p("C06","Header corruption is never accepted as a different listing",
 "If any bits of the checksummed header data are altered - the start header, the header itself, or the packed data of an encoded header with a recorded CRC - opening the archive either fails with an error or exposes exactly the original listing. The same holds when the file is cut short anywhere.",
 ["inputs","fault_sequences"],"all alterations and truncations of the header data of all archives",
 "no test opens a damaged archive and looks at the outcome; the CRC comparisons can be weakened without any test noticing",
 ["reader.go","internal/util/checksum.go","types.go"],
 [("start header CRC","reader.go init"),("header CRC and leftover check","reader.go init"),("encoded header CRC","reader.go init"),("CRC comparison","internal/util/checksum.go")],
 ["NewReader, OpenReader"])
p("C07","Malformed archives give errors, never a crash or an endless loop",
 "For any input bytes - truncated, damaged, or crafted with valid checksums but inconsistent structure - opening the archive, reading every listed file and walking the filesystem view terminates and reports problems through returned errors. It never panics and never loops without progress.",
 ["inputs"],"all byte strings",
 "one fuzz test with four stored inputs runs only NewReader; structural fields are cross-referenced without validation in many places a fuzz corpus guarded by CRCs cannot reach",
 ["types.go","struct.go","reader.go","internal/"],
 [("bounded counts","types.go checkUint64"),("structure checks","types.go readFolder, struct.go folderReader"),("decoder argument checks","internal/*/reader.go NewReader")],
 ["NewReaderWithPassword, File.Open, Read, Reader.Open"])
p("C08","The filesystem view is a consistent fs.FS for every set of entries",
 "For every set of entry names and kinds, the archive's fs.FS view is a tree: directory listings contain each child exactly once, sorted, under its valid name, with implied parent directories, and are the same in whatever chunk sizes ReadDir is called; every listed entry can be opened and stat'ed under its path with matching kind, name, size and content, empty files included. Invalid paths fail with fs.ErrInvalid and absent ones with fs.ErrNotExist, conflicting duplicate entries are reported as errors, and no lookup panics or recurses without end.",
 ["inputs","histories"],"all sets of entry names/kinds x all paths x all ReadDir chunkings",
 "one test runs fstest.TestFS on one archive without empty files, odd names, duplicates or name conflicts",
 ["reader.go","struct.go"],
 [("name sanitising","reader.go toValidName"),("tree building","reader.go initFileList"),("lookup by binary search","reader.go openLookup/openReadDir"),("paged listing","reader.go openDir.ReadDir")],
 ["Reader.Open, fs.ReadDir, fs.Stat, fs.WalkDir"])
p("C09","The right password decrypts exactly, every time",
 "With the right password every encrypted archive decrypts to the archived bytes for every salt and initialisation vector of 0 to 16 bytes (not both absent), every supported key-derivation strength and every password text, on the first and on every later opening of each file. Results never depend on which other archives, passwords or files were opened before.",
 ["inputs","histories"],"all key parameters and passwords x all orders of opening files and archives",
 "the tests open each encrypted archive once with one password; repeated opening, short passwords combined with stored vectors, and key-cache interaction are not reached",
 ["internal/aes7z/key.go","internal/aes7z/reader.go","struct.go"],
 [("key derivation and cache","internal/aes7z/key.go calculateKey"),("parameter parsing","internal/aes7z/reader.go NewReader"),("CBC reading","internal/aes7z/reader.go Read")],
 ["NewReaderWithPassword, File.Open, Read"],
 [("key cache","derived keys by password, strength and salt","internal/aes7z/key.go"),("coder properties","salt and vector bytes reused by every opening","types.go readCoder")])
p("C10","Failures in encrypted streams carry the encryption hint, others never do",
 "Whenever opening an archive, opening a file or reading a file fails on account of data in a stream that involves encryption - for instance after a wrong password - the error is a ReadError with Encrypted true; for streams without encryption a ReadError never has Encrypted true. A wrong password never alters what is delivered from unencrypted streams, and data decoded with a wrong password never ends early as if complete.",
 ["inputs","configurations"],"all wrong passwords x all encrypted layouts x all failing operations",
 "three fixed archives with one wrong password each are tried; which error path a wrong key takes depends on the pseudo-random bytes it produces",
 ["reader.go","struct.go"],
 [("error wrapping","reader.go fileReader.Read, File.Open, init"),("encryption flag","struct.go folderReader/coderReader")],
 ["errors.As(err, *ReadError)"])
p("C11","Failing or truncated input is never passed off as complete content",
 "If the underlying reader fails or the data ends early at any point, the caller sees an error from the operation affected: a file read that ends with a clean io.EOF has always delivered exactly the recorded number of correct bytes. Once a fault has been reported and is gone, files opened afterwards deliver correct content again.",
 ["fault_sequences","inputs"],"every fault position and kind x every archive and operation sequence",
 "no test injects an I/O error or truncates stream data",
 ["reader.go","struct.go","internal/"],
 [("end-of-file accounting","reader.go fileReader.Read"),("pool hand-back","reader.go fileReader.Close"),("error propagation","internal/*/reader.go Read")],
 ["NewReader, File.Open, Read, Close over a faulty io.ReaderAt"])
p("C12","A multi-volume archive is equivalent to its concatenation",
 "Opening the first volume of an archive split at any positions into any number of volumes gives the same listing and contents as the unsplit archive, and Volumes names exactly the volumes used, in order. Every volume handle is released exactly once, on Close and on every failing open, and any failure to open or inspect a volume other than its absence is reported.",
 ["inputs","fault_sequences"],"all split positions x all fault positions in opening the volumes",
 "one six-volume archive and four mocked failures are tried",
 ["reader.go"],
 [("volume discovery","reader.go openReader"),("handle release","reader.go OpenReaderWithPassword, ReadCloser.Close")],
 ["OpenReader, OpenReaderWithPassword, Volumes, Close"])
p("C13","An archive behind a stub reads the same as the bare archive",
 "An archive that starts at any offset within the first mebibyte of the input - after an executable stub or any other data, even data that contains the archive signature somewhere after its first byte - and is followed by any trailing data gives the same listing and contents as the archive alone. Input without an archive is rejected with an error.",
 ["inputs"],"all prefixes (lengths and contents) x all trailers",
 "one self-extracting executable with one stub length is tried; chunk-boundary positions and decoy signatures are not",
 ["reader.go"],
 [("signature search","reader.go findSignature"),("candidate validation","reader.go init")],
 ["NewReader"])
p("C14","Attributes and timestamps are translated faithfully for every value",
 "For every 32-bit attribute value the reported file mode is the one the stored POSIX bits, or failing those the DOS bits, denote, and IsDir, Mode, Type and the FileInfo agree with each other. For every timestamp in the range of the format the reported time is the exact instant, in UTC; absent timestamps are the zero time.",
 ["inputs"],"all 2^32 attribute values and all 64-bit file times",
 "no test looks at modes or times at all",
 ["struct.go","types.go"],
 [("mode mapping","struct.go FileHeader.Mode"),("file time conversion","types.go readTimes")],
 ["FileHeader.Mode, FileInfo, Created/Accessed/Modified"])
p("C15","Registered decompressors are used exactly as registered",
 "For every method identifier, the decompressor most recently registered for exactly that identifier is the one used, and it receives the stored property bytes, the recorded output size, and its input streams in order and in full, each input being the output of the coder bound to it or the packed stream assigned to it. An identifier nobody registered makes opening the file fail with an error, and the properties passed are the same every time.",
 ["inputs","configurations","histories"],"all identifiers, properties, coder graphs and registration histories",
 "no test registers a decompressor",
 ["register.go","struct.go"],
 [("method table","register.go RegisterDecompressor/decompressor"),("graph wiring","struct.go folderReader/coderReader")],
 ["RegisterDecompressor, File.Open"])
p("C16","Extracting in archive order decodes each stream only once",
 "If the non-empty files of an archive are opened in archive order and each is closed before the next one in its stream is opened, whether read completely or only in part, one decoder per stream serves them all: the packed data of each stream is read once from start to end and nothing is decoded twice. This also holds when several streams are extracted in an interleaved or concurrent fashion, one goroutine per stream.",
 ["histories","schedules"],"all in-order histories with any amount read per file, any number of streams, any interleaving of streams",
 "only a benchmark shows the effect; correctness tests pass just as well when every file decodes its stream from the start",
 ["reader.go","internal/pool/pool.go"],
 [("reader cache","internal/pool/pool.go"),("pool selection","reader.go init"),("hand-back on Close","reader.go fileReader.Close")],
 ["registered decompressor calls, reads of the underlying io.ReaderAt"])
p("C17","Decoders are owned by one handle, closed at most once, and bounded",
 "At any time each decoder instance serves at most one open handle and is never read after it was closed, nor closed twice. After any history of opens, reads, failures and closes, the decoders not yet closed are at most one per open handle plus a fixed number of idle ones per stream, so repeating operations does not accumulate decoders.",
 ["histories","fault_sequences"],"all sequences of open/read/close over all files, including failing ones",
 "leaks and double use are invisible to tests that only compare content",
 ["internal/pool/pool.go","reader.go","struct.go"],
 [("eviction","internal/pool/pool.go Put/removeOldest"),("ownership transfer","internal/pool/pool.go Get, reader.go fileReader.Close"),("close chaining","internal/*/reader.go Close")],
 ["Close and Read calls on decoders made by a registered decompressor"])
p("C18","A failed or abandoned extraction never affects a later one",
 "Whatever happened before in the process - completed, partial, abandoned, failed or doubly closed extractions of any archives and methods - a later extraction of a sound archive delivers exactly the right bytes, and of a damaged one the same failure as in a fresh process. Decoder state recycled between streams or archives never leaks from one to another.",
 ["histories"],"all sequences of extractions with every outcome, over all methods with recycled decoders",
 "tests never extract after a failure, and run each method once",
 ["internal/deflate/reader.go","internal/zstd/reader.go","internal/lz4/reader.go","internal/brotli/reader.go","internal/aes7z/key.go","internal/pool/pool.go"],
 [("decoder recycling","internal/*/reader.go sync.Pool Get/Put/Reset"),("key cache","internal/aes7z/key.go")],
 ["File.Open, Read, Close over several archives"])
p("C19","Opening an archive needs memory in proportion to its size",
 "Opening an archive and listing it allocates memory at most proportional to the size of the header data actually present, whatever counts and sizes the header claims (the working memory that the decoder of a compressed header needs for its dictionary and state aside). Claimed quantities that the data cannot back are rejected with an error rather than provisioned for.",
 ["inputs"],"all values of all count and size fields",
 "tests have no malformed counts, and never measure allocation",
 ["types.go","struct.go"],
 [("capped preallocation","types.go readBool/readSizes/readUnpackInfo"),("bounded numbers","types.go checkUint64")],
 ["allocation during NewReader"])
p("C20","Repeated operations accumulate neither memory nor goroutines nor open files",
 "What has been closed leaves nothing behind that grows: after any history of opening archives and extracting from them - completely, partly, with failures, of sound or damaged archives, with right and wrong passwords, through new readers or one kept open - repeated any number of times with all handles closed, the memory retained, the goroutines and the open files stay below a bound that does not depend on the number of repetitions.",
 ["histories"],"all histories of openings, extractions and closes, repeated",
 "tests run each operation once and never look at what is left",
 ["internal/zstd/reader.go","internal/pool/pool.go","internal/aes7z/key.go","internal/deflate/reader.go","internal/lz4/reader.go","internal/brotli/reader.go","reader.go"],
 [("decoder recycling","internal/*/reader.go sync.Pool Get/Put/Reset"),("stopping decoders","internal/zstd/reader.go Close"),("bounded key cache","internal/aes7z/key.go"),("eviction","internal/pool/pool.go")],
 ["live heap after garbage collection, goroutines, /proc/self/fd"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
