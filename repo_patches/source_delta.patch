From d30ffafeea51b4ff9916b5e67577046ccb520ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 01/44] fix: don't overwrite the initialisation vector when
 deriving the key

The salt is a slice of the coder properties; appending the password to it
wrote into the properties of the archive, so every later reader of that
stream decrypted with a wrong initialisation vector.
---
 internal/aes7z/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/aes7z/key.go b/internal/aes7z/key.go
index eb25326..8269959 100644
--- a/internal/aes7z/key.go
+++ b/internal/aes7z/key.go
@@ -54,7 +54,8 @@ func calculateKey(password string, cycles int, salt []byte) ([]byte, error) {
 		return key, nil
 	}
 
-	b := bytes.NewBuffer(salt)
+	// Copy the salt, it shares its backing array with the initialisation vector
+	b := bytes.NewBuffer(bytes.Clone(salt))
 
 	// Convert password to UTF-16LE
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
-- 
2.43.0


From 57b83ca1950540f12cfc7fe9bcb74ee33cc830cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 02/44] fix: delta filter with a distance of 256

The distance was computed in a byte and overflowed to zero, so reading
never returned.
---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index 0926a17..d4dce31 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -84,6 +84,6 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	return &readCloser{
 		rc:    readers[0],
-		delta: int(p[0] + 1),
+		delta: int(p[0]) + 1,
 	}, nil
 }
-- 
2.43.0


From 0336ae73baff92166a6bf7a0bca9e336cd046171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 03/44] fix: delta filter hides the end of its input

Swallowing io.EOF left the caller spinning on a truncated stream.
---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index d4dce31..9d07ce1 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -69,7 +69,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	copy(rc.state[:], buffer[j:rc.delta])
 	copy(rc.state[rc.delta-j:], buffer[:j])
 
-	return n, nil
+	return n, err //nolint:wrapcheck
 }
 
 // NewReader returns a new Delta io.ReadCloser.
-- 
2.43.0


From 69a796ef9b3e097228b8f6a2cf1dc1dd5453cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 04/44] fix: accept plain Brotli streams shorter than the
 optional frame

---
 internal/brotli/reader.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index a07b764..e941dde 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -82,11 +82,10 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	// the data which will confuse a pure Brotli implementation. Read it
 	// but keep a copy so we can add it back if it doesn't look right
 	if err := binary.Read(io.TeeReader(readers[0], b), binary.LittleEndian, hr); err != nil {
-		if !errors.Is(err, io.EOF) {
-			err = fmt.Errorf("brotli: error reading frame: %w", err)
+		// A stream shorter than the frame can't have one
+		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+			return nil, fmt.Errorf("brotli: error reading frame: %w", err)
 		}
-
-		return nil, err
 	}
 
 	var reader io.ReadCloser
-- 
2.43.0


From 400bbdff4a06202ae7b24c00f9303d9639d1eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 05/44] fix: panic when opening an empty file through the fs.FS
 view

---
 reader.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 8ff32ef..6a85830 100644
--- a/reader.go
+++ b/reader.go
@@ -333,7 +333,21 @@ func (z *Reader) Open(name string) (iofs.File, error) {
 		return nil, err
 	}
 
-	return rc.(iofs.File), nil //nolint:forcetypeassert
+	if f, ok := rc.(iofs.File); ok {
+		return f, nil
+	}
+
+	return &emptyFile{rc, e.file}, nil
+}
+
+// emptyFile adds the missing Stat method to an empty file.
+type emptyFile struct {
+	io.ReadCloser
+	f *File
+}
+
+func (e *emptyFile) Stat() (iofs.FileInfo, error) {
+	return headerFileInfo{&e.f.FileHeader}, nil
 }
 
 func (z *Reader) folderReader(si *streamsInfo, f int) (*folderReadCloser, uint32, bool, error) {
-- 
2.43.0


From 35a3a90594767f0f91249be5bc2becb9595b32d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 06/44] fix: panic when reading a file after closing it

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 6a85830..10a38de 100644
--- a/reader.go
+++ b/reader.go
@@ -88,6 +88,10 @@ func (fr *fileReader) Stat() (iofs.FileInfo, error) {
 }
 
 func (fr *fileReader) Read(p []byte) (int, error) {
+	if fr.rc == nil {
+		return 0, iofs.ErrClosed
+	}
+
 	if len(p) == 0 {
 		return 0, nil
 	}
-- 
2.43.0


From f6f4abed52ab8096de7bcbe1b9352505ecf6af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 07/44] fix: report a stream that ends before the end of the
 file

---
 reader.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 10a38de..31ad707 100644
--- a/reader.go
+++ b/reader.go
@@ -107,7 +107,16 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 	n, err := fr.rc.Read(p)
 	fr.n -= int64(n)
 
-	if err != nil && !errors.Is(err, io.EOF) {
+	if errors.Is(err, io.EOF) {
+		if fr.n == 0 || fr.undecodable() {
+			return n, io.EOF
+		}
+
+		// The stream ended before the end of the file
+		err = io.ErrUnexpectedEOF
+	}
+
+	if err != nil {
 		e := &ReadError{
 			Err: err,
 		}
@@ -119,7 +128,15 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return n, e
 	}
 
-	return n, err //nolint:wrapcheck
+	return n, nil
+}
+
+// undecodable returns if an encrypted stream doesn't contain any data at all,
+// which is most likely due to a wrong password. Historically this is no error.
+func (fr *fileReader) undecodable() bool {
+	frc, ok := fr.rc.(*folderReadCloser)
+
+	return ok && frc.hasEncryption && frc.wc.Count() == 0
 }
 
 func (fr *fileReader) Close() error {
-- 
2.43.0


From 23dc04b69d2a083bd68c02a4a31edc95107b9c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 08/44] fix: don't reuse a decoder after it failed

---
 reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 31ad707..9c31fe2 100644
--- a/reader.go
+++ b/reader.go
@@ -81,6 +81,8 @@ type fileReader struct {
 	rc util.SizeReadSeekCloser
 	f  *File
 	n  int64
+
+	failed bool
 }
 
 func (fr *fileReader) Stat() (iofs.FileInfo, error) {
@@ -117,6 +119,8 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 	}
 
 	if err != nil {
+		fr.failed = true
+
 		e := &ReadError{
 			Err: err,
 		}
@@ -149,7 +153,7 @@ func (fr *fileReader) Close() error {
 		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
 	}
 
-	if offset == fr.rc.Size() { // EOF reached
+	if fr.failed || offset == fr.rc.Size() { // EOF reached, or not worth keeping
 		if err := fr.rc.Close(); err != nil {
 			return fmt.Errorf("sevenzip: error closing: %w", err)
 		}
-- 
2.43.0


From 51067b84273aa49718516aea9d4a3e37a362fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 09/44] fix: timestamps that don't fit the range of
 time.Duration

---
 types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index dfeb2b2..340df7f 100644
--- a/types.go
+++ b/types.go
@@ -46,6 +46,11 @@ const (
 	idDummy
 )
 
+const (
+	ticksPerSecond = 10_000_000     // A FILETIME counts in units of 100 nanoseconds
+	epochOffset    = 11_644_473_600 // Seconds between 1601-01-01 and 1970-01-01
+)
+
 var (
 	errIncompleteRead         = errors.New("sevenzip: incomplete read")
 	errUnexpectedID           = errors.New("sevenzip: unexpected id")
@@ -659,7 +664,9 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
 			}
 
-			times[i] = time.Unix(0, ft.Nanoseconds()).UTC()
+			// The number of nanoseconds only fits the years 1678 to 2262
+			v := uint64(ft.HighDateTime)<<32 | uint64(ft.LowDateTime)
+			times[i] = time.Unix(int64(v/ticksPerSecond)-epochOffset, int64(v%ticksPerSecond)*100).UTC() //nolint:gosec
 		}
 	}
 
-- 
2.43.0


From 9f2e23c57716ae8b17761a4aec62e83f9428e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 10/44] fix: method identifiers and properties split by the
 read buffer

---
 types.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/types.go b/types.go
index 340df7f..c98c137 100644
--- a/types.go
+++ b/types.go
@@ -52,7 +52,6 @@ const (
 )
 
 var (
-	errIncompleteRead         = errors.New("sevenzip: incomplete read")
 	errUnexpectedID           = errors.New("sevenzip: unexpected id")
 	errMissingUnpackInfo      = errors.New("sevenzip: missing unpack info")
 	errWrongNumberOfFilenames = errors.New("sevenzip: wrong number of filenames")
@@ -274,12 +273,8 @@ func readCoder(r util.Reader) (*coder, error) {
 	}
 
 	c.id = make([]byte, v&0xf)
-	if n, err := r.Read(c.id); err != nil || n != int(v&0xf) {
-		if err != nil {
-			return nil, fmt.Errorf("readCoder: Read error: %w", err)
-		}
-
-		return nil, errIncompleteRead
+	if _, err := io.ReadFull(r, c.id); err != nil {
+		return nil, fmt.Errorf("readCoder: Read error: %w", err)
 	}
 
 	if v&0x10 != 0 {
@@ -303,12 +298,8 @@ func readCoder(r util.Reader) (*coder, error) {
 		}
 
 		c.properties = make([]byte, size)
-		if n, err := r.Read(c.properties); err != nil || uint64(n) != size { //nolint:gosec
-			if err != nil {
-				return nil, fmt.Errorf("readCoder: Read error: %w", err)
-			}
-
-			return nil, errIncompleteRead
+		if _, err := io.ReadFull(r, c.properties); err != nil {
+			return nil, fmt.Errorf("readCoder: Read error: %w", err)
 		}
 	}
 
-- 
2.43.0


From da5365aab8377ce3d438f3ae1b38135d91aef215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 11/44] fix: digests stored partly per folder and partly per
 file

---
 struct.go | 11 ++++++++---
 types.go  | 47 ++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/struct.go b/struct.go
index bb6ddca..88898a5 100644
--- a/struct.go
+++ b/struct.go
@@ -186,8 +186,13 @@ func (f *folder) unpackSize() uint64 {
 }
 
 type unpackInfo struct {
-	folder []*folder
-	digest []uint32
+	folder  []*folder
+	digest  []uint32
+	defined []bool
+}
+
+func (u *unpackInfo) hasDigest(folder int) bool {
+	return len(u.digest) > 0 && u.defined[folder]
 }
 
 type subStreamsInfo struct {
@@ -233,7 +238,7 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	}
 
 	if streams == 1 {
-		if len(si.unpackInfo.digest) > 0 {
+		if si.unpackInfo.hasDigest(folder) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
diff --git a/types.go b/types.go
index c98c137..e68f4fe 100644
--- a/types.go
+++ b/types.go
@@ -190,14 +190,15 @@ func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
 	return sizes, nil
 }
 
-func readCRC(r util.Reader, count uint64) ([]uint32, error) {
+// readCRC returns the digests, and which of them are defined.
+func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
 	if err := checkUint64(count, true); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	defined, err := readOptionalBool(r, count)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	crcs := make([]uint32, count)
@@ -205,12 +206,12 @@ func readCRC(r util.Reader, count uint64) ([]uint32, error) {
 	for i := range defined {
 		if defined[i] {
 			if err := binary.Read(r, binary.LittleEndian, &crcs[i]); err != nil {
-				return nil, fmt.Errorf("readCRC: Read error: %w", err)
+				return nil, nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
 	}
 
-	return crcs, nil
+	return crcs, defined, nil
 }
 
 //nolint:cyclop
@@ -246,7 +247,7 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 	}
 
 	if id == idCRC {
-		if p.digest, err = readCRC(r, p.streams); err != nil {
+		if p.digest, _, err = readCRC(r, p.streams); err != nil {
 			return nil, err
 		}
 
@@ -462,7 +463,7 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 	}
 
 	if id == idCRC {
-		if u.digest, err = readCRC(r, folders); err != nil {
+		if u.digest, u.defined, err = readCRC(r, folders); err != nil {
 			return nil, err
 		}
 
@@ -480,8 +481,8 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 }
 
 //nolint:cyclop,funlen,gocognit
-func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error) {
-	s := new(subStreamsInfo)
+func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
+	s, folder := new(subStreamsInfo), u.folder
 
 	id, err := r.ReadByte()
 	if err != nil {
@@ -547,10 +548,34 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 	}
 
 	if id == idCRC {
-		if s.digest, err = readCRC(r, files); err != nil {
+		// A folder with one file that has a digest itself doesn't have it repeated here
+		known := make([]bool, files)
+		missing, k := files, uint64(0)
+
+		for i, v := range s.streams {
+			if v == 1 && u.hasDigest(i) {
+				known[k] = true
+				missing--
+			}
+
+			k += v
+		}
+
+		digest, _, err := readCRC(r, missing)
+		if err != nil {
 			return nil, err
 		}
 
+		s.digest = make([]uint32, files)
+		j := 0
+
+		for i := range s.digest {
+			if !known[i] {
+				s.digest[i] = digest[j]
+				j++
+			}
+		}
+
 		id, err = r.ReadByte()
 		if err != nil {
 			return nil, fmt.Errorf("readSubStreamsInfo: ReadByte error: %w", err)
@@ -600,7 +625,7 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 			return nil, errMissingUnpackInfo
 		}
 
-		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo.folder); err != nil {
+		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From e07e4b7245e020fb90b360d570fddeff568a1962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 12/44] fix: check the digest of an encoded header when it is
 zero

---
 reader.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reader.go b/reader.go
index 9c31fe2..8e3d40d 100644
--- a/reader.go
+++ b/reader.go
@@ -533,11 +533,10 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 
 		var (
 			fr        *folderReadCloser
-			crc       uint32
 			encrypted bool
 		)
 
-		fr, crc, encrypted, err = z.folderReader(streamsInfo, 0)
+		fr, _, encrypted, err = z.folderReader(streamsInfo, 0)
 		if err != nil {
 			return &ReadError{
 				Encrypted: encrypted,
@@ -556,7 +555,7 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 			}
 		}
 
-		if crc != 0 && !util.CRC32Equal(fr.Checksum(), crc) {
+		if u := streamsInfo.unpackInfo; u.hasDigest(0) && !util.CRC32Equal(fr.Checksum(), u.digest[0]) {
 			return errChecksum
 		}
 	}
-- 
2.43.0


From 6d6be9dba31c73d7b4734064581728c321fad6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 13/44] fix: validate the counts and indices of a header

---
 struct.go | 14 ++++++++++++++
 types.go  | 50 +++++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 88898a5..82dc25c 100644
--- a/struct.go
+++ b/struct.go
@@ -215,6 +215,20 @@ func (si *streamsInfo) Folders() int {
 	return 0
 }
 
+// Files returns the number of files stored in all of the folders.
+func (si *streamsInfo) Files() uint64 {
+	if si == nil || si.subStreamsInfo == nil {
+		return uint64(si.Folders()) //nolint:gosec
+	}
+
+	files := uint64(0)
+	for _, v := range si.subStreamsInfo.streams {
+		files += v
+	}
+
+	return files
+}
+
 func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	var (
 		folder  int
diff --git a/types.go b/types.go
index e68f4fe..3813dee 100644
--- a/types.go
+++ b/types.go
@@ -58,6 +58,11 @@ var (
 	errUint64NonZero          = errors.New("sevenzip: uint64 value must be non-zero")
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
+	errInvalidPackedStream    = errors.New("sevenzip: invalid packed stream")
+	errInvalidSize            = errors.New("sevenzip: invalid size")
+	errMissingSizes           = errors.New("sevenzip: missing sizes")
+	errMissingPackInfo        = errors.New("sevenzip: missing pack info")
+	errMissingStreams         = errors.New("sevenzip: more files than streams")
 )
 
 func checkUint64(v uint64, nonZero bool) error {
@@ -357,6 +362,10 @@ func readFolder(r util.Reader) (*folder, error) {
 			return nil, err
 		}
 
+		if in >= f.in || out >= f.out || f.findInBindPair(in) != nil || f.findOutBindPair(out) != nil {
+			return nil, errInvalidBindPair
+		}
+
 		f.bindPair = append(f.bindPair, &bindPair{
 			in:  in,
 			out: out,
@@ -378,6 +387,10 @@ func readFolder(r util.Reader) (*folder, error) {
 			if f.packed[i], err = readUint64(r); err != nil {
 				return nil, err
 			}
+
+			if f.packed[i] >= f.in || f.findInBindPair(f.packed[i]) != nil {
+				return nil, errInvalidPackedStream
+			}
 		}
 	}
 
@@ -454,6 +467,10 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 			if f.size[i], err = readUint64(r); err != nil {
 				return nil, err
 			}
+
+			if f.size[i] > math.MaxInt64 {
+				return nil, errInvalidSize
+			}
 		}
 	}
 
@@ -492,7 +509,7 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 	s.streams = make([]uint64, len(folder))
 	if id == idNumUnpackStream {
 		for i := range s.streams {
-			if s.streams[i], err = readUint64(r); err != nil {
+			if s.streams[i], err = readUint64Bounded(r, false); err != nil {
 				return nil, err
 			}
 		}
@@ -533,6 +550,10 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 					return nil, err
 				}
 
+				if s.size[k] > folder[i].unpackSize()-total {
+					return nil, errInvalidSize
+				}
+
 				total += s.size[k]
 				k++
 			}
@@ -545,6 +566,13 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 		if err != nil {
 			return nil, fmt.Errorf("readSubStreamsInfo: ReadByte error: %w", err)
 		}
+	} else {
+		// Only a folder with at most one file doesn't need any sizes
+		for _, v := range s.streams {
+			if v > 1 {
+				return nil, errMissingSizes
+			}
+		}
 	}
 
 	if id == idCRC {
@@ -639,6 +667,18 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 		return nil, errUnexpectedID
 	}
 
+	if s.unpackInfo != nil {
+		// Every folder needs its packed streams
+		packed := uint64(0)
+		for _, f := range s.unpackInfo.folder {
+			packed += f.packedStreams
+		}
+
+		if s.packInfo == nil || packed > uint64(len(s.packInfo.size)) {
+			return nil, errMissingPackInfo
+		}
+	}
+
 	return s, nil
 }
 
@@ -962,17 +1002,21 @@ func readHeader(r util.Reader) (*header, error) {
 		return nil, errUnexpectedID
 	}
 
-	if h.streamsInfo == nil || h.filesInfo == nil {
+	if h.filesInfo == nil {
 		return h, nil
 	}
 
-	j := 0
+	j, streams := 0, h.streamsInfo.Files()
 
 	for i := range h.filesInfo.file {
 		if h.filesInfo.file[i].isEmptyStream {
 			continue
 		}
 
+		if uint64(j) >= streams {
+			return nil, errMissingStreams
+		}
+
 		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32 = h.streamsInfo.FileFolderAndSize(j)
 		j++
 	}
-- 
2.43.0


From 984f75c55a41b12a98d4d48512cce0aaf76f6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 14/44] fix: don't allocate for counts and sizes that a header
 only claims

---
 struct.go |   2 +-
 types.go  | 125 ++++++++++++++++++++++++++++++++++++------------------
 2 files changed, 84 insertions(+), 43 deletions(-)

diff --git a/struct.go b/struct.go
index 82dc25c..7f182b7 100644
--- a/struct.go
+++ b/struct.go
@@ -192,7 +192,7 @@ type unpackInfo struct {
 }
 
 func (u *unpackInfo) hasDigest(folder int) bool {
-	return len(u.digest) > 0 && u.defined[folder]
+	return len(u.digest) > 0 && (u.defined == nil || u.defined[folder])
 }
 
 type subStreamsInfo struct {
diff --git a/types.go b/types.go
index 3813dee..212b7d8 100644
--- a/types.go
+++ b/types.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"math"
 	"math/bits"
+	"slices"
 	"time"
 
 	"github.com/bodgit/sevenzip/internal/util"
@@ -151,6 +152,7 @@ func readBool(r io.ByteReader, count uint64) ([]bool, error) {
 	return defined, nil
 }
 
+// readOptionalBool returns nil if all are set.
 func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -165,12 +167,7 @@ func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 		return readBool(r, count)
 	}
 
-	defined := make([]bool, count)
-	for i := range defined {
-		defined[i] = true
-	}
-
-	return defined, nil
+	return nil, nil
 }
 
 func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
@@ -206,14 +203,18 @@ func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
 		return nil, nil, err
 	}
 
-	crcs := make([]uint32, count)
+	crcs := make([]uint32, 0, min(count, 1024))
+
+	for i := range count {
+		var crc uint32
 
-	for i := range defined {
-		if defined[i] {
-			if err := binary.Read(r, binary.LittleEndian, &crcs[i]); err != nil {
+		if defined == nil || defined[i] {
+			if err := binary.Read(r, binary.LittleEndian, &crc); err != nil {
 				return nil, nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
+
+		crcs = append(crcs, crc)
 	}
 
 	return crcs, defined, nil
@@ -303,10 +304,17 @@ func readCoder(r util.Reader) (*coder, error) {
 			return nil, err
 		}
 
-		c.properties = make([]byte, size)
-		if _, err := io.ReadFull(r, c.properties); err != nil {
+		// Don't trust the size until the properties turned out to be there
+		b, err := io.ReadAll(io.LimitReader(r, int64(size))) //nolint:gosec
+		if err != nil {
 			return nil, fmt.Errorf("readCoder: Read error: %w", err)
 		}
+
+		if uint64(len(b)) != size {
+			return nil, fmt.Errorf("readCoder: Read error: %w", io.ErrUnexpectedEOF)
+		}
+
+		c.properties = slices.Clip(b)
 	}
 
 	return c, nil
@@ -382,15 +390,18 @@ func readFolder(r util.Reader) (*folder, error) {
 			}
 		}
 	} else {
-		f.packed = make([]uint64, f.packedStreams)
-		for i := range f.packedStreams {
-			if f.packed[i], err = readUint64(r); err != nil {
+		f.packed = make([]uint64, 0, min(f.packedStreams, 16))
+		for range f.packedStreams {
+			in, err := readUint64(r)
+			if err != nil {
 				return nil, err
 			}
 
-			if f.packed[i] >= f.in || f.findInBindPair(f.packed[i]) != nil {
+			if in >= f.in || f.findInBindPair(in) != nil {
 				return nil, errInvalidPackedStream
 			}
+
+			f.packed = append(f.packed, in)
 		}
 	}
 
@@ -462,13 +473,12 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 			return nil, err
 		}
 
-		f.size = make([]uint64, total)
-		for i := range f.size {
-			if f.size[i], err = readUint64(r); err != nil {
-				return nil, err
-			}
+		if f.size, err = readSizes(r, total); err != nil {
+			return nil, err
+		}
 
-			if f.size[i] > math.MaxInt64 {
+		for _, size := range f.size {
+			if size > math.MaxInt64 {
 				return nil, errInvalidSize
 			}
 		}
@@ -535,8 +545,7 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 	}
 
 	if id == idSize {
-		s.size = make([]uint64, files)
-		k := 0
+		s.size = make([]uint64, 0, min(files, 1024))
 
 		for i := range s.streams {
 			if s.streams[i] == 0 {
@@ -546,20 +555,21 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 			total := uint64(0)
 
 			for j := uint64(1); j < s.streams[i]; j++ {
-				if s.size[k], err = readUint64(r); err != nil {
+				size, err := readUint64(r)
+				if err != nil {
 					return nil, err
 				}
 
-				if s.size[k] > folder[i].unpackSize()-total {
+				if size > folder[i].unpackSize()-total {
 					return nil, errInvalidSize
 				}
 
-				total += s.size[k]
-				k++
+				total += size
+
+				s.size = append(s.size, size)
 			}
 
-			s.size[k] = folder[i].unpackSize() - total
-			k++
+			s.size = append(s.size, folder[i].unpackSize()-total)
 		}
 
 		id, err = r.ReadByte()
@@ -711,10 +721,12 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 		return nil, errors.New("sevenzip: TODO readTimes external") //nolint:err113
 	}
 
-	times := make([]time.Time, count)
+	times := make([]time.Time, 0, min(count, 1024))
 
-	for i := range defined {
-		if defined[i] {
+	for i := range count {
+		var t time.Time
+
+		if defined == nil || defined[i] {
 			var ft windows.Filetime
 			if err := binary.Read(r, binary.LittleEndian, &ft); err != nil {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
@@ -722,8 +734,10 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 
 			// The number of nanoseconds only fits the years 1678 to 2262
 			v := uint64(ft.HighDateTime)<<32 | uint64(ft.LowDateTime)
-			times[i] = time.Unix(int64(v/ticksPerSecond)-epochOffset, int64(v%ticksPerSecond)*100).UTC() //nolint:gosec
+			t = time.Unix(int64(v/ticksPerSecond)-epochOffset, int64(v%ticksPerSecond)*100).UTC() //nolint:gosec
 		}
+
+		times = append(times, t)
 	}
 
 	return times, nil
@@ -773,7 +787,7 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 	scanner := bufio.NewScanner(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
 	scanner.Split(splitNull)
 
-	names, i := make([]string, 0, count), uint64(0)
+	names, i := make([]string, 0, min(count, 1024)), uint64(0)
 	for scanner.Scan() {
 		names = append(names, scanner.Text())
 		i++
@@ -819,21 +833,25 @@ func readAttributes(r util.Reader, count uint64) ([]uint32, error) {
 		return nil, errors.New("sevenzip: TODO readAttributes external") //nolint:err113
 	}
 
-	attributes := make([]uint32, count)
+	attributes := make([]uint32, 0, min(count, 1024))
 
-	for i := range defined {
-		if defined[i] {
-			if err := binary.Read(r, binary.LittleEndian, &attributes[i]); err != nil {
+	for i := range count {
+		var attribute uint32
+
+		if defined == nil || defined[i] {
+			if err := binary.Read(r, binary.LittleEndian, &attribute); err != nil {
 				return nil, fmt.Errorf("readAttributes: Read error: %w", err)
 			}
 		}
+
+		attributes = append(attributes, attribute)
 	}
 
 	return attributes, nil
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func readFilesInfo(r util.Reader) (*filesInfo, error) {
+func readFilesInfo(r util.Reader, streams uint64) (*filesInfo, error) {
 	f := new(filesInfo)
 
 	files, err := readUint64Bounded(r, true)
@@ -841,7 +859,12 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 		return nil, err
 	}
 
-	f.file = make([]FileHeader, files)
+	// Don't trust the number of files until there is something to show for them
+	allocate := func() {
+		if f.file == nil {
+			f.file = make([]FileHeader, files)
+		}
+	}
 
 	var emptyStreams uint64
 
@@ -852,6 +875,12 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 		}
 
 		if property == idEnd {
+			if f.file == nil && files > streams {
+				return nil, errMissingStreams
+			}
+
+			allocate()
+
 			break
 		}
 
@@ -867,6 +896,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i := range f.file {
 				f.file[i].isEmptyStream = empty[i]
 
@@ -894,6 +925,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, t := range times {
 				f.file[i].Created = t
 			}
@@ -903,6 +936,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, t := range times {
 				f.file[i].Accessed = t
 			}
@@ -912,6 +947,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, t := range times {
 				f.file[i].Modified = t
 			}
@@ -921,6 +958,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, n := range names {
 				f.file[i].Name = n
 			}
@@ -930,6 +969,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, a := range attributes {
 				f.file[i].Attributes = a
 			}
@@ -988,7 +1029,7 @@ func readHeader(r util.Reader) (*header, error) {
 	}
 
 	if id == idFilesInfo {
-		if h.filesInfo, err = readFilesInfo(r); err != nil {
+		if h.filesInfo, err = readFilesInfo(r, h.streamsInfo.Files()); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From ee956a10d7e15b0691ed996082f5d9295d82a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 15/44] fix: close a reader that is already in the pool at its
 offset

---
 internal/pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pool/pool.go b/internal/pool/pool.go
index bd7194d..fc1283b 100644
--- a/internal/pool/pool.go
+++ b/internal/pool/pool.go
@@ -88,7 +88,7 @@ func (p *pool) Put(offset int64, rc util.SizeReadSeekCloser) (bool, error) {
 	defer p.mutex.Unlock()
 
 	if _, ok := p.items[offset]; ok {
-		return false, nil
+		return false, rc.Close() //nolint:wrapcheck
 	}
 
 	ent := &entry{offset, rc}
-- 
2.43.0


From 34be12cd9d8d2d0e4d0e808f59a0f446274ba5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 16/44] fix: close the decoder if a file cannot be opened

---
 reader.go | 2 +-
 struct.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 8e3d40d..b2d4683 100644
--- a/reader.go
+++ b/reader.go
@@ -195,7 +195,7 @@ func (f *File) Open() (io.ReadCloser, error) {
 
 	if _, err := rc.Seek(f.offset, io.SeekStart); err != nil {
 		e := &ReadError{
-			Err: err,
+			Err: errors.Join(err, rc.Close()),
 		}
 
 		if fr, ok := rc.(*folderReadCloser); ok {
diff --git a/struct.go b/struct.go
index 7f182b7..29db88f 100644
--- a/struct.go
+++ b/struct.go
@@ -104,7 +104,7 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 	crc, ok := cr.(CryptoReadCloser)
 	if ok {
 		if err = crc.Password(password); err != nil {
-			return nil, true, fmt.Errorf("sevenzip: error setting password: %w", err)
+			return nil, true, fmt.Errorf("sevenzip: error setting password: %w", errors.Join(err, cr.Close()))
 		}
 	}
 
-- 
2.43.0


From 1758ba7ce91e14536b706d04646dc02cf24063cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 17/44] fix: opening a multi-volume archive smaller than the
 search buffer

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index b2d4683..6de74e4 100644
--- a/reader.go
+++ b/reader.go
@@ -408,7 +408,7 @@ func findSignature(r io.ReaderAt, search []byte) ([]int64, error) {
 		}
 
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
 				break
 			}
 
-- 
2.43.0


From 27a1afbd8f1ecffd441b7a4e2a37626a435f004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 18/44] fix: invalid names in the fs.FS view

---
 reader.go |  4 ++++
 struct.go | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 6de74e4..73f16f3 100644
--- a/reader.go
+++ b/reader.go
@@ -701,6 +701,10 @@ func toValidName(name string) string {
 		p = p[len("../"):]
 	}
 
+	if p == "." || p == ".." {
+		return ""
+	}
+
 	return p
 }
 
diff --git a/struct.go b/struct.go
index 29db88f..9316d13 100644
--- a/struct.go
+++ b/struct.go
@@ -394,7 +394,15 @@ type headerFileInfo struct {
 	fh *FileHeader
 }
 
-func (fi headerFileInfo) Name() string        { return path.Base(fi.fh.Name) }
+func (fi headerFileInfo) Name() string {
+	// Use the same name that the fs.FS view uses
+	if name := toValidName(fi.fh.Name); name != "" {
+		return path.Base(name)
+	}
+
+	return path.Base(fi.fh.Name)
+}
+
 func (fi headerFileInfo) Size() int64         { return int64(fi.fh.UncompressedSize) } //nolint:gosec
 func (fi headerFileInfo) IsDir() bool         { return fi.Mode().IsDir() }
 func (fi headerFileInfo) ModTime() time.Time  { return fi.fh.Modified.UTC() }
-- 
2.43.0


From e600090efa6286b0d0936dffc08a007d2b6c6a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 19/44] fix: errors of encrypted streams without the hint that
 there is encryption

---
 reader.go | 5 ++++-
 struct.go | 8 ++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/reader.go b/reader.go
index 73f16f3..acb2ee8 100644
--- a/reader.go
+++ b/reader.go
@@ -556,7 +556,10 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 		}
 
 		if u := streamsInfo.unpackInfo; u.hasDigest(0) && !util.CRC32Equal(fr.Checksum(), u.digest[0]) {
-			return errChecksum
+			return &ReadError{
+				Encrypted: fr.hasEncryption,
+				Err:       errChecksum,
+			}
 		}
 	}
 
diff --git a/struct.go b/struct.go
index 9316d13..1531a0c 100644
--- a/struct.go
+++ b/struct.go
@@ -324,14 +324,14 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		)
 
 		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
-		if err != nil {
-			return nil, 0, hasEncryption, err
-		}
-
 		if isEncrypted {
 			hasEncryption = true
 		}
 
+		if err != nil {
+			return nil, 0, hasEncryption, err
+		}
+
 		input += c.in
 		output += c.out
 	}
-- 
2.43.0


From cf0bb9b52a9a15797dbb08818df8c80cf86a1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 20/44] fix: close the decoders of a stream if another one of
 it fails

---
 struct.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/struct.go b/struct.go
index 1531a0c..0c72a2b 100644
--- a/struct.go
+++ b/struct.go
@@ -277,7 +277,7 @@ func (si *streamsInfo) folderOffset(folder int) int64 {
 }
 
 //nolint:cyclop,funlen,lll
-func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string) (*folderReadCloser, uint32, bool, error) {
+func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string) (_ *folderReadCloser, _ uint32, _ bool, err error) {
 	f := si.unpackInfo.folder[folder]
 	in := make([]io.ReadCloser, f.in)
 	out := make([]io.ReadCloser, f.out)
@@ -300,6 +300,18 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		input, output uint64
 	)
 
+	// A coder closes the coders it reads from, so on failure only those
+	// that aren't read by another one yet need closing
+	unread := make(map[uint64]io.Closer)
+
+	defer func() {
+		if err != nil {
+			for _, c := range unread {
+				err = errors.Join(err, c.Close())
+			}
+		}
+	}()
+
 	for i, c := range f.coder {
 		if c.out != 1 {
 			return nil, 0, hasEncryption, errMultipleOutputStreams
@@ -318,10 +330,7 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 			in[j] = out[bp.out]
 		}
 
-		var (
-			isEncrypted bool
-			err         error
-		)
+		var isEncrypted bool
 
 		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
 		if isEncrypted {
@@ -332,6 +341,14 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 			return nil, 0, hasEncryption, err
 		}
 
+		for j := input; j < input+c.in; j++ {
+			if bp := f.findInBindPair(j); bp != nil {
+				delete(unread, bp.out)
+			}
+		}
+
+		unread[output] = out[output]
+
 		input += c.in
 		output += c.out
 	}
-- 
2.43.0


From 03bc5dacb9e842f8bd99afce22fd7e854ca0d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 21/44] fix: empty archives without a header

---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index acb2ee8..f6d6395 100644
--- a/reader.go
+++ b/reader.go
@@ -487,6 +487,11 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 
 	h.Reset()
 
+	if start.Size == 0 && start.CRC == 0 {
+		// No header, which is how an empty archive is written
+		return nil
+	}
+
 	// Bound bufio.Reader otherwise it can read trailing garbage which screws up the CRC check
 	br := bufio.NewReader(io.NewSectionReader(tra, z.end, int64(start.Size))) //nolint:gosec
 
-- 
2.43.0


From 6aa9007068e46981ca827d4cefc3219287c5bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 22/44] fix: names longer than 64 KiB

---
 types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types.go b/types.go
index 212b7d8..cd43a0e 100644
--- a/types.go
+++ b/types.go
@@ -786,6 +786,7 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
 	scanner := bufio.NewScanner(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
 	scanner.Split(splitNull)
+	scanner.Buffer(nil, math.MaxInt) // There is no limit to the length of a name
 
 	names, i := make([]string, 0, min(count, 1024)), uint64(0)
 	for scanner.Scan() {
-- 
2.43.0


From 82ebb2c737dfa50501e6e2847563c6a8dd94bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 23/44] fix: missing data of the BCJ2 filter's secondary
 streams goes unnoticed

---
 internal/bcj2/reader.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/bcj2/reader.go b/internal/bcj2/reader.go
index 4cc99b4..0b978b1 100644
--- a/internal/bcj2/reader.go
+++ b/internal/bcj2/reader.go
@@ -19,6 +19,7 @@ type readCloser struct {
 	rd     util.ReadCloser
 	nrange uint
 	code   uint
+	eof    bool
 
 	sd [256 + 2]uint
 
@@ -130,8 +131,13 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 func (rc *readCloser) update() error {
 	if rc.nrange < topValue {
 		b, err := rc.rd.ReadByte()
-		if err != nil && !errors.Is(err, io.EOF) {
-			return fmt.Errorf("bcj2: error reading byte: %w", err)
+		if err != nil {
+			if !errors.Is(err, io.EOF) {
+				return fmt.Errorf("bcj2: error reading byte: %w", err)
+			}
+
+			// Only an error if there is something left to decode
+			rc.eof = true
 		}
 
 		rc.code = (rc.code << 8) | uint(b)
@@ -142,6 +148,10 @@ func (rc *readCloser) update() error {
 }
 
 func (rc *readCloser) decode(i int) (bool, error) {
+	if rc.eof {
+		return false, fmt.Errorf("bcj2: error reading byte: %w", io.ErrUnexpectedEOF)
+	}
+
 	newBound := (rc.nrange >> numbitModelTotalBits) * rc.sd[i]
 
 	if rc.code < newBound {
@@ -212,11 +222,11 @@ func (rc *readCloser) read() error {
 
 		var dest uint32
 		if err = binary.Read(r, binary.BigEndian, &dest); err != nil {
-			if !errors.Is(err, io.EOF) {
-				err = fmt.Errorf("bcj2: error reading uint32: %w", err)
+			if errors.Is(err, io.EOF) {
+				err = io.ErrUnexpectedEOF
 			}
 
-			return err
+			return fmt.Errorf("bcj2: error reading uint32: %w", err)
 		}
 
 		dest -= rc.written + 4
-- 
2.43.0


From 755558daa0ab05bf22c192865f1c210ed80bc360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 24/44] fix: report an archive that ends before the end of a
 packed stream

---
 struct.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 0c72a2b..58ec974 100644
--- a/struct.go
+++ b/struct.go
@@ -111,6 +111,23 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 	return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec
 }
 
+// packedReader reads a packed stream that has n bytes left.
+type packedReader struct {
+	r io.Reader
+	n int64
+}
+
+func (pr *packedReader) Read(p []byte) (int, error) {
+	n, err := pr.r.Read(p)
+	pr.n -= int64(n)
+
+	if errors.Is(err, io.EOF) && pr.n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+
+	return n, err //nolint:wrapcheck
+}
+
 type folderReadCloser struct {
 	io.ReadCloser
 	h             hash.Hash
@@ -291,7 +308,8 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 
 	for i, input := range f.packed {
 		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
-		in[input] = util.NopCloser(bufio.NewReader(io.NewSectionReader(r, si.folderOffset(folder)+offset, size)))
+		sr := io.NewSectionReader(r, si.folderOffset(folder)+offset, size)
+		in[input] = util.NopCloser(bufio.NewReader(&packedReader{sr, size}))
 		offset += size
 	}
 
-- 
2.43.0


From 30e6dad915247df3e841f4e55071f0e536b9121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 25/44] fix: don't drop a byte that is read together with an
 error

---
 internal/util/reader.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/util/reader.go b/internal/util/reader.go
index 21d2c94..b4022e2 100644
--- a/internal/util/reader.go
+++ b/internal/util/reader.go
@@ -46,15 +46,15 @@ func (rc *byteReadCloser) ReadByte() (byte, error) {
 	var b [1]byte
 
 	n, err := rc.Read(b[:])
-	if err != nil {
-		return 0, err //nolint:wrapcheck
+	if n > 0 {
+		return b[0], nil // Any error will be returned again by the next read
 	}
 
-	if n == 0 {
-		return 0, io.ErrNoProgress
+	if err != nil {
+		return 0, err //nolint:wrapcheck
 	}
 
-	return b[0], nil
+	return 0, io.ErrNoProgress
 }
 
 // ByteReadCloser returns a ReadCloser either by returning the io.ReadCloser
-- 
2.43.0


From a468b968be69840e903bc1650fd68a967819bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 26/44] fix: archives without SubStreamsInfo that have several
 folders

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index 58ec974..c09d28d 100644
--- a/struct.go
+++ b/struct.go
@@ -266,6 +266,9 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 		if len(si.subStreamsInfo.digest) > 0 {
 			crc = si.subStreamsInfo.digest[file]
 		}
+	} else {
+		// Every folder contains exactly one file
+		folder = file
 	}
 
 	if streams == 1 {
-- 
2.43.0


From 81472615d2e6de14ae1696fca6512fa9fc13b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 27/44] fix: panic on packed streams beyond the largest file
 offset

---
 types.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/types.go b/types.go
index cd43a0e..d544d18 100644
--- a/types.go
+++ b/types.go
@@ -246,6 +246,16 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 			return nil, err
 		}
 
+		// The offset of every byte needs to be representable
+		end := p.position
+		for _, size := range p.size {
+			if end > math.MaxInt64 || size > math.MaxInt64-end {
+				return nil, errInvalidSize
+			}
+
+			end += size
+		}
+
 		id, err = r.ReadByte()
 		if err != nil {
 			return nil, fmt.Errorf("readPackInfo: ReadByte error: %w", err)
-- 
2.43.0


From 597ea278732d9253e5f88051d9f0b0a86d2b0357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:22 +0000
Subject: [PATCH 28/44] fix: panic, or data made up, on damaged and truncated
 PPMd streams

---
 internal/ppmd/reader.go | 94 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 85 insertions(+), 9 deletions(-)

diff --git a/internal/ppmd/reader.go b/internal/ppmd/reader.go
index 22dabd7..ba4c8b5 100644
--- a/internal/ppmd/reader.go
+++ b/internal/ppmd/reader.go
@@ -13,19 +13,59 @@ import (
 var (
 	errAlreadyClosed          = errors.New("ppmd: already closed")
 	errNeedOneReader          = errors.New("ppmd: need exactly one reader")
+	errCorrupt                = errors.New("ppmd: corrupt data")
 	errInsufficientProperties = errors.New("ppmd: not enough properties")
 )
 
 type readCloser struct {
 	c io.Closer
 	r io.Reader
+
+	in  *input
+	err error
+}
+
+// input remembers any error reading the compressed data, including it ending
+// too early, as the decoder doesn't necessarily report it.
+type input struct {
+	r   io.Reader
+	err error
+}
+
+func (in *input) Read(p []byte) (int, error) {
+	if in.err != nil {
+		return 0, in.err
+	}
+
+	n, err := io.ReadFull(in.r, p)
+	if err != nil {
+		if errors.Is(err, io.EOF) {
+			err = io.ErrUnexpectedEOF
+		}
+
+		in.err = err
+	}
+
+	return n, in.err
+}
+
+// guard calls f and converts any panic into an error as the decoder isn't
+// hardened against damaged data.
+func guard(f func() error) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", errCorrupt, r)
+		}
+	}()
+
+	return f()
 }
 
 func (rc *readCloser) Close() error {
 	var err error
 	if rc.c != nil {
 		err = rc.c.Close()
-		rc.c, rc.r = nil, nil
+		rc.c, rc.r, rc.in = nil, nil, nil
 	}
 
 	if err != nil {
@@ -40,12 +80,40 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		return 0, errAlreadyClosed
 	}
 
-	n, err := rc.r.Read(p)
-	if err != nil && !errors.Is(err, io.EOF) {
-		err = fmt.Errorf("ppmd: error reading: %w", err)
+	if rc.err != nil {
+		return 0, rc.err
 	}
 
-	return n, err
+	n := 0
+
+	// Decode each byte on its own to not return any that were decoded
+	// without the necessary input
+	for n < len(p) && rc.err == nil {
+		var nn int
+
+		err := guard(func() (err error) {
+			nn, err = rc.r.Read(p[n : n+1])
+
+			return
+		})
+
+		if rc.in.err != nil {
+			nn, err = 0, rc.in.err
+		}
+
+		if err != nil && !errors.Is(err, io.EOF) {
+			nn, err = 0, fmt.Errorf("ppmd: error reading: %w", err)
+		}
+
+		n += nn
+		rc.err = err
+	}
+
+	if n > 0 {
+		return n, nil
+	}
+
+	return 0, rc.err
 }
 
 // NewReader returns a new PPMD io.ReadCloser.
@@ -61,13 +129,21 @@ func NewReader(p []byte, uncompressedSize uint64, readers []io.ReadCloser) (io.R
 	order := p[0]
 	memory := binary.LittleEndian.Uint32(p[1:])
 
-	pr, err := ppmd.NewH7zReader(readers[0], int(order), int(memory), int(uncompressedSize)) //nolint:gosec
-	if err != nil {
+	in := &input{r: readers[0]}
+
+	var pr ppmd.Reader
+
+	if err := guard(func() (err error) {
+		pr, err = ppmd.NewH7zReader(in, int(order), int(memory), int(uncompressedSize)) //nolint:gosec
+
+		return
+	}); err != nil {
 		return nil, fmt.Errorf("ppmd: error creating reader: %w", err)
 	}
 
 	return &readCloser{
-		c: readers[0],
-		r: &pr,
+		c:  readers[0],
+		r:  &pr,
+		in: in,
 	}, nil
 }
-- 
2.43.0


From 3239cc4cb7ad7798ae45bcec2713744b519a7206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:55 +0000
Subject: [PATCH 29/44] fix: input left over by a Brotli stream ends up in the
 next one

---
 internal/brotli/reader.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index e941dde..ca7b988 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -14,8 +14,10 @@ import (
 )
 
 type readCloser struct {
-	c io.Closer
-	r *brotli.Reader
+	c    io.Closer
+	r    *brotli.Reader
+	n    uint64
+	size uint64
 }
 
 const (
@@ -46,22 +48,43 @@ func (rc *readCloser) Close() error {
 		return errAlreadyClosed
 	}
 
+	recycle := rc.exhausted()
+
 	if err := rc.c.Close(); err != nil {
 		return fmt.Errorf("brotli: error closing: %w", err)
 	}
 
-	brotliReaderPool.Put(rc.r)
+	if recycle {
+		brotliReaderPool.Put(rc.r)
+	}
+
 	rc.c, rc.r = nil, nil
 
 	return nil
 }
 
+// exhausted returns if all of the stream has been read. Resetting a reader
+// doesn't discard any input left over, it would end up in the next stream.
+func (rc *readCloser) exhausted() bool {
+	if rc.n < rc.size {
+		return false
+	}
+
+	var b [1]byte
+
+	n, err := rc.r.Read(b[:])
+
+	return n == 0 && err == io.EOF //nolint:errorlint
+}
+
 func (rc *readCloser) Read(p []byte) (int, error) {
 	if rc.r == nil {
 		return 0, errAlreadyClosed
 	}
 
 	n, err := rc.r.Read(p)
+	rc.n += uint64(n) //nolint:gosec
+
 	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("brotli: error reading: %w", err)
 	}
@@ -70,7 +93,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 }
 
 // NewReader returns a new Brotli io.ReadCloser.
-func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+func NewReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
 	if len(readers) != 1 {
 		return nil, errNeedOneReader
 	}
@@ -106,7 +129,8 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	}
 
 	return &readCloser{
-		c: readers[0],
-		r: r,
+		c:    readers[0],
+		r:    r,
+		size: size,
 	}, nil
 }
-- 
2.43.0


From 80cb915c2adbbbc367b9d423e0bb9cc256d04904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:01 +0000
Subject: [PATCH 30/44] fix: a closed Zstandard stream is still read in the
 background

---
 internal/zstd/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/zstd/reader.go b/internal/zstd/reader.go
index 6817f1a..1444712 100644
--- a/internal/zstd/reader.go
+++ b/internal/zstd/reader.go
@@ -29,6 +29,9 @@ func (rc *readCloser) Close() error {
 		return errAlreadyClosed
 	}
 
+	// Stop the decoder, otherwise it may continue to read in the background
+	_ = rc.r.Reset(nil)
+
 	if err := rc.c.Close(); err != nil {
 		return fmt.Errorf("zstd: error closing: %w", err)
 	}
-- 
2.43.0


From c7777d9f7cc964865778621f8e8b6e1354ef2d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 31/44] fix: no encryption hint if a decoder fails before the
 cipher is set up

---
 register.go |  5 ++++-
 struct.go   | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/register.go b/register.go
index 30fb465..fc453aa 100644
--- a/register.go
+++ b/register.go
@@ -29,6 +29,9 @@ var (
 	//nolint:gochecknoglobals
 	decompressors sync.Map
 
+	//nolint:gochecknoglobals
+	methodAES = []byte{0x06, 0xf1, 0x07, 0x01}
+
 	errNeedOneReader = errors.New("copy: need exactly one reader")
 )
 
@@ -69,7 +72,7 @@ func init() {
 	// LZ4
 	RegisterDecompressor([]byte{0x04, 0xf7, 0x11, 0x04}, Decompressor(lz4.NewReader))
 	// AES-CBC-256 & SHA-256
-	RegisterDecompressor([]byte{0x06, 0xf1, 0x07, 0x01}, Decompressor(aes7z.NewReader))
+	RegisterDecompressor(methodAES, Decompressor(aes7z.NewReader))
 	// ARM64
 	RegisterDecompressor([]byte{0x0a}, Decompressor(bra.NewARM64Reader))
 	// LZMA2
diff --git a/struct.go b/struct.go
index c09d28d..4509700 100644
--- a/struct.go
+++ b/struct.go
@@ -2,6 +2,7 @@ package sevenzip
 
 import (
 	"bufio"
+	"bytes"
 	"errors"
 	"fmt"
 	"hash"
@@ -90,6 +91,18 @@ func (f *folder) findOutBindPair(i uint64) *bindPair {
 	return nil
 }
 
+// isEncrypted returns if any of the coders is the AES one. It's known before
+// the coders are instantiated, any of which may fail.
+func (f *folder) isEncrypted() bool {
+	for _, c := range f.coder {
+		if bytes.Equal(c.id, methodAES) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password string) (io.ReadCloser, bool, error) {
 	dcomp := decompressor(f.coder[coder].id)
 	if dcomp == nil {
@@ -317,7 +330,7 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 	}
 
 	var (
-		hasEncryption bool
+		hasEncryption = f.isEncrypted()
 		input, output uint64
 	)
 
-- 
2.43.0


From ca8b1a852a1090c503dbf05c3ac7fca80f5c7916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 32/44] fix: an LZMA stream cut short looks like its clean end
 to the next decoder

---
 internal/lzma/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index b8d277c..744b894 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -95,7 +95,7 @@ func (m *multiByteReader) ReadByte() (b byte, err error) {
 		b, err = m.br.ReadByte()
 	}
 
-	if err != nil {
+	if err != nil && err != io.EOF { //nolint:errorlint
 		err = fmt.Errorf("lzma: error multi byte reading: %w", err)
 	}
 
@@ -104,7 +104,7 @@ func (m *multiByteReader) ReadByte() (b byte, err error) {
 
 func (m *multiByteReader) Read(p []byte) (int, error) {
 	n, err := m.mr.Read(p)
-	if err != nil {
+	if err != nil && err != io.EOF { //nolint:errorlint
 		err = fmt.Errorf("lzma: error multi reading: %w", err)
 	}
 
-- 
2.43.0


From 0d616f7afced91b85544ebec9aceceefe7ea1ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 33/44] fix: no encryption hint if the decoder of an encrypted
 header only fails on closing

---
 reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index f6d6395..c0fb702 100644
--- a/reader.go
+++ b/reader.go
@@ -550,7 +550,12 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 		}
 
 		defer func() {
-			err = errors.Join(err, fr.Close())
+			if cerr := fr.Close(); cerr != nil {
+				err = errors.Join(err, &ReadError{
+					Encrypted: fr.hasEncryption,
+					Err:       cerr,
+				})
+			}
 		}()
 
 		if header, err = readEncodedHeader(util.ByteReadCloser(fr)); err != nil {
-- 
2.43.0


From 2954f714ffa3c16841eda64818059617af71472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 34/44] fix: made up data is returned together with an error of
 a bzip2 stream

---
 internal/bzip2/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/bzip2/reader.go b/internal/bzip2/reader.go
index 3e82498..a13bbef 100644
--- a/internal/bzip2/reader.go
+++ b/internal/bzip2/reader.go
@@ -39,7 +39,8 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 
 	n, err := rc.r.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
-		err = fmt.Errorf("bzip2: error reading: %w", err)
+		// Any data is made up, the decoder carries on with zero bits
+		return 0, fmt.Errorf("bzip2: error reading: %w", err)
 	}
 
 	return n, err
-- 
2.43.0


From d8ebe445be579e55089063bfc3b2909c0eeca72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 35/44] fix: reading on after an error delivers wrong data as
 if complete

---
 struct.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/struct.go b/struct.go
index 4509700..9333308 100644
--- a/struct.go
+++ b/struct.go
@@ -147,6 +147,21 @@ type folderReadCloser struct {
 	wc            *plumbing.WriteCounter
 	size          int64
 	hasEncryption bool
+	err           error
+}
+
+// Read makes errors permanent as decoders can't be relied upon after one.
+func (rc *folderReadCloser) Read(p []byte) (int, error) {
+	if rc.err != nil {
+		return 0, rc.err
+	}
+
+	n, err := rc.ReadCloser.Read(p)
+	if err != nil && err != io.EOF { //nolint:errorlint
+		rc.err = err
+	}
+
+	return n, err //nolint:wrapcheck
 }
 
 func (rc *folderReadCloser) Checksum() []byte {
-- 
2.43.0


From 300e7ab0fb32abd7cdbf9e1abc3035a7fe56ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:10 +0000
Subject: [PATCH 36/44] fix: the last bytes of a branch filter's truncated
 input are delivered unconverted

---
 internal/bra/arm.go    |  4 ++--
 internal/bra/arm64.go  |  4 ++--
 internal/bra/bcj.go    |  4 ++--
 internal/bra/ppc.go    |  4 ++--
 internal/bra/reader.go | 13 +++++++++++--
 internal/bra/sparc.go  |  4 ++--
 6 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/internal/bra/arm.go b/internal/bra/arm.go
index de8676f..5c88ea2 100644
--- a/internal/bra/arm.go
+++ b/internal/bra/arm.go
@@ -47,6 +47,6 @@ func (c *arm) Convert(b []byte, encoding bool) int {
 }
 
 // NewARMReader returns a new ARM io.ReadCloser.
-func NewARMReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(arm))
+func NewARMReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	return newReader(readers, new(arm), size)
 }
diff --git a/internal/bra/arm64.go b/internal/bra/arm64.go
index 128155c..1df5db0 100644
--- a/internal/bra/arm64.go
+++ b/internal/bra/arm64.go
@@ -73,6 +73,6 @@ func (c *arm64) Convert(b []byte, encoding bool) int {
 }
 
 // NewARM64Reader returns a new ARM64 io.ReadCloser.
-func NewARM64Reader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(arm64))
+func NewARM64Reader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	return newReader(readers, new(arm64), size)
 }
diff --git a/internal/bra/bcj.go b/internal/bra/bcj.go
index ed53803..d6ddd6f 100644
--- a/internal/bra/bcj.go
+++ b/internal/bra/bcj.go
@@ -99,6 +99,6 @@ func (c *bcj) Convert(b []byte, encoding bool) int {
 }
 
 // NewBCJReader returns a new BCJ io.ReadCloser.
-func NewBCJReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(bcj))
+func NewBCJReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	return newReader(readers, new(bcj), size)
 }
diff --git a/internal/bra/ppc.go b/internal/bra/ppc.go
index 48197a3..75e77bc 100644
--- a/internal/bra/ppc.go
+++ b/internal/bra/ppc.go
@@ -41,6 +41,6 @@ func (c *ppc) Convert(b []byte, encoding bool) int {
 }
 
 // NewPPCReader returns a new PPC io.ReadCloser.
-func NewPPCReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(ppc))
+func NewPPCReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	return newReader(readers, new(ppc), size)
 }
diff --git a/internal/bra/reader.go b/internal/bra/reader.go
index 0cbee98..4236d3d 100644
--- a/internal/bra/reader.go
+++ b/internal/bra/reader.go
@@ -12,6 +12,7 @@ type readCloser struct {
 	buf  bytes.Buffer
 	n    int
 	conv converter
+	left uint64 // how much input there should be
 }
 
 var (
@@ -38,7 +39,10 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		return 0, errAlreadyClosed
 	}
 
-	if _, err := io.CopyN(&rc.buf, rc.rc, int64(max(len(p), rc.conv.Size())-rc.buf.Len())); err != nil {
+	in, err := io.CopyN(&rc.buf, rc.rc, int64(max(len(p), rc.conv.Size())-rc.buf.Len()))
+	rc.left -= min(uint64(in), rc.left) //nolint:gosec
+
+	if err != nil {
 		if !errors.Is(err, io.EOF) {
 			return 0, fmt.Errorf("bra: error buffering: %w", err)
 		}
@@ -48,6 +52,10 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		}
 
 		if rc.buf.Len() < rc.conv.Size() {
+			if rc.left > 0 { // These bytes aren't the end of the stream so they may need converting
+				return 0, fmt.Errorf("bra: error buffering: %w", io.ErrUnexpectedEOF)
+			}
+
 			rc.n = rc.buf.Len()
 		}
 	}
@@ -64,7 +72,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	return n, err
 }
 
-func newReader(readers []io.ReadCloser, conv converter) (io.ReadCloser, error) {
+func newReader(readers []io.ReadCloser, conv converter, size uint64) (io.ReadCloser, error) {
 	if len(readers) != 1 {
 		return nil, errNeedOneReader
 	}
@@ -72,5 +80,6 @@ func newReader(readers []io.ReadCloser, conv converter) (io.ReadCloser, error) {
 	return &readCloser{
 		rc:   readers[0],
 		conv: conv,
+		left: size,
 	}, nil
 }
diff --git a/internal/bra/sparc.go b/internal/bra/sparc.go
index a39f3a2..5f758b5 100644
--- a/internal/bra/sparc.go
+++ b/internal/bra/sparc.go
@@ -48,6 +48,6 @@ func (c *sparc) Convert(b []byte, encoding bool) int {
 }
 
 // NewSPARCReader returns a new SPARC io.ReadCloser.
-func NewSPARCReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(sparc))
+func NewSPARCReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	return newReader(readers, new(sparc), size)
 }
-- 
2.43.0


From 9fb190479899c24259d9271c5da78e4562c00bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 37/44] fix: a missing packed stream passes as an empty one if
 there is encryption

---
 reader.go | 6 +++---
 struct.go | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index c0fb702..9458e01 100644
--- a/reader.go
+++ b/reader.go
@@ -135,12 +135,12 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 	return n, nil
 }
 
-// undecodable returns if an encrypted stream doesn't contain any data at all,
-// which is most likely due to a wrong password. Historically this is no error.
+// undecodable returns if an encrypted stream that isn't empty doesn't decode to
+// any data at all, which is most likely due to a wrong password. Historically this is no error.
 func (fr *fileReader) undecodable() bool {
 	frc, ok := fr.rc.(*folderReadCloser)
 
-	return ok && frc.hasEncryption && frc.wc.Count() == 0
+	return ok && frc.hasEncryption && frc.hasPacked && frc.wc.Count() == 0
 }
 
 func (fr *fileReader) Close() error {
diff --git a/struct.go b/struct.go
index 9333308..0daee3f 100644
--- a/struct.go
+++ b/struct.go
@@ -147,6 +147,7 @@ type folderReadCloser struct {
 	wc            *plumbing.WriteCounter
 	size          int64
 	hasEncryption bool
+	hasPacked     bool // There is something in every packed stream
 	err           error
 }
 
@@ -335,13 +336,14 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		packedOffset += len(si.unpackInfo.folder[i].packed)
 	}
 
-	offset := int64(0)
+	offset, hasPacked := int64(0), true
 
 	for i, input := range f.packed {
 		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
 		sr := io.NewSectionReader(r, si.folderOffset(folder)+offset, size)
 		in[input] = util.NopCloser(bufio.NewReader(&packedReader{sr, size}))
 		offset += size
+		hasPacked = hasPacked && size > 0
 	}
 
 	var (
@@ -415,6 +417,7 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 	}
 
 	fr := newFolderReadCloser(out[unbound[0]], int64(f.unpackSize()), hasEncryption) //nolint:gosec
+	fr.hasPacked = hasPacked
 
 	if si.unpackInfo.digest != nil {
 		return fr, si.unpackInfo.digest[folder], hasEncryption, nil
-- 
2.43.0


From e94af2297cc8bded16ce708c7aabada0a39fedfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:46 +0000
Subject: [PATCH 38/44] fix: reading across an empty volume fails

---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 9458e01..6d40e8c 100644
--- a/reader.go
+++ b/reader.go
@@ -264,7 +264,10 @@ func openReader(fs afero.Fs, name string) (io.ReaderAt, int64, []afero.File, err
 				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", errors.Join(errs...))
 			}
 
-			sr = append(sr, io.NewSectionReader(f, 0, info.Size()))
+			// Reading across an empty section is an error
+			if n := info.Size(); n > 0 {
+				sr = append(sr, io.NewSectionReader(f, 0, n))
+			}
 		}
 
 		mr := readerutil.NewMultiReaderAt(sr...)
-- 
2.43.0


From c9465eefe56e00c384c5b67001190e9f05ed7b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:53 +0000
Subject: [PATCH 39/44] fix: a handle whose Close fails still owns its reader

---
 reader.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/reader.go b/reader.go
index 6d40e8c..3e384e4 100644
--- a/reader.go
+++ b/reader.go
@@ -148,24 +148,26 @@ func (fr *fileReader) Close() error {
 		return nil
 	}
 
-	offset, err := fr.rc.Seek(0, io.SeekCurrent)
+	// Even if there is an error the reader is closed, or in the pool for others
+	rc := fr.rc
+	fr.rc = nil
+
+	offset, err := rc.Seek(0, io.SeekCurrent)
 	if err != nil {
-		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
+		return fmt.Errorf("sevenzip: error seeking current position: %w", errors.Join(err, rc.Close()))
 	}
 
-	if fr.failed || offset == fr.rc.Size() { // EOF reached, or not worth keeping
-		if err := fr.rc.Close(); err != nil {
+	if fr.failed || offset == rc.Size() { // EOF reached, or not worth keeping
+		if err := rc.Close(); err != nil {
 			return fmt.Errorf("sevenzip: error closing: %w", err)
 		}
 	} else {
 		f := fr.f
-		if _, err := f.zip.pool[f.folder].Put(offset, fr.rc); err != nil {
+		if _, err := f.zip.pool[f.folder].Put(offset, rc); err != nil {
 			return fmt.Errorf("sevenzip: error adding to pool: %w", err)
 		}
 	}
 
-	fr.rc = nil
-
 	return nil
 }
 
-- 
2.43.0


From a4acdf44d524eeb47240688a875844fc571fbbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 40/44] fix: Zstandard decoders dropped by the garbage
 collector are never freed

---
 internal/zstd/reader.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/zstd/reader.go b/internal/zstd/reader.go
index 1444712..4979ebd 100644
--- a/internal/zstd/reader.go
+++ b/internal/zstd/reader.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"runtime"
 	"sync"
 
 	"github.com/klauspost/compress/zstd"
@@ -72,8 +71,6 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		if r, err = zstd.NewReader(readers[0]); err != nil {
 			return nil, fmt.Errorf("zstd: error creating reader: %w", err)
 		}
-
-		runtime.SetFinalizer(r, (*zstd.Decoder).Close)
 	}
 
 	return &readCloser{
-- 
2.43.0


From 2a774ce522ed3ca4739c3b0afa1fb1a0e1477ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 41/44] fix: Brotli streams of several frames end with an error
 after the first one

---
 internal/brotli/reader.go | 59 +++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index ca7b988..4f5b0b3 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -14,10 +14,11 @@ import (
 )
 
 type readCloser struct {
-	c    io.Closer
-	r    *brotli.Reader
-	n    uint64
-	size uint64
+	c     io.ReadCloser
+	r     *brotli.Reader
+	frame *io.LimitedReader // What is left of the current frame, nil if there are no frames
+	n     uint64
+	size  uint64
 }
 
 const (
@@ -32,6 +33,7 @@ var (
 
 	errAlreadyClosed = errors.New("brotli: already closed")
 	errNeedOneReader = errors.New("brotli: need exactly one reader")
+	errInvalidFrame  = errors.New("brotli: invalid frame")
 )
 
 // This isn't part of the Brotli format but is prepended by the 7-zip implementation.
@@ -43,6 +45,10 @@ type headerFrame struct {
 	UncompressedSize uint16 // * 64 KB
 }
 
+func (hr *headerFrame) valid() bool {
+	return hr.FrameMagic == frameMagic && hr.FrameSize == frameSize && hr.BrotliMagic == brotliMagic
+}
+
 func (rc *readCloser) Close() error {
 	if rc.c == nil || rc.r == nil {
 		return errAlreadyClosed
@@ -83,6 +89,15 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	}
 
 	n, err := rc.r.Read(p)
+	for n == 0 && err == io.EOF && rc.frame != nil { //nolint:errorlint
+		// The end of a frame, there may be another one
+		if err = rc.nextFrame(); err != nil {
+			break
+		}
+
+		n, err = rc.r.Read(p)
+	}
+
 	rc.n += uint64(n) //nolint:gosec
 
 	if err != nil && !errors.Is(err, io.EOF) {
@@ -92,6 +107,22 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	return n, err
 }
 
+// nextFrame returns io.EOF if there are no more frames.
+func (rc *readCloser) nextFrame() error {
+	hr := new(headerFrame)
+	if err := binary.Read(rc.c, binary.LittleEndian, hr); err != nil {
+		return err //nolint:wrapcheck
+	}
+
+	if !hr.valid() {
+		return errInvalidFrame
+	}
+
+	rc.frame.N = int64(hr.CompressedSize)
+
+	return rc.r.Reset(rc.frame) //nolint:wrapcheck
+}
+
 // NewReader returns a new Brotli io.ReadCloser.
 func NewReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
 	if len(readers) != 1 {
@@ -111,12 +142,18 @@ func NewReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, e
 		}
 	}
 
-	var reader io.ReadCloser
+	rc := &readCloser{
+		c:    readers[0],
+		size: size,
+	}
+
+	var reader io.Reader
 
 	// If the header looks right, continue reading from that point
 	// onwards, otherwise prepend it again and hope for the best
-	if hr.FrameMagic == frameMagic && hr.FrameSize == frameSize && hr.BrotliMagic == brotliMagic {
-		reader = readers[0]
+	if hr.valid() {
+		rc.frame = &io.LimitedReader{R: readers[0], N: int64(hr.CompressedSize)}
+		reader = rc.frame
 	} else {
 		reader = plumbing.MultiReadCloser(io.NopCloser(b), readers[0])
 	}
@@ -128,9 +165,7 @@ func NewReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, e
 		r = brotli.NewReader(reader)
 	}
 
-	return &readCloser{
-		c:    readers[0],
-		r:    r,
-		size: size,
-	}, nil
+	rc.r = r
+
+	return rc, nil
 }
-- 
2.43.0


From 141d42e7612a066338aa1110f4bc632b0541e958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 42/44] fix: accept the largest LZMA2 dictionary

A dictionary size property of 40 stands for 4 GiB - 1, which is what
archives made with a dictionary beyond 3 GiB use. It was refused as out
of range on 64 bit platforms.
---
 internal/lzma2/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/lzma2/reader.go b/internal/lzma2/reader.go
index 59cca7b..ac1b4c4 100644
--- a/internal/lzma2/reader.go
+++ b/internal/lzma2/reader.go
@@ -66,6 +66,11 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		DictCap: (2 | (int(p[0]) & 1)) << (p[0]/2 + 11), // This gem came from Lzma2Dec.c
 	}
 
+	// The largest dictionary is one byte short of 4 GiB
+	if p[0] == 40 {
+		config.DictCap--
+	}
+
 	if err := config.Verify(); err != nil {
 		return nil, fmt.Errorf("lzma2: error verifying config: %w", err)
 	}
-- 
2.43.0


From c75a1f415e7436ac32ad92b9c4ed2e19fec47e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 43/44] fix: accept LZMA dictionaries of 2 GiB and more

The LZMA package refuses them unless it is told otherwise.
---
 internal/lzma/reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index 744b894..d451db7 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/ulikunitz/xz/lzma"
 )
@@ -57,7 +58,12 @@ func NewReader(p []byte, s uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	h := bytes.NewBuffer(p)
 	_ = binary.Write(h, binary.LittleEndian, s)
 
-	lr, err := lzma.NewReader(multiReader(h, readers[0]))
+	// The default is to refuse dictionaries of 2 GiB and more
+	config := lzma.ReaderConfig{
+		DictCap: min(lzma.MaxDictCap, math.MaxInt),
+	}
+
+	lr, err := config.NewReader(multiReader(h, readers[0]))
 	if err != nil {
 		return nil, fmt.Errorf("lzma: error creating reader: %w", err)
 	}
-- 
2.43.0


From 1161d7bd3d60e2ca8b11531fff97433696837680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 44/44] fix: honour the start address of the ARM64 filter

It's stored in the properties of the coder, which were ignored, so the
addresses in the code came out wrong.
---
 internal/bra/arm64.go  | 19 ++++++++++++++++---
 internal/bra/reader.go |  5 +++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/internal/bra/arm64.go b/internal/bra/arm64.go
index 1df5db0..da6b912 100644
--- a/internal/bra/arm64.go
+++ b/internal/bra/arm64.go
@@ -72,7 +72,20 @@ func (c *arm64) Convert(b []byte, encoding bool) int {
 	return i
 }
 
-// NewARM64Reader returns a new ARM64 io.ReadCloser.
-func NewARM64Reader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(arm64), size)
+// NewARM64Reader returns a new ARM64 io.ReadCloser. The properties may hold the
+// address of the first instruction, otherwise it's zero.
+func NewARM64Reader(p []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	c := new(arm64)
+
+	if len(p) > 0 {
+		if len(p) != arm64Alignment {
+			return nil, errInvalidProperties
+		}
+
+		if c.ip = binary.LittleEndian.Uint32(p); c.ip%arm64Alignment != 0 {
+			return nil, errInvalidProperties
+		}
+	}
+
+	return newReader(readers, c, size)
 }
diff --git a/internal/bra/reader.go b/internal/bra/reader.go
index 4236d3d..f201693 100644
--- a/internal/bra/reader.go
+++ b/internal/bra/reader.go
@@ -16,8 +16,9 @@ type readCloser struct {
 }
 
 var (
-	errAlreadyClosed = errors.New("bra: already closed")
-	errNeedOneReader = errors.New("bra: need exactly one reader")
+	errAlreadyClosed     = errors.New("bra: already closed")
+	errNeedOneReader     = errors.New("bra: need exactly one reader")
+	errInvalidProperties = errors.New("bra: invalid properties")
 )
 
 func (rc *readCloser) Close() error {
-- 
2.43.0

