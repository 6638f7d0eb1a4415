From 267cd8b6a4e557da2b77b6d6acbfdcdffdb9e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:49 +0000
Subject: [PATCH 01/50] fix: assign files to streams correctly without
 substreams info, reject surplus files

---
 reader.go |  4 +++-
 struct.go | 33 ++++++++++++++++++++++++++-------
 types.go  |  8 ++++++--
 3 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/reader.go b/reader.go
index 8ff32ef..d5530f0 100644
--- a/reader.go
+++ b/reader.go
@@ -542,7 +542,9 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 			}
 
 			if !fh.isEmptyStream && !fh.isEmptyFile {
-				f.folder, _, _ = header.streamsInfo.FileFolderAndSize(j)
+				if f.folder, _, _, err = header.streamsInfo.FileFolderAndSize(j); err != nil {
+					return err
+				}
 
 				// Make an exported copy of the folder index
 				f.Stream = f.folder
diff --git a/struct.go b/struct.go
index bb6ddca..d0ec676 100644
--- a/struct.go
+++ b/struct.go
@@ -24,6 +24,8 @@ var (
 	errMultipleOutputStreams = errors.New("more than one output stream")
 	errNoBoundStream         = errors.New("cannot find bound stream")
 	errNoUnboundStream       = errors.New("expecting one unbound output stream")
+	errTooManyFiles          = errors.New("sevenzip: more files than streams")
+	errMissingSizes          = errors.New("sevenzip: missing stream sizes")
 )
 
 // CryptoReadCloser adds a Password method to decompressors.
@@ -210,26 +212,39 @@ func (si *streamsInfo) Folders() int {
 	return 0
 }
 
-func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
+func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32, error) {
+	if si == nil || si.unpackInfo == nil {
+		return 0, 0, 0, errMissingUnpackInfo
+	}
+
 	var (
-		folder  int
+		folder         = file
 		streams uint64 = 1
+		found          = file < si.Folders()
 		crc     uint32
 	)
 
+	// Without any substreams information there is one file in each folder
 	if si.subStreamsInfo != nil {
 		total := uint64(0)
+		found = false
 
 		for folder, streams = range si.subStreamsInfo.streams {
 			total += streams
 			if uint64(file) < total { //nolint:gosec
+				found = true
+
 				break
 			}
 		}
+	}
 
-		if len(si.subStreamsInfo.digest) > 0 {
-			crc = si.subStreamsInfo.digest[file]
-		}
+	if !found {
+		return 0, 0, 0, errTooManyFiles
+	}
+
+	if si.subStreamsInfo != nil && len(si.subStreamsInfo.digest) > 0 {
+		crc = si.subStreamsInfo.digest[file]
 	}
 
 	if streams == 1 {
@@ -237,10 +252,14 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
-		return folder, si.unpackInfo.folder[folder].size[len(si.unpackInfo.folder[folder].coder)-1], crc
+		return folder, si.unpackInfo.folder[folder].size[len(si.unpackInfo.folder[folder].coder)-1], crc, nil
+	}
+
+	if file >= len(si.subStreamsInfo.size) {
+		return 0, 0, 0, errMissingSizes
 	}
 
-	return folder, si.subStreamsInfo.size[file], crc
+	return folder, si.subStreamsInfo.size[file], crc, nil
 }
 
 func (si *streamsInfo) folderOffset(folder int) int64 {
diff --git a/types.go b/types.go
index dfeb2b2..2a6cca3 100644
--- a/types.go
+++ b/types.go
@@ -939,7 +939,7 @@ func readHeader(r util.Reader) (*header, error) {
 		return nil, errUnexpectedID
 	}
 
-	if h.streamsInfo == nil || h.filesInfo == nil {
+	if h.filesInfo == nil {
 		return h, nil
 	}
 
@@ -950,7 +950,11 @@ func readHeader(r util.Reader) (*header, error) {
 			continue
 		}
 
-		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32 = h.streamsInfo.FileFolderAndSize(j)
+		fh := &h.filesInfo.file[i]
+		if _, fh.UncompressedSize, fh.CRC32, err = h.streamsInfo.FileFolderAndSize(j); err != nil {
+			return nil, err
+		}
+
 		j++
 	}
 
-- 
2.43.0


From f5c7ac1a3366861c3d1f9f43e9cf21e0aa441049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:55 +0000
Subject: [PATCH 02/50] fix: read digests of files when some folders have their
 own digest

---
 struct.go | 12 +++++++++---
 types.go  | 56 +++++++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/struct.go b/struct.go
index d0ec676..04025c4 100644
--- a/struct.go
+++ b/struct.go
@@ -188,8 +188,14 @@ func (f *folder) unpackSize() uint64 {
 }
 
 type unpackInfo struct {
-	folder []*folder
-	digest []uint32
+	folder  []*folder
+	digest  []uint32
+	defined []bool
+}
+
+// hasDigest returns true if there is a digest recorded for the folder.
+func (u *unpackInfo) hasDigest(folder int) bool {
+	return folder < len(u.defined) && u.defined[folder]
 }
 
 type subStreamsInfo struct {
@@ -248,7 +254,7 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32, error)
 	}
 
 	if streams == 1 {
-		if len(si.unpackInfo.digest) > 0 {
+		if si.unpackInfo.hasDigest(folder) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
diff --git a/types.go b/types.go
index 2a6cca3..9868fce 100644
--- a/types.go
+++ b/types.go
@@ -186,14 +186,14 @@ func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
 	return sizes, nil
 }
 
-func readCRC(r util.Reader, count uint64) ([]uint32, error) {
+func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
 	if err := checkUint64(count, true); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	defined, err := readOptionalBool(r, count)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	crcs := make([]uint32, count)
@@ -201,12 +201,12 @@ func readCRC(r util.Reader, count uint64) ([]uint32, error) {
 	for i := range defined {
 		if defined[i] {
 			if err := binary.Read(r, binary.LittleEndian, &crcs[i]); err != nil {
-				return nil, fmt.Errorf("readCRC: Read error: %w", err)
+				return nil, nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
 	}
 
-	return crcs, nil
+	return crcs, defined, nil
 }
 
 //nolint:cyclop
@@ -242,7 +242,7 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 	}
 
 	if id == idCRC {
-		if p.digest, err = readCRC(r, p.streams); err != nil {
+		if p.digest, _, err = readCRC(r, p.streams); err != nil {
 			return nil, err
 		}
 
@@ -466,7 +466,7 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 	}
 
 	if id == idCRC {
-		if u.digest, err = readCRC(r, folders); err != nil {
+		if u.digest, u.defined, err = readCRC(r, folders); err != nil {
 			return nil, err
 		}
 
@@ -483,8 +483,40 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 	return u, nil
 }
 
+// readSubStreamsDigests returns one digest for each file. A file that is alone
+// in a folder with a digest uses that one, so only the others are recorded.
+func readSubStreamsDigests(r util.Reader, u *unpackInfo, streams []uint64, files uint64) ([]uint32, error) {
+	unknown := files
+
+	for i, v := range streams {
+		if v == 1 && u.hasDigest(i) {
+			unknown--
+		}
+	}
+
+	crcs, _, err := readCRC(r, unknown)
+	if err != nil {
+		return nil, err
+	}
+
+	digest := make([]uint32, 0, files)
+
+	for i, v := range streams {
+		if v == 1 && u.hasDigest(i) {
+			digest = append(digest, u.digest[i])
+
+			continue
+		}
+
+		digest = append(digest, crcs[:v]...)
+		crcs = crcs[v:]
+	}
+
+	return digest, nil
+}
+
 //nolint:cyclop,funlen,gocognit
-func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error) {
+func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 	s := new(subStreamsInfo)
 
 	id, err := r.ReadByte()
@@ -492,7 +524,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 		return nil, fmt.Errorf("readSubStreamsInfo: ReadByte error: %w", err)
 	}
 
-	s.streams = make([]uint64, len(folder))
+	s.streams = make([]uint64, len(u.folder))
 	if id == idNumUnpackStream {
 		for i := range s.streams {
 			if s.streams[i], err = readUint64(r); err != nil {
@@ -540,7 +572,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 				k++
 			}
 
-			s.size[k] = folder[i].unpackSize() - total
+			s.size[k] = u.folder[i].unpackSize() - total
 			k++
 		}
 
@@ -551,7 +583,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 	}
 
 	if id == idCRC {
-		if s.digest, err = readCRC(r, files); err != nil {
+		if s.digest, err = readSubStreamsDigests(r, u, s.streams, files); err != nil {
 			return nil, err
 		}
 
@@ -604,7 +636,7 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 			return nil, errMissingUnpackInfo
 		}
 
-		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo.folder); err != nil {
+		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From 456c586dafbbee4001bef5f2ad59bb6d5cc63178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:55 +0000
Subject: [PATCH 03/50] fix: tolerate short reads of coder ids and properties
 in encoded headers

---
 types.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/types.go b/types.go
index 9868fce..e85dfbc 100644
--- a/types.go
+++ b/types.go
@@ -47,7 +47,6 @@ const (
 )
 
 var (
-	errIncompleteRead         = errors.New("sevenzip: incomplete read")
 	errUnexpectedID           = errors.New("sevenzip: unexpected id")
 	errMissingUnpackInfo      = errors.New("sevenzip: missing unpack info")
 	errWrongNumberOfFilenames = errors.New("sevenzip: wrong number of filenames")
@@ -269,12 +268,8 @@ func readCoder(r util.Reader) (*coder, error) {
 	}
 
 	c.id = make([]byte, v&0xf)
-	if n, err := r.Read(c.id); err != nil || n != int(v&0xf) {
-		if err != nil {
-			return nil, fmt.Errorf("readCoder: Read error: %w", err)
-		}
-
-		return nil, errIncompleteRead
+	if _, err := io.ReadFull(r, c.id); err != nil {
+		return nil, fmt.Errorf("readCoder: Read error: %w", err)
 	}
 
 	if v&0x10 != 0 {
@@ -298,12 +293,8 @@ func readCoder(r util.Reader) (*coder, error) {
 		}
 
 		c.properties = make([]byte, size)
-		if n, err := r.Read(c.properties); err != nil || uint64(n) != size { //nolint:gosec
-			if err != nil {
-				return nil, fmt.Errorf("readCoder: Read error: %w", err)
-			}
-
-			return nil, errIncompleteRead
+		if _, err := io.ReadFull(r, c.properties); err != nil {
+			return nil, fmt.Errorf("readCoder: Read error: %w", err)
 		}
 	}
 
-- 
2.43.0


From 102939a022fbdc9e972a378b9c52600e5677c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:12 +0000
Subject: [PATCH 04/50] fix: don't lose the last byte of an encoded header read
 with io.EOF

---
 internal/util/reader.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/util/reader.go b/internal/util/reader.go
index 21d2c94..8d40e27 100644
--- a/internal/util/reader.go
+++ b/internal/util/reader.go
@@ -45,15 +45,11 @@ type byteReadCloser struct {
 func (rc *byteReadCloser) ReadByte() (byte, error) {
 	var b [1]byte
 
-	n, err := rc.Read(b[:])
-	if err != nil {
+	// A byte may be returned together with an error
+	if _, err := io.ReadFull(rc, b[:]); err != nil {
 		return 0, err //nolint:wrapcheck
 	}
 
-	if n == 0 {
-		return 0, io.ErrNoProgress
-	}
-
 	return b[0], nil
 }
 
-- 
2.43.0


From a86c2fabe0fef7a70446e52551d228a86fd76882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 05/50] fix: decompress brotli data shorter than the optional
 frame header

---
 internal/brotli/reader.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index a07b764..9877d43 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -80,20 +80,18 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	// The 7-Zip Brotli compressor adds a 16 byte frame to the beginning of
 	// the data which will confuse a pure Brotli implementation. Read it
-	// but keep a copy so we can add it back if it doesn't look right
-	if err := binary.Read(io.TeeReader(readers[0], b), binary.LittleEndian, hr); err != nil {
-		if !errors.Is(err, io.EOF) {
-			err = fmt.Errorf("brotli: error reading frame: %w", err)
-		}
-
-		return nil, err
+	// but keep a copy so we can add it back if it doesn't look right, or if
+	// the data is shorter than a frame
+	err := binary.Read(io.TeeReader(readers[0], b), binary.LittleEndian, hr)
+	if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		return nil, fmt.Errorf("brotli: error reading frame: %w", err)
 	}
 
 	var reader io.ReadCloser
 
 	// If the header looks right, continue reading from that point
 	// onwards, otherwise prepend it again and hope for the best
-	if hr.FrameMagic == frameMagic && hr.FrameSize == frameSize && hr.BrotliMagic == brotliMagic {
+	if err == nil && hr.FrameMagic == frameMagic && hr.FrameSize == frameSize && hr.BrotliMagic == brotliMagic {
 		reader = readers[0]
 	} else {
 		reader = plumbing.MultiReadCloser(io.NopCloser(b), readers[0])
-- 
2.43.0


From 777aec59769e053a2b6a48ef74af38582769d0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:57 +0000
Subject: [PATCH 06/50] fix: support delta filter distance of 256

---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index 0926a17..d4dce31 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -84,6 +84,6 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	return &readCloser{
 		rc:    readers[0],
-		delta: int(p[0] + 1),
+		delta: int(p[0]) + 1,
 	}, nil
 }
-- 
2.43.0


From 15c2419b357c9dc4f82f76d1b8c6a7310f0f68ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:57 +0000
Subject: [PATCH 07/50] fix: return errors and io.EOF from the delta filter
 with the decoded bytes

---
 internal/delta/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index d4dce31..9221652 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -44,7 +44,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 
 	n, err := rc.rc.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
-		return n, fmt.Errorf("delta: error reading: %w", err)
+		err = fmt.Errorf("delta: error reading: %w", err)
 	}
 
 	var (
@@ -69,7 +69,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	copy(rc.state[:], buffer[j:rc.delta])
 	copy(rc.state[rc.delta-j:], buffer[:j])
 
-	return n, nil
+	return n, err
 }
 
 // NewReader returns a new Delta io.ReadCloser.
-- 
2.43.0


From 2d6dffad473cc4301b87daa38b5d9a81e2e0f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 08/50] fix: don't overwrite the AES properties when deriving
 the key

---
 internal/aes7z/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/aes7z/key.go b/internal/aes7z/key.go
index eb25326..a764b01 100644
--- a/internal/aes7z/key.go
+++ b/internal/aes7z/key.go
@@ -54,7 +54,8 @@ func calculateKey(password string, cycles int, salt []byte) ([]byte, error) {
 		return key, nil
 	}
 
-	b := bytes.NewBuffer(salt)
+	// The salt is part of the properties so must not be appended to directly
+	b := bytes.NewBuffer(bytes.Clone(salt))
 
 	// Convert password to UTF-16LE
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
-- 
2.43.0


From 6d6530b768ae23fb42067c65cf549d8f14bc192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 09/50] fix: make opened empty files usable as fs.File

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index d5530f0..cebcc63 100644
--- a/reader.go
+++ b/reader.go
@@ -149,7 +149,7 @@ func (fr *fileReader) Close() error {
 func (f *File) Open() (io.ReadCloser, error) {
 	if f.isEmptyStream || f.isEmptyFile {
 		// Return empty reader for directory or empty file
-		return io.NopCloser(bytes.NewReader(nil)), nil
+		return &fileReader{f: f}, nil
 	}
 
 	rc, _ := f.zip.pool[f.folder].Get(f.offset)
-- 
2.43.0


From a7739d78ab576fb4225aea62963971c851a1fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 10/50] fix: return an error when reading from a closed file

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index cebcc63..920cc23 100644
--- a/reader.go
+++ b/reader.go
@@ -96,6 +96,10 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return 0, io.EOF
 	}
 
+	if fr.rc == nil {
+		return 0, iofs.ErrClosed
+	}
+
 	if int64(len(p)) > fr.n {
 		p = p[0:fr.n]
 	}
-- 
2.43.0


From 624fdf95f883e4bf62b538ff0937070b50b94a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 11/50] fix: report io.ErrUnexpectedEOF when a file is cut
 short

---
 reader.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 920cc23..68aeb97 100644
--- a/reader.go
+++ b/reader.go
@@ -107,7 +107,21 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 	n, err := fr.rc.Read(p)
 	fr.n -= int64(n)
 
-	if err != nil && !errors.Is(err, io.EOF) {
+	if errors.Is(err, io.EOF) {
+		if fr.n == 0 {
+			return n, io.EOF
+		}
+
+		// The stream is shorter than it should be. With the wrong
+		// password there's no telling where the stream ends.
+		if frc, ok := fr.rc.(*folderReadCloser); ok && frc.hasEncryption {
+			return n, io.EOF
+		}
+
+		err = io.ErrUnexpectedEOF
+	}
+
+	if err != nil {
 		e := &ReadError{
 			Err: err,
 		}
@@ -119,7 +133,7 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return n, e
 	}
 
-	return n, err //nolint:wrapcheck
+	return n, nil
 }
 
 func (fr *fileReader) Close() error {
-- 
2.43.0


From 77c541091ef72b6147263c98465fc97daf0f64ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 12/50] fix: never continue or reuse a stream after a read
 error

---
 reader.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 68aeb97..eb89186 100644
--- a/reader.go
+++ b/reader.go
@@ -78,9 +78,10 @@ type File struct {
 }
 
 type fileReader struct {
-	rc util.SizeReadSeekCloser
-	f  *File
-	n  int64
+	rc  util.SizeReadSeekCloser
+	f   *File
+	n   int64
+	err error
 }
 
 func (fr *fileReader) Stat() (iofs.FileInfo, error) {
@@ -100,6 +101,11 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return 0, iofs.ErrClosed
 	}
 
+	// The state of the decompressors is unknown after an error
+	if fr.err != nil {
+		return 0, fr.err
+	}
+
 	if int64(len(p)) > fr.n {
 		p = p[0:fr.n]
 	}
@@ -130,6 +136,8 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 			e.Encrypted = frc.hasEncryption
 		}
 
+		fr.err = e
+
 		return n, e
 	}
 
@@ -146,7 +154,7 @@ func (fr *fileReader) Close() error {
 		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
 	}
 
-	if offset == fr.rc.Size() { // EOF reached
+	if fr.err != nil || offset == fr.rc.Size() { // Failed or EOF reached
 		if err := fr.rc.Close(); err != nil {
 			return fmt.Errorf("sevenzip: error closing: %w", err)
 		}
-- 
2.43.0


From ec47b0afc1320de49c20d4e53a3e7ccf37d2cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 13/50] fix: close the stream when seeking to a file in it
 fails

---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index eb89186..a52ec48 100644
--- a/reader.go
+++ b/reader.go
@@ -203,6 +203,8 @@ func (f *File) Open() (io.ReadCloser, error) {
 			e.Encrypted = fr.hasEncryption
 		}
 
+		_ = rc.Close()
+
 		return nil, e
 	}
 
-- 
2.43.0


From 6cedbc4fc03ca052ebf55363cf13931b294af7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 14/50] fix: close readers that are not added to the pool

---
 internal/pool/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/pool/pool.go b/internal/pool/pool.go
index bd7194d..2395715 100644
--- a/internal/pool/pool.go
+++ b/internal/pool/pool.go
@@ -87,8 +87,9 @@ func (p *pool) Put(offset int64, rc util.SizeReadSeekCloser) (bool, error) {
 	p.mutex.Lock()
 	defer p.mutex.Unlock()
 
+	// One reader for each offset is sufficient
 	if _, ok := p.items[offset]; ok {
-		return false, nil
+		return false, rc.Close() //nolint:wrapcheck
 	}
 
 	ent := &entry{offset, rc}
-- 
2.43.0


From f54797bc1e10f0de937d51c0d595b72cadb01961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 15/50] fix: validate the streams of folders instead of
 panicking

---
 struct.go | 24 ++++++++++++++++++++++++
 types.go  | 37 +++++++++++++++++++++++++++++--------
 2 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/struct.go b/struct.go
index 04025c4..10a3c92 100644
--- a/struct.go
+++ b/struct.go
@@ -92,6 +92,30 @@ func (f *folder) findOutBindPair(i uint64) *bindPair {
 	return nil
 }
 
+// validate checks that every input stream of the folder is either bound to a
+// different output stream or is a different packed stream.
+func (f *folder) validate() error {
+	in, out := make([]bool, f.in), make([]bool, f.out)
+
+	for _, v := range f.bindPair {
+		if v.in >= f.in || v.out >= f.out || in[v.in] || out[v.out] {
+			return errInvalidBindPair
+		}
+
+		in[v.in], out[v.out] = true, true
+	}
+
+	for _, v := range f.packed {
+		if v >= f.in || in[v] {
+			return errInvalidPackedStream
+		}
+
+		in[v] = true
+	}
+
+	return nil
+}
+
 func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password string) (io.ReadCloser, bool, error) {
 	dcomp := decompressor(f.coder[coder].id)
 	if dcomp == nil {
diff --git a/types.go b/types.go
index e85dfbc..9a14f44 100644
--- a/types.go
+++ b/types.go
@@ -46,6 +46,10 @@ const (
 	idDummy
 )
 
+// maxFolderStreams limits the number of coders and streams in a folder, this
+// is the same limit the reference implementation has.
+const maxFolderStreams = 64
+
 var (
 	errUnexpectedID           = errors.New("sevenzip: unexpected id")
 	errMissingUnpackInfo      = errors.New("sevenzip: missing unpack info")
@@ -53,6 +57,8 @@ var (
 	errUint64NonZero          = errors.New("sevenzip: uint64 value must be non-zero")
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
+	errInvalidPackedStream    = errors.New("sevenzip: invalid packed stream")
+	errMissingPackInfo        = errors.New("sevenzip: missing pack info")
 )
 
 func checkUint64(v uint64, nonZero bool) error {
@@ -310,7 +316,11 @@ func readFolder(r util.Reader) (*folder, error) {
 		return nil, err
 	}
 
-	f.coder = make([]*coder, 0, min(coders, 16))
+	if coders > maxFolderStreams {
+		return nil, errUint64TooLarge
+	}
+
+	f.coder = make([]*coder, 0, coders)
 
 	for range coders {
 		coder, err := readCoder(r)
@@ -324,12 +334,8 @@ func readFolder(r util.Reader) (*folder, error) {
 		f.out += coder.out
 	}
 
-	if err := checkUint64(f.in, true); err != nil {
-		return nil, err
-	}
-
-	if err := checkUint64(f.out, true); err != nil {
-		return nil, err
+	if f.in > maxFolderStreams || f.out > maxFolderStreams {
+		return nil, errUint64TooLarge
 	}
 
 	if f.in < f.out {
@@ -338,7 +344,7 @@ func readFolder(r util.Reader) (*folder, error) {
 
 	bindPairs := f.out - 1
 
-	f.bindPair = make([]*bindPair, 0, min(bindPairs, 16))
+	f.bindPair = make([]*bindPair, 0, bindPairs)
 
 	for range bindPairs {
 		in, err := readUint64Bounded(r, false)
@@ -375,6 +381,10 @@ func readFolder(r util.Reader) (*folder, error) {
 		}
 	}
 
+	if err := f.validate(); err != nil {
+		return nil, err
+	}
+
 	return f, nil
 }
 
@@ -641,6 +651,17 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 		return nil, errUnexpectedID
 	}
 
+	// There has to be a packed stream with a known size for every folder input
+	packed := 0
+
+	for i := range s.Folders() {
+		packed += len(s.unpackInfo.folder[i].packed)
+	}
+
+	if packed > 0 && (s.packInfo == nil || packed > len(s.packInfo.size)) {
+		return nil, errMissingPackInfo
+	}
+
 	return s, nil
 }
 
-- 
2.43.0


From 265f4e40153334e2ba7c2c8f7506deeb05cfcfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:01 +0000
Subject: [PATCH 16/50] fix: reject impossible stream sizes and counts

---
 types.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/types.go b/types.go
index 9a14f44..3fd15a1 100644
--- a/types.go
+++ b/types.go
@@ -58,6 +58,7 @@ var (
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
 	errInvalidPackedStream    = errors.New("sevenzip: invalid packed stream")
+	errInvalidSize            = errors.New("sevenzip: invalid stream size")
 	errMissingPackInfo        = errors.New("sevenzip: missing pack info")
 )
 
@@ -458,6 +459,10 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 			if f.size[i], err = readUint64(r); err != nil {
 				return nil, err
 			}
+
+			if f.size[i] > math.MaxInt64 {
+				return nil, errInvalidSize
+			}
 		}
 	}
 
@@ -545,7 +550,12 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 
 	// Count the files in each stream
 	files := uint64(0)
+
 	for _, v := range s.streams {
+		if err := checkUint64(v, false); err != nil {
+			return nil, err
+		}
+
 		files += v
 	}
 
@@ -569,6 +579,10 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 					return nil, err
 				}
 
+				if s.size[k] > u.folder[i].unpackSize()-total {
+					return nil, errInvalidSize
+				}
+
 				total += s.size[k]
 				k++
 			}
-- 
2.43.0


From 5fcb291d9f4332e90bcf24ef0ff69b459edff1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 17/50] fix: read timestamps before 1678 and after 2262
 correctly

---
 types.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 3fd15a1..20f8ff3 100644
--- a/types.go
+++ b/types.go
@@ -679,6 +679,19 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 	return s, nil
 }
 
+// filetimeToTime covers the whole range of a FILETIME, which exceeds what can
+// be represented as nanoseconds since the Unix epoch.
+func filetimeToTime(ft windows.Filetime) time.Time {
+	const (
+		intervals = 10_000_000     // 100 ns intervals per second
+		epoch     = 11_644_473_600 // seconds between 1601 and 1970
+	)
+
+	v := uint64(ft.HighDateTime)<<32 | uint64(ft.LowDateTime)
+
+	return time.Unix(int64(v/intervals)-epoch, int64(v%intervals)*100).UTC() //nolint:gosec,mnd
+}
+
 func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -717,7 +730,7 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
 			}
 
-			times[i] = time.Unix(0, ft.Nanoseconds()).UTC()
+			times[i] = filetimeToTime(ft)
 		}
 	}
 
-- 
2.43.0


From 90e173f7dc2b111e89629b36f46561e97af4f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 18/50] fix: list the size of the unbound stream for any order
 of coders

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 10a3c92..a8fcaf5 100644
--- a/struct.go
+++ b/struct.go
@@ -282,7 +282,7 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32, error)
 			crc = si.unpackInfo.digest[folder]
 		}
 
-		return folder, si.unpackInfo.folder[folder].size[len(si.unpackInfo.folder[folder].coder)-1], crc, nil
+		return folder, si.unpackInfo.folder[folder].unpackSize(), crc, nil
 	}
 
 	if file >= len(si.subStreamsInfo.size) {
-- 
2.43.0


From 133c5ec75cb79a0f7235ea5fbd63b74561e5cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 19/50] fix: don't allocate memory based on unverified counts
 in the header

---
 struct.go |   3 +-
 types.go  | 105 +++++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 74 insertions(+), 34 deletions(-)

diff --git a/struct.go b/struct.go
index a8fcaf5..62c6803 100644
--- a/struct.go
+++ b/struct.go
@@ -388,7 +388,8 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 }
 
 type filesInfo struct {
-	file []FileHeader
+	files uint64
+	file  []FileHeader
 }
 
 type header struct {
diff --git a/types.go b/types.go
index 20f8ff3..9b20900 100644
--- a/types.go
+++ b/types.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"math"
 	"math/bits"
+	"slices"
 	"time"
 
 	"github.com/bodgit/sevenzip/internal/util"
@@ -148,6 +149,7 @@ func readBool(r io.ByteReader, count uint64) ([]bool, error) {
 	return defined, nil
 }
 
+// readOptionalBool returns nil if all of the values are true.
 func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -162,12 +164,7 @@ func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 		return readBool(r, count)
 	}
 
-	defined := make([]bool, count)
-	for i := range defined {
-		defined[i] = true
-	}
-
-	return defined, nil
+	return nil, nil
 }
 
 func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
@@ -202,17 +199,25 @@ func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
 		return nil, nil, err
 	}
 
-	crcs := make([]uint32, count)
+	// As above, don't trust the count before the values have been read
+	crcs, valid := make([]uint32, 0, min(count, 1024)), make([]bool, 0, min(count, 1024))
 
-	for i := range defined {
-		if defined[i] {
-			if err := binary.Read(r, binary.LittleEndian, &crcs[i]); err != nil {
+	for i := range count {
+		var (
+			crc uint32
+			ok  = defined == nil || defined[i]
+		)
+
+		if ok {
+			if err := binary.Read(r, binary.LittleEndian, &crc); err != nil {
 				return nil, nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
+
+		crcs, valid = append(crcs, crc), append(valid, ok)
 	}
 
-	return crcs, defined, nil
+	return crcs, valid, nil
 }
 
 //nolint:cyclop
@@ -299,10 +304,12 @@ func readCoder(r util.Reader) (*coder, error) {
 			return nil, err
 		}
 
-		c.properties = make([]byte, size)
-		if _, err := io.ReadFull(r, c.properties); err != nil {
+		var b bytes.Buffer
+		if _, err := io.CopyN(&b, r, int64(size)); err != nil { //nolint:gosec
 			return nil, fmt.Errorf("readCoder: Read error: %w", err)
 		}
+
+		c.properties = slices.Clip(b.Bytes())
 	}
 
 	return c, nil
@@ -505,7 +512,7 @@ func readSubStreamsDigests(r util.Reader, u *unpackInfo, streams []uint64, files
 		return nil, err
 	}
 
-	digest := make([]uint32, 0, files)
+	digest := make([]uint32, 0, min(files, 1024))
 
 	for i, v := range streams {
 		if v == 1 && u.hasDigest(i) {
@@ -564,8 +571,7 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 	}
 
 	if id == idSize {
-		s.size = make([]uint64, files)
-		k := 0
+		s.size = make([]uint64, 0, min(files, 1024))
 
 		for i := range s.streams {
 			if s.streams[i] == 0 {
@@ -575,20 +581,20 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 			total := uint64(0)
 
 			for j := uint64(1); j < s.streams[i]; j++ {
-				if s.size[k], err = readUint64(r); err != nil {
+				size, err := readUint64(r)
+				if err != nil {
 					return nil, err
 				}
 
-				if s.size[k] > u.folder[i].unpackSize()-total {
+				if size > u.folder[i].unpackSize()-total {
 					return nil, errInvalidSize
 				}
 
-				total += s.size[k]
-				k++
+				s.size = append(s.size, size)
+				total += size
 			}
 
-			s.size[k] = u.folder[i].unpackSize() - total
-			k++
+			s.size = append(s.size, u.folder[i].unpackSize()-total)
 		}
 
 		id, err = r.ReadByte()
@@ -721,17 +727,21 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 		return nil, errors.New("sevenzip: TODO readTimes external") //nolint:err113
 	}
 
-	times := make([]time.Time, count)
+	times := make([]time.Time, 0, min(count, 1024))
 
-	for i := range defined {
-		if defined[i] {
+	for i := range count {
+		var t time.Time
+
+		if defined == nil || defined[i] {
 			var ft windows.Filetime
 			if err := binary.Read(r, binary.LittleEndian, &ft); err != nil {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
 			}
 
-			times[i] = filetimeToTime(ft)
+			t = filetimeToTime(ft)
 		}
+
+		times = append(times, t)
 	}
 
 	return times, nil
@@ -781,7 +791,7 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 	scanner := bufio.NewScanner(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
 	scanner.Split(splitNull)
 
-	names, i := make([]string, 0, count), uint64(0)
+	names, i := make([]string, 0, min(count, 1024)), uint64(0)
 	for scanner.Scan() {
 		names = append(names, scanner.Text())
 		i++
@@ -827,14 +837,18 @@ func readAttributes(r util.Reader, count uint64) ([]uint32, error) {
 		return nil, errors.New("sevenzip: TODO readAttributes external") //nolint:err113
 	}
 
-	attributes := make([]uint32, count)
+	attributes := make([]uint32, 0, min(count, 1024))
+
+	for i := range count {
+		var attribute uint32
 
-	for i := range defined {
-		if defined[i] {
-			if err := binary.Read(r, binary.LittleEndian, &attributes[i]); err != nil {
+		if defined == nil || defined[i] {
+			if err := binary.Read(r, binary.LittleEndian, &attribute); err != nil {
 				return nil, fmt.Errorf("readAttributes: Read error: %w", err)
 			}
 		}
+
+		attributes = append(attributes, attribute)
 	}
 
 	return attributes, nil
@@ -849,7 +863,15 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 		return nil, err
 	}
 
-	f.file = make([]FileHeader, files)
+	f.files = files
+
+	// As with the individual properties, don't trust the number of files
+	// until there has been a property read for all of them
+	allocate := func() {
+		if f.file == nil {
+			f.file = make([]FileHeader, files)
+		}
+	}
 
 	var emptyStreams uint64
 
@@ -875,6 +897,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i := range f.file {
 				f.file[i].isEmptyStream = empty[i]
 
@@ -902,6 +926,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, t := range times {
 				f.file[i].Created = t
 			}
@@ -911,6 +937,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, t := range times {
 				f.file[i].Accessed = t
 			}
@@ -920,6 +948,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, t := range times {
 				f.file[i].Modified = t
 			}
@@ -929,6 +959,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, n := range names {
 				f.file[i].Name = n
 			}
@@ -938,6 +970,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, a := range attributes {
 				f.file[i].Attributes = a
 			}
@@ -1016,7 +1050,12 @@ func readHeader(r util.Reader) (*header, error) {
 
 	j := 0
 
-	for i := range h.filesInfo.file {
+	for i := range h.filesInfo.files {
+		// There may be nothing known about the files except their number
+		if i == uint64(len(h.filesInfo.file)) {
+			h.filesInfo.file = append(h.filesInfo.file, FileHeader{})
+		}
+
 		if h.filesInfo.file[i].isEmptyStream {
 			continue
 		}
-- 
2.43.0


From d5afe136590db16c135190e2f4edb9cb4f7252f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 20/50] fix: find the start of small multi-volume archives, do
 not read past the given size

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index a52ec48..a0e7092 100644
--- a/reader.go
+++ b/reader.go
@@ -410,6 +410,10 @@ func findSignature(r io.ReaderAt, search []byte) ([]int64, error) {
 
 //nolint:cyclop,funlen,gocognit,gocyclo,maintidx
 func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
+	// Anything beyond the given size isn't part of the archive. This also
+	// makes sure io.EOF is always returned when reading past the end.
+	r = io.NewSectionReader(r, 0, size)
+
 	h := crc32.NewIEEE()
 	tra := plumbing.TeeReaderAt(r, h)
 
-- 
2.43.0


From 37b5cedf16b8aa7b8cdb27c99b88e3c090b4b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 21/50] fix: read multi-volume archives with empty volumes

---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index a0e7092..ab7c634 100644
--- a/reader.go
+++ b/reader.go
@@ -267,7 +267,10 @@ func openReader(fs afero.Fs, name string) (io.ReaderAt, int64, []afero.File, err
 				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", errors.Join(errs...))
 			}
 
-			sr = append(sr, io.NewSectionReader(f, 0, info.Size()))
+			// Reading an empty part is always the end of the file
+			if size := info.Size(); size > 0 {
+				sr = append(sr, io.NewSectionReader(f, 0, size))
+			}
 		}
 
 		mr := readerutil.NewMultiReaderAt(sr...)
-- 
2.43.0


From b455c8219718ef0134269d4dacfd03f121bda189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 22/50] fix: wrap checksum errors of encoded headers with the
 encryption hint

---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index ab7c634..0efe3be 100644
--- a/reader.go
+++ b/reader.go
@@ -553,7 +553,10 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 		}
 
 		if crc != 0 && !util.CRC32Equal(fr.Checksum(), crc) {
-			return errChecksum
+			return &ReadError{
+				Encrypted: fr.hasEncryption,
+				Err:       errChecksum,
+			}
 		}
 	}
 
-- 
2.43.0


From a1cde577f2bd907d825ee5a79355fad894505b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 23/50] fix: keep the encryption hint when setting the password
 fails

---
 struct.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 62c6803..302e94e 100644
--- a/struct.go
+++ b/struct.go
@@ -354,14 +354,14 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		)
 
 		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
-		if err != nil {
-			return nil, 0, hasEncryption, err
-		}
-
 		if isEncrypted {
 			hasEncryption = true
 		}
 
+		if err != nil {
+			return nil, 0, hasEncryption, err
+		}
+
 		input += c.in
 		output += c.out
 	}
-- 
2.43.0


From a280e8956d079139d3f6e9adda5577afc9c6f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 24/50] fix: leave out entries from the file system that have
 no valid path

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 0efe3be..9c381a0 100644
--- a/reader.go
+++ b/reader.go
@@ -718,7 +718,7 @@ func (z *Reader) initFileList() {
 			isDir := len(file.Name) > 0 && file.Name[len(file.Name)-1] == '/'
 
 			name := toValidName(file.Name)
-			if name == "" {
+			if name == "." || !iofs.ValidPath(name) {
 				continue
 			}
 
-- 
2.43.0


From 4d97124a795755514f147db4f597b0c0b8e9fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 25/50] fix: use the same name for a file as the file system
 does

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 302e94e..491eb5b 100644
--- a/struct.go
+++ b/struct.go
@@ -425,7 +425,7 @@ type headerFileInfo struct {
 	fh *FileHeader
 }
 
-func (fi headerFileInfo) Name() string        { return path.Base(fi.fh.Name) }
+func (fi headerFileInfo) Name() string        { return path.Base(toValidName(fi.fh.Name)) }
 func (fi headerFileInfo) Size() int64         { return int64(fi.fh.UncompressedSize) } //nolint:gosec
 func (fi headerFileInfo) IsDir() bool         { return fi.Mode().IsDir() }
 func (fi headerFileInfo) ModTime() time.Time  { return fi.fh.Modified.UTC() }
-- 
2.43.0


From 22c93a75f578eb2646bb2d211833f3d2ca3342a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 26/50] fix: decode ARM code beyond 4 GiB correctly

---
 internal/bra/arm.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/bra/arm.go b/internal/bra/arm.go
index de8676f..ab1f7ee 100644
--- a/internal/bra/arm.go
+++ b/internal/bra/arm.go
@@ -18,10 +18,6 @@ func (c *arm) Convert(b []byte, encoding bool) int {
 		return 0
 	}
 
-	if c.ip == 0 {
-		c.ip = armAlignment
-	}
-
 	var i int
 
 	for i = 0; i < len(b) & ^(armAlignment-1); i += armAlignment {
@@ -48,5 +44,5 @@ func (c *arm) Convert(b []byte, encoding bool) int {
 
 // NewARMReader returns a new ARM io.ReadCloser.
 func NewARMReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(arm))
+	return newReader(readers, &arm{ip: armAlignment})
 }
-- 
2.43.0


From 4fe70ee2ed96c48d696be9c746a10704327f806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 27/50] fix: don't reuse brotli readers that have buffered
 input

---
 internal/brotli/reader.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index 9877d43..8988d17 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -14,8 +14,9 @@ import (
 )
 
 type readCloser struct {
-	c io.Closer
-	r *brotli.Reader
+	c   io.Closer
+	r   *brotli.Reader
+	eof bool
 }
 
 const (
@@ -50,7 +51,12 @@ func (rc *readCloser) Close() error {
 		return fmt.Errorf("brotli: error closing: %w", err)
 	}
 
-	brotliReaderPool.Put(rc.r)
+	// Resetting a reader doesn't discard any input it has buffered, so only
+	// reuse it if there is none left
+	if rc.eof {
+		brotliReaderPool.Put(rc.r)
+	}
+
 	rc.c, rc.r = nil, nil
 
 	return nil
@@ -62,7 +68,9 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	}
 
 	n, err := rc.r.Read(p)
-	if err != nil && !errors.Is(err, io.EOF) {
+	rc.eof = errors.Is(err, io.EOF)
+
+	if err != nil && !rc.eof {
 		err = fmt.Errorf("brotli: error reading: %w", err)
 	}
 
-- 
2.43.0


From 6dc6378fb62776c2b6b34f45b67ae6a0f6c12a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 28/50] fix: stop the zstd decoder before closing what it reads
 from

---
 internal/zstd/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/zstd/reader.go b/internal/zstd/reader.go
index 6817f1a..fb566ba 100644
--- a/internal/zstd/reader.go
+++ b/internal/zstd/reader.go
@@ -29,6 +29,11 @@ func (rc *readCloser) Close() error {
 		return errAlreadyClosed
 	}
 
+	// Wait for anything still reading ahead before closing what it reads from
+	if err := rc.r.Reset(nil); err != nil {
+		return fmt.Errorf("zstd: error resetting: %w", err)
+	}
+
 	if err := rc.c.Close(); err != nil {
 		return fmt.Errorf("zstd: error closing: %w", err)
 	}
-- 
2.43.0


From 81b2e4fdf0b00c11f6e8a9ddfe65f665e95f92e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 29/50] fix: report read errors and invalid data in PPMd
 streams

---
 internal/ppmd/reader.go | 79 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 70 insertions(+), 9 deletions(-)

diff --git a/internal/ppmd/reader.go b/internal/ppmd/reader.go
index 22dabd7..0bb6322 100644
--- a/internal/ppmd/reader.go
+++ b/internal/ppmd/reader.go
@@ -12,13 +12,41 @@ import (
 
 var (
 	errAlreadyClosed          = errors.New("ppmd: already closed")
+	errInvalidData            = errors.New("ppmd: invalid data")
 	errNeedOneReader          = errors.New("ppmd: need exactly one reader")
 	errInsufficientProperties = errors.New("ppmd: not enough properties")
 )
 
+// errReader remembers the first error, which the decoder doesn't always
+// return.
+type errReader struct {
+	r   io.Reader
+	err error
+}
+
+func (er *errReader) Read(p []byte) (int, error) {
+	if er.err != nil {
+		return 0, er.err
+	}
+
+	// The decoder can't deal with reading nothing without an error
+	n, err := io.ReadAtLeast(er.r, p, 1)
+	if err != nil {
+		if errors.Is(err, io.EOF) {
+			err = io.ErrUnexpectedEOF
+		}
+
+		er.err = err
+	}
+
+	return n, err //nolint:wrapcheck
+}
+
 type readCloser struct {
-	c io.Closer
-	r io.Reader
+	c   io.Closer
+	r   io.Reader
+	in  *errReader
+	err error
 }
 
 func (rc *readCloser) Close() error {
@@ -40,12 +68,42 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		return 0, errAlreadyClosed
 	}
 
-	n, err := rc.r.Read(p)
-	if err != nil && !errors.Is(err, io.EOF) {
-		err = fmt.Errorf("ppmd: error reading: %w", err)
+	if rc.err != nil {
+		return 0, rc.err
 	}
 
-	return n, err
+	// Decode one byte at a time as the decoder carries on regardless when
+	// it can't read any more
+	for i := range p {
+		if err := rc.readByte(p[i : i+1]); err != nil {
+			rc.err = err
+
+			return i, err
+		}
+	}
+
+	return len(p), nil
+}
+
+func (rc *readCloser) readByte(p []byte) (err error) {
+	// The decoder panics on some invalid input
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", errInvalidData, r)
+		}
+
+		if rc.in.err != nil {
+			err = rc.in.err
+		}
+
+		if err != nil && !errors.Is(err, io.EOF) {
+			err = fmt.Errorf("ppmd: error reading: %w", err)
+		}
+	}()
+
+	_, err = io.ReadFull(rc.r, p)
+
+	return err //nolint:wrapcheck
 }
 
 // NewReader returns a new PPMD io.ReadCloser.
@@ -61,13 +119,16 @@ func NewReader(p []byte, uncompressedSize uint64, readers []io.ReadCloser) (io.R
 	order := p[0]
 	memory := binary.LittleEndian.Uint32(p[1:])
 
-	pr, err := ppmd.NewH7zReader(readers[0], int(order), int(memory), int(uncompressedSize)) //nolint:gosec
+	in := &errReader{r: readers[0]}
+
+	pr, err := ppmd.NewH7zReader(in, int(order), int(memory), int(uncompressedSize)) //nolint:gosec
 	if err != nil {
 		return nil, fmt.Errorf("ppmd: error creating reader: %w", err)
 	}
 
 	return &readCloser{
-		c: readers[0],
-		r: &pr,
+		c:  readers[0],
+		r:  &pr,
+		in: in,
 	}, nil
 }
-- 
2.43.0


From b7e8207eec5fc73f68f18d2428d089a37f8a5a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 30/50] fix: don't return bzip2 data from blocks that couldn't
 be read

---
 internal/bzip2/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/bzip2/reader.go b/internal/bzip2/reader.go
index 3e82498..31359f5 100644
--- a/internal/bzip2/reader.go
+++ b/internal/bzip2/reader.go
@@ -39,7 +39,9 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 
 	n, err := rc.r.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
-		err = fmt.Errorf("bzip2: error reading: %w", err)
+		// Whatever is returned with an error was decoded from a block
+		// that could only be read in part
+		n, err = 0, fmt.Errorf("bzip2: error reading: %w", err)
 	}
 
 	return n, err
-- 
2.43.0


From c0dcd6a352cc59bb061a978d2b3aedfbeddc2bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 31/50] fix: always report the error of the underlying storage

---
 struct.go | 59 +++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 491eb5b..0196284 100644
--- a/struct.go
+++ b/struct.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	iofs "io/fs"
 	"path"
+	"sync"
 	"time"
 
 	"github.com/bodgit/plumbing"
@@ -137,14 +138,61 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 	return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec
 }
 
+// errorReaderAt remembers the first error that isn't io.EOF. Not every
+// decompressor returns the error it got from its reader.
+type errorReaderAt struct {
+	r   io.ReaderAt
+	mu  sync.Mutex
+	err error
+}
+
+func (er *errorReaderAt) ReadAt(p []byte, off int64) (int, error) {
+	n, err := er.r.ReadAt(p, off)
+	if err != nil && !errors.Is(err, io.EOF) {
+		er.mu.Lock()
+		defer er.mu.Unlock()
+
+		if er.err == nil {
+			er.err = err
+		}
+	}
+
+	return n, err //nolint:wrapcheck
+}
+
+// wrap makes sure the remembered error, if any, is part of err.
+func (er *errorReaderAt) wrap(err error) error {
+	er.mu.Lock()
+	defer er.mu.Unlock()
+
+	switch {
+	case er.err == nil || errors.Is(err, er.err):
+		return err
+	case errors.Is(err, io.EOF):
+		return er.err
+	default:
+		return fmt.Errorf("%w: %w", er.err, err)
+	}
+}
+
 type folderReadCloser struct {
 	io.ReadCloser
+	er            *errorReaderAt
 	h             hash.Hash
 	wc            *plumbing.WriteCounter
 	size          int64
 	hasEncryption bool
 }
 
+func (rc *folderReadCloser) Read(p []byte) (int, error) {
+	n, err := rc.ReadCloser.Read(p)
+	if err == nil || errors.Is(err, io.EOF) && rc.wc.Count() == uint64(rc.size) { //nolint:gosec
+		return n, err //nolint:wrapcheck
+	}
+
+	return n, rc.er.wrap(err)
+}
+
 func (rc *folderReadCloser) Checksum() []byte {
 	return rc.h.Sum(nil)
 }
@@ -186,10 +234,11 @@ func (rc *folderReadCloser) Size() int64 {
 	return rc.size
 }
 
-func newFolderReadCloser(rc io.ReadCloser, size int64, hasEncryption bool) *folderReadCloser {
+func newFolderReadCloser(rc io.ReadCloser, er *errorReaderAt, size int64, hasEncryption bool) *folderReadCloser {
 	nrc := new(folderReadCloser)
 	nrc.h = crc32.NewIEEE()
 	nrc.wc = new(plumbing.WriteCounter)
+	nrc.er = er
 	nrc.ReadCloser = plumbing.TeeReadCloser(rc, io.MultiWriter(nrc.h, nrc.wc))
 	nrc.size = size
 	nrc.hasEncryption = hasEncryption
@@ -312,6 +361,8 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 	in := make([]io.ReadCloser, f.in)
 	out := make([]io.ReadCloser, f.out)
 
+	er := &errorReaderAt{r: r}
+
 	packedOffset := 0
 	for i := range folder {
 		packedOffset += len(si.unpackInfo.folder[i].packed)
@@ -321,7 +372,7 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 
 	for i, input := range f.packed {
 		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
-		in[input] = util.NopCloser(bufio.NewReader(io.NewSectionReader(r, si.folderOffset(folder)+offset, size)))
+		in[input] = util.NopCloser(bufio.NewReader(io.NewSectionReader(er, si.folderOffset(folder)+offset, size)))
 		offset += size
 	}
 
@@ -359,7 +410,7 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		}
 
 		if err != nil {
-			return nil, 0, hasEncryption, err
+			return nil, 0, hasEncryption, er.wrap(err)
 		}
 
 		input += c.in
@@ -378,7 +429,7 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		return nil, 0, hasEncryption, errNoUnboundStream
 	}
 
-	fr := newFolderReadCloser(out[unbound[0]], int64(f.unpackSize()), hasEncryption) //nolint:gosec
+	fr := newFolderReadCloser(out[unbound[0]], er, int64(f.unpackSize()), hasEncryption) //nolint:gosec
 
 	if si.unpackInfo.digest != nil {
 		return fr, si.unpackInfo.digest[folder], hasEncryption, nil
-- 
2.43.0


From 12137b6ce65d2b5616747e3f2f20bd9fde0114be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 32/50] fix: report missing data in BCJ2 streams

---
 internal/bcj2/reader.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/internal/bcj2/reader.go b/internal/bcj2/reader.go
index 4cc99b4..319cbd1 100644
--- a/internal/bcj2/reader.go
+++ b/internal/bcj2/reader.go
@@ -25,6 +25,9 @@ type readCloser struct {
 	previous byte
 	written  uint32
 
+	// short is set when the range coder has run out of data
+	short bool
+
 	buf *bytes.Buffer
 }
 
@@ -130,8 +133,13 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 func (rc *readCloser) update() error {
 	if rc.nrange < topValue {
 		b, err := rc.rd.ReadByte()
-		if err != nil && !errors.Is(err, io.EOF) {
-			return fmt.Errorf("bcj2: error reading byte: %w", err)
+		if err != nil {
+			if !errors.Is(err, io.EOF) {
+				return fmt.Errorf("bcj2: error reading byte: %w", err)
+			}
+
+			// Only an error if there is anything left to decode
+			rc.short = true
 		}
 
 		rc.code = (rc.code << 8) | uint(b)
@@ -142,6 +150,10 @@ func (rc *readCloser) update() error {
 }
 
 func (rc *readCloser) decode(i int) (bool, error) {
+	if rc.short {
+		return false, fmt.Errorf("bcj2: error reading byte: %w", io.ErrUnexpectedEOF)
+	}
+
 	newBound := (rc.nrange >> numbitModelTotalBits) * rc.sd[i]
 
 	if rc.code < newBound {
@@ -212,11 +224,11 @@ func (rc *readCloser) read() error {
 
 		var dest uint32
 		if err = binary.Read(r, binary.BigEndian, &dest); err != nil {
-			if !errors.Is(err, io.EOF) {
-				err = fmt.Errorf("bcj2: error reading uint32: %w", err)
+			if errors.Is(err, io.EOF) {
+				err = io.ErrUnexpectedEOF
 			}
 
-			return err
+			return fmt.Errorf("bcj2: error reading uint32: %w", err)
 		}
 
 		dest -= rc.written + 4
-- 
2.43.0


From b7620aa1d83f52647122376754d467438f27df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 33/50] fix: reject packed streams beyond the largest offset

---
 types.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/types.go b/types.go
index 9b20900..3d4febb 100644
--- a/types.go
+++ b/types.go
@@ -267,6 +267,16 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 		return nil, errUnexpectedID
 	}
 
+	// The end of the packed streams has to be a valid offset
+	end := p.position
+	for _, size := range p.size {
+		if end > math.MaxInt64 || size > math.MaxInt64-end {
+			return nil, errInvalidSize
+		}
+
+		end += size
+	}
+
 	return p, nil
 }
 
-- 
2.43.0


From 527da8fcf8581809ffe7932987886204c5d6ad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 34/50] fix: close decompressors when opening a stream fails

When one of the coders of a folder couldn't be set up, or setting the
password failed, the decompressors already created were never closed.
For Zstandard that leaks its goroutines.
---
 struct.go | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/struct.go b/struct.go
index 0196284..af76914 100644
--- a/struct.go
+++ b/struct.go
@@ -117,7 +117,19 @@ func (f *folder) validate() error {
 	return nil
 }
 
-func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password string) (io.ReadCloser, bool, error) {
+//nolint:lll,nonamedreturns
+func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password string) (_ io.ReadCloser, _ bool, err error) {
+	// Release everything that was passed in
+	closers := readers
+
+	defer func() {
+		if err != nil {
+			for _, rc := range closers {
+				_ = rc.Close()
+			}
+		}
+	}()
+
 	dcomp := decompressor(f.coder[coder].id)
 	if dcomp == nil {
 		return nil, false, errAlgorithm
@@ -131,6 +143,8 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 	crc, ok := cr.(CryptoReadCloser)
 	if ok {
 		if err = crc.Password(password); err != nil {
+			closers = []io.ReadCloser{cr}
+
 			return nil, true, fmt.Errorf("sevenzip: error setting password: %w", err)
 		}
 	}
@@ -355,8 +369,8 @@ func (si *streamsInfo) folderOffset(folder int) int64 {
 	return int64(si.packInfo.position + offset) //nolint:gosec
 }
 
-//nolint:cyclop,funlen,lll
-func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string) (*folderReadCloser, uint32, bool, error) {
+//nolint:cyclop,funlen,lll,nonamedreturns
+func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string) (rc *folderReadCloser, _ uint32, _ bool, err error) {
 	f := si.unpackInfo.folder[folder]
 	in := make([]io.ReadCloser, f.in)
 	out := make([]io.ReadCloser, f.out)
@@ -381,6 +395,19 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		input, output uint64
 	)
 
+	defer func() {
+		if err == nil {
+			return
+		}
+
+		// Release the decompressors that nothing else reads from
+		for i, rc := range out[:output] {
+			if bp := f.findOutBindPair(uint64(i)); rc != nil && (bp == nil || bp.in >= input) {
+				_ = rc.Close()
+			}
+		}
+	}()
+
 	for i, c := range f.coder {
 		if c.out != 1 {
 			return nil, 0, hasEncryption, errMultipleOutputStreams
@@ -399,12 +426,12 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 			in[j] = out[bp.out]
 		}
 
-		var (
-			isEncrypted bool
-			err         error
-		)
+		var isEncrypted bool
 
-		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
+		readers := in[input : input+c.in]
+		input += c.in
+
+		out[output], isEncrypted, err = f.coderReader(readers, uint64(i), password)
 		if isEncrypted {
 			hasEncryption = true
 		}
@@ -413,7 +440,6 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 			return nil, 0, hasEncryption, er.wrap(err)
 		}
 
-		input += c.in
 		output += c.out
 	}
 
-- 
2.43.0


From f0e7c5eeffca5dc370ac529d07ce15f939acbc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 35/50] fix: bound the memory the BCJ2 reader buffers

---
 internal/bcj2/reader.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/bcj2/reader.go b/internal/bcj2/reader.go
index 319cbd1..29efb8b 100644
--- a/internal/bcj2/reader.go
+++ b/internal/bcj2/reader.go
@@ -37,6 +37,7 @@ const (
 	bitModelTotal        uint = 1 << numbitModelTotalBits
 	numTopBits                = 24
 	topValue             uint = 1 << numTopBits
+	bufferSize                = 1 << 16
 )
 
 var (
@@ -77,7 +78,7 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		nrange: 0xffffffff,
 		buf:    new(bytes.Buffer),
 	}
-	rc.buf.Grow(1 << 16)
+	rc.buf.Grow(bufferSize)
 
 	b := make([]byte, 5)
 	if _, err := io.ReadFull(rc.rd, b); err != nil {
@@ -118,8 +119,12 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		return 0, errAlreadyClosed
 	}
 
-	if err := rc.read(); err != nil && !errors.Is(err, io.EOF) {
-		return 0, err
+	if rc.buf.Len() == 0 {
+		rc.buf.Reset()
+
+		if err := rc.read(); err != nil && !errors.Is(err, io.EOF) {
+			return 0, err
+		}
 	}
 
 	n, err := rc.buf.Read(p)
@@ -203,7 +208,7 @@ func (rc *readCloser) read() error {
 
 		rc.previous = b
 
-		if rc.buf.Len() == rc.buf.Cap() {
+		if rc.buf.Len() >= bufferSize {
 			return nil
 		}
 	}
-- 
2.43.0


From fbd5aee0802ba073d19f7be0da9eac803a6a0cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 36/50] fix: never continue to decode after a read error

---
 struct.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index af76914..edc504a 100644
--- a/struct.go
+++ b/struct.go
@@ -117,6 +117,25 @@ func (f *folder) validate() error {
 	return nil
 }
 
+// stickyReadCloser keeps returning the first error. The state of a
+// decompressor is unknown afterwards, but not everything reading from it stops
+// if it gets the error together with some data.
+type stickyReadCloser struct {
+	io.ReadCloser
+	err error
+}
+
+func (rc *stickyReadCloser) Read(p []byte) (int, error) {
+	if rc.err != nil {
+		return 0, rc.err
+	}
+
+	var n int
+	n, rc.err = rc.ReadCloser.Read(p)
+
+	return n, rc.err
+}
+
 //nolint:lll,nonamedreturns
 func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password string) (_ io.ReadCloser, _ bool, err error) {
 	// Release everything that was passed in
@@ -149,7 +168,7 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 		}
 	}
 
-	return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec
+	return plumbing.LimitReadCloser(&stickyReadCloser{ReadCloser: cr}, int64(f.size[coder])), ok, nil //nolint:gosec
 }
 
 // errorReaderAt remembers the first error that isn't io.EOF. Not every
-- 
2.43.0


From 65906956c29ab6fe15c88bbea334983def891ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:29 +0000
Subject: [PATCH 37/50] fix: don't return bytes of incomplete instructions from
 truncated streams

A branch filter returned the last bytes of a stream that ended before its
declared size unconverted, as they would only be at the real end.
---
 internal/bra/arm.go    |  4 ++--
 internal/bra/arm64.go  |  4 ++--
 internal/bra/bcj.go    |  4 ++--
 internal/bra/ppc.go    |  4 ++--
 internal/bra/reader.go | 17 ++++++++++++++---
 internal/bra/sparc.go  |  4 ++--
 6 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/internal/bra/arm.go b/internal/bra/arm.go
index ab1f7ee..30387ab 100644
--- a/internal/bra/arm.go
+++ b/internal/bra/arm.go
@@ -43,6 +43,6 @@ func (c *arm) Convert(b []byte, encoding bool) int {
 }
 
 // NewARMReader returns a new ARM io.ReadCloser.
-func NewARMReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, &arm{ip: armAlignment})
+func NewARMReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	return newReader(readers, size, &arm{ip: armAlignment})
 }
diff --git a/internal/bra/arm64.go b/internal/bra/arm64.go
index 128155c..94b8791 100644
--- a/internal/bra/arm64.go
+++ b/internal/bra/arm64.go
@@ -73,6 +73,6 @@ func (c *arm64) Convert(b []byte, encoding bool) int {
 }
 
 // NewARM64Reader returns a new ARM64 io.ReadCloser.
-func NewARM64Reader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(arm64))
+func NewARM64Reader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	return newReader(readers, size, new(arm64))
 }
diff --git a/internal/bra/bcj.go b/internal/bra/bcj.go
index ed53803..b1ce390 100644
--- a/internal/bra/bcj.go
+++ b/internal/bra/bcj.go
@@ -99,6 +99,6 @@ func (c *bcj) Convert(b []byte, encoding bool) int {
 }
 
 // NewBCJReader returns a new BCJ io.ReadCloser.
-func NewBCJReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(bcj))
+func NewBCJReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	return newReader(readers, size, new(bcj))
 }
diff --git a/internal/bra/ppc.go b/internal/bra/ppc.go
index 48197a3..8666114 100644
--- a/internal/bra/ppc.go
+++ b/internal/bra/ppc.go
@@ -41,6 +41,6 @@ func (c *ppc) Convert(b []byte, encoding bool) int {
 }
 
 // NewPPCReader returns a new PPC io.ReadCloser.
-func NewPPCReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(ppc))
+func NewPPCReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	return newReader(readers, size, new(ppc))
 }
diff --git a/internal/bra/reader.go b/internal/bra/reader.go
index 0cbee98..7601e30 100644
--- a/internal/bra/reader.go
+++ b/internal/bra/reader.go
@@ -11,6 +11,7 @@ type readCloser struct {
 	rc   io.ReadCloser
 	buf  bytes.Buffer
 	n    int
+	left uint64 // not read yet
 	conv converter
 }
 
@@ -38,7 +39,10 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		return 0, errAlreadyClosed
 	}
 
-	if _, err := io.CopyN(&rc.buf, rc.rc, int64(max(len(p), rc.conv.Size())-rc.buf.Len())); err != nil {
+	m, err := io.CopyN(&rc.buf, rc.rc, int64(max(len(p), rc.conv.Size())-rc.buf.Len()))
+	rc.left -= min(rc.left, uint64(max(m, 0))) //nolint:gosec
+
+	if err != nil {
 		if !errors.Is(err, io.EOF) {
 			return 0, fmt.Errorf("bra: error buffering: %w", err)
 		}
@@ -48,7 +52,13 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		}
 
 		if rc.buf.Len() < rc.conv.Size() {
-			rc.n = rc.buf.Len()
+			if rc.left > 0 && rc.n == 0 { // The rest can't be converted without what is missing
+				return 0, io.EOF
+			}
+
+			if rc.left == 0 {
+				rc.n = rc.buf.Len()
+			}
 		}
 	}
 
@@ -64,13 +74,14 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	return n, err
 }
 
-func newReader(readers []io.ReadCloser, conv converter) (io.ReadCloser, error) {
+func newReader(readers []io.ReadCloser, size uint64, conv converter) (io.ReadCloser, error) {
 	if len(readers) != 1 {
 		return nil, errNeedOneReader
 	}
 
 	return &readCloser{
 		rc:   readers[0],
+		left: size,
 		conv: conv,
 	}, nil
 }
diff --git a/internal/bra/sparc.go b/internal/bra/sparc.go
index a39f3a2..c27430d 100644
--- a/internal/bra/sparc.go
+++ b/internal/bra/sparc.go
@@ -48,6 +48,6 @@ func (c *sparc) Convert(b []byte, encoding bool) int {
 }
 
 // NewSPARCReader returns a new SPARC io.ReadCloser.
-func NewSPARCReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(sparc))
+func NewSPARCReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	return newReader(readers, size, new(sparc))
 }
-- 
2.43.0


From b774cfce5a344dd5d97d18709c48f001d4c944e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:17 +0000
Subject: [PATCH 38/50] fix: don't leak the goroutines of zstd streams left
 part way through

Streams that are kept for the next file are never closed, and while a zstd
decoder is part way through its goroutines keep it from being collected.
---
 internal/zstd/reader.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/zstd/reader.go b/internal/zstd/reader.go
index fb566ba..4f633f1 100644
--- a/internal/zstd/reader.go
+++ b/internal/zstd/reader.go
@@ -29,6 +29,8 @@ func (rc *readCloser) Close() error {
 		return errAlreadyClosed
 	}
 
+	defer runtime.KeepAlive(rc)
+
 	// Wait for anything still reading ahead before closing what it reads from
 	if err := rc.r.Reset(nil); err != nil {
 		return fmt.Errorf("zstd: error resetting: %w", err)
@@ -49,6 +51,8 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		return 0, errAlreadyClosed
 	}
 
+	defer runtime.KeepAlive(rc)
+
 	n, err := rc.r.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("zstd: error reading: %w", err)
@@ -78,8 +82,18 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		runtime.SetFinalizer(r, (*zstd.Decoder).Close)
 	}
 
-	return &readCloser{
+	rc := &readCloser{
 		c: readers[0],
 		r: r,
-	}, nil
+	}
+
+	// The goroutines of the decoder keep it alive, so its own finalizer is of
+	// no use if this is dropped without being closed part way through
+	runtime.SetFinalizer(rc, func(rc *readCloser) {
+		if rc.r != nil {
+			rc.r.Close()
+		}
+	})
+
+	return rc, nil
 }
-- 
2.43.0


From a568d8929eda16ba951cdbda27f2501bc88d64bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 39/50] fix: accept the coders of a folder in any order

---
 struct.go | 73 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 26 deletions(-)

diff --git a/struct.go b/struct.go
index edc504a..710a3fa 100644
--- a/struct.go
+++ b/struct.go
@@ -388,6 +388,24 @@ func (si *streamsInfo) folderOffset(folder int) int64 {
 	return int64(si.packInfo.position + offset) //nolint:gosec
 }
 
+// bind connects the input streams of a coder to the output streams they're
+// bound to, it returns false without any effect if those don't all exist yet.
+func (f *folder) bind(in, out []io.ReadCloser, first, n uint64) bool {
+	for _, bp := range f.bindPair {
+		if bp.in >= first && bp.in < first+n && out[bp.out] == nil {
+			return false
+		}
+	}
+
+	for _, bp := range f.bindPair {
+		if bp.in >= first && bp.in < first+n {
+			in[bp.in], out[bp.out] = out[bp.out], nil
+		}
+	}
+
+	return true
+}
+
 //nolint:cyclop,funlen,lll,nonamedreturns
 func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string) (rc *folderReadCloser, _ uint32, _ bool, err error) {
 	f := si.unpackInfo.folder[folder]
@@ -409,10 +427,7 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		offset += size
 	}
 
-	var (
-		hasEncryption bool
-		input, output uint64
-	)
+	var hasEncryption bool
 
 	defer func() {
 		if err == nil {
@@ -420,46 +435,52 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		}
 
 		// Release the decompressors that nothing else reads from
-		for i, rc := range out[:output] {
-			if bp := f.findOutBindPair(uint64(i)); rc != nil && (bp == nil || bp.in >= input) {
+		for _, rc := range out {
+			if rc != nil {
 				_ = rc.Close()
 			}
 		}
 	}()
 
-	for i, c := range f.coder {
+	for _, c := range f.coder {
 		if c.out != 1 {
 			return nil, 0, hasEncryption, errMultipleOutputStreams
 		}
+	}
 
-		for j := input; j < input+c.in; j++ {
-			if in[j] != nil {
-				continue
-			}
+	// The coders can be in any order, so repeatedly look for the ones whose
+	// input streams are all available
+	built := make([]bool, len(f.coder))
+
+	for left := len(f.coder); left > 0; {
+		before, input := left, uint64(0)
 
-			bp := f.findInBindPair(j)
-			if bp == nil || out[bp.out] == nil {
-				return nil, 0, hasEncryption, errNoBoundStream
+		for i, c := range f.coder {
+			first := input
+			input += c.in
+
+			if built[i] || !f.bind(in, out, first, c.in) {
+				continue
 			}
 
-			in[j] = out[bp.out]
-		}
+			var isEncrypted bool
 
-		var isEncrypted bool
+			out[i], isEncrypted, err = f.coderReader(in[first:input], uint64(i), password)
+			if isEncrypted {
+				hasEncryption = true
+			}
 
-		readers := in[input : input+c.in]
-		input += c.in
+			if err != nil {
+				return nil, 0, hasEncryption, er.wrap(err)
+			}
 
-		out[output], isEncrypted, err = f.coderReader(readers, uint64(i), password)
-		if isEncrypted {
-			hasEncryption = true
+			built[i] = true
+			left--
 		}
 
-		if err != nil {
-			return nil, 0, hasEncryption, er.wrap(err)
+		if left == before {
+			return nil, 0, hasEncryption, errNoBoundStream
 		}
-
-		output += c.out
 	}
 
 	unbound := make([]uint64, 0, f.out)
-- 
2.43.0


From 8e2c93e61976aefc40e85d342aa9220c46583be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 40/50] fix: recognise directories without attributes

---
 struct.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 710a3fa..de57d4a 100644
--- a/struct.go
+++ b/struct.go
@@ -574,9 +574,13 @@ const (
 // Mode returns the permission and mode bits for the FileHeader.
 func (h *FileHeader) Mode() (mode iofs.FileMode) {
 	// Prefer the POSIX attributes if they're present
-	if h.Attributes&0xf0000000 != 0 {
+	switch {
+	case h.Attributes&0xf0000000 != 0:
 		mode = unixModeToFileMode(h.Attributes >> 16)
-	} else {
+	case h.isEmptyStream && !h.isEmptyFile:
+		// Anything without a stream that isn't an empty file is a directory
+		mode = msdosModeToFileMode(h.Attributes | msdosDir)
+	default:
 		mode = msdosModeToFileMode(h.Attributes)
 	}
 
-- 
2.43.0


From cb3ef49a2e48f00fb48dda15c2b16dbaf73dc040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 41/50] fix: accept AES properties without a salt and an IV

---
 internal/aes7z/reader.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/internal/aes7z/reader.go b/internal/aes7z/reader.go
index cbd5cff..b311a67 100644
--- a/internal/aes7z/reader.go
+++ b/internal/aes7z/reader.go
@@ -15,7 +15,6 @@ var (
 	errNeedOneReader          = errors.New("aes7z: need exactly one reader")
 	errInsufficientProperties = errors.New("aes7z: not enough properties")
 	errNoPasswordSet          = errors.New("aes7z: no password set")
-	errUnsupportedMethod      = errors.New("aes7z: unsupported compression method")
 )
 
 type readCloser struct {
@@ -97,27 +96,34 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		return nil, errNeedOneReader
 	}
 
-	// Need at least two bytes initially
-	if len(p) < 2 {
+	if len(p) == 0 {
 		return nil, errInsufficientProperties
 	}
 
-	if p[0]&0xc0 == 0 {
-		return nil, errUnsupportedMethod
-	}
-
 	rc := new(readCloser)
 
-	salt := p[0]>>7&1 + p[1]>>4
-	iv := p[0]>>6&1 + p[1]&0x0f
+	// The second byte is only present if there is a salt or an IV
+	var salt, iv byte
+
+	size := 1
+
+	if p[0]&0xc0 != 0 {
+		if len(p) < 2 {
+			return nil, errInsufficientProperties
+		}
+
+		salt = p[0]>>7&1 + p[1]>>4
+		iv = p[0]>>6&1 + p[1]&0x0f
+		size++
+	}
 
-	if len(p) != int(2+salt+iv) {
+	if len(p) != size+int(salt+iv) {
 		return nil, errInsufficientProperties
 	}
 
-	rc.salt = p[2 : 2+salt]
+	rc.salt = p[size : size+int(salt)]
 	rc.iv = make([]byte, aes.BlockSize)
-	copy(rc.iv, p[2+salt:])
+	copy(rc.iv, p[size+int(salt):])
 
 	rc.cycles = int(p[0] & 0x3f)
 	rc.rc = readers[0]
-- 
2.43.0


From 619795653b6cc14c00c61016cb3ad48415ee4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 42/50] fix: read all frames of Brotli streams

---
 internal/brotli/reader.go | 61 +++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index 8988d17..d3348bd 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -10,12 +10,13 @@ import (
 	"sync"
 
 	"github.com/andybalholm/brotli"
-	"github.com/bodgit/plumbing"
 )
 
 type readCloser struct {
 	c   io.Closer
 	r   *brotli.Reader
+	lr  *io.LimitedReader // Current frame, nil if there aren't any
+	src io.Reader
 	eof bool
 }
 
@@ -31,6 +32,7 @@ var (
 
 	errAlreadyClosed = errors.New("brotli: already closed")
 	errNeedOneReader = errors.New("brotli: need exactly one reader")
+	errInvalidFrame  = errors.New("brotli: invalid frame")
 )
 
 // This isn't part of the Brotli format but is prepended by the 7-zip implementation.
@@ -42,6 +44,10 @@ type headerFrame struct {
 	UncompressedSize uint16 // * 64 KB
 }
 
+func (h *headerFrame) valid() bool {
+	return h.FrameMagic == frameMagic && h.FrameSize == frameSize && h.BrotliMagic == brotliMagic
+}
+
 func (rc *readCloser) Close() error {
 	if rc.c == nil || rc.r == nil {
 		return errAlreadyClosed
@@ -68,6 +74,18 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	}
 
 	n, err := rc.r.Read(p)
+
+	// Anything large is split into more than one frame
+	for rc.lr != nil && n == 0 && len(p) > 0 && (err == nil || errors.Is(err, io.EOF)) {
+		if err != nil {
+			if err = rc.nextFrame(); err != nil {
+				break
+			}
+		}
+
+		n, err = rc.r.Read(p)
+	}
+
 	rc.eof = errors.Is(err, io.EOF)
 
 	if err != nil && !rc.eof {
@@ -77,6 +95,27 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	return n, err
 }
 
+// nextFrame starts reading the next frame, it returns io.EOF if there are no
+// more of them.
+func (rc *readCloser) nextFrame() error {
+	hr := new(headerFrame)
+
+	switch err := binary.Read(rc.src, binary.LittleEndian, hr); {
+	case errors.Is(err, io.EOF):
+		rc.lr = nil
+
+		return io.EOF
+	case err != nil:
+		return err //nolint:wrapcheck
+	case !hr.valid():
+		return errInvalidFrame
+	}
+
+	rc.lr.N = int64(hr.CompressedSize)
+
+	return rc.r.Reset(rc.lr) //nolint:wrapcheck
+}
+
 // NewReader returns a new Brotli io.ReadCloser.
 func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
 	if len(readers) != 1 {
@@ -95,14 +134,19 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		return nil, fmt.Errorf("brotli: error reading frame: %w", err)
 	}
 
-	var reader io.ReadCloser
+	rc := &readCloser{
+		c:   readers[0],
+		src: readers[0],
+	}
 
 	// If the header looks right, continue reading from that point
 	// onwards, otherwise prepend it again and hope for the best
-	if err == nil && hr.FrameMagic == frameMagic && hr.FrameSize == frameSize && hr.BrotliMagic == brotliMagic {
-		reader = readers[0]
+	var reader io.Reader
+	if err == nil && hr.valid() {
+		rc.lr = &io.LimitedReader{R: readers[0], N: int64(hr.CompressedSize)}
+		reader = rc.lr
 	} else {
-		reader = plumbing.MultiReadCloser(io.NopCloser(b), readers[0])
+		reader = io.MultiReader(b, readers[0])
 	}
 
 	r, ok := brotliReaderPool.Get().(*brotli.Reader)
@@ -112,8 +156,7 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		r = brotli.NewReader(reader)
 	}
 
-	return &readCloser{
-		c: readers[0],
-		r: r,
-	}, nil
+	rc.r = r
+
+	return rc, nil
 }
-- 
2.43.0


From 2d714dbfecea933e4e2eb92be286a636963d87db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 43/50] fix: open empty archives without a header

---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 9c381a0..daef8cd 100644
--- a/reader.go
+++ b/reader.go
@@ -468,6 +468,11 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 		return err
 	}
 
+	// An archive without any files doesn't have to have a header
+	if start == (startHeader{}) {
+		return nil
+	}
+
 	// Work out where we are in the file (32, avoiding magic numbers)
 	if z.start, err = sr.Seek(0, io.SeekCurrent); err != nil {
 		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
-- 
2.43.0


From 0e0699b07a8db447845a98bf4804f8445277fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 44/50] fix: don't take quadratic time to open archives with
 many streams

---
 struct.go | 16 +++++++---------
 types.go  | 12 ++++++++----
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/struct.go b/struct.go
index de57d4a..62e825d 100644
--- a/struct.go
+++ b/struct.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	iofs "io/fs"
 	"path"
+	"sort"
 	"sync"
 	"time"
 
@@ -306,6 +307,7 @@ func (u *unpackInfo) hasDigest(folder int) bool {
 
 type subStreamsInfo struct {
 	streams []uint64
+	total   []uint64 // Number of files up to and including each stream
 	size    []uint64
 	digest  []uint32
 }
@@ -338,16 +340,12 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32, error)
 
 	// Without any substreams information there is one file in each folder
 	if si.subStreamsInfo != nil {
-		total := uint64(0)
-		found = false
+		folder = sort.Search(len(si.subStreamsInfo.total), func(i int) bool {
+			return uint64(file) < si.subStreamsInfo.total[i] //nolint:gosec
+		})
 
-		for folder, streams = range si.subStreamsInfo.streams {
-			total += streams
-			if uint64(file) < total { //nolint:gosec
-				found = true
-
-				break
-			}
+		if found = folder < len(si.subStreamsInfo.streams); found {
+			streams = si.subStreamsInfo.streams[folder]
 		}
 	}
 
diff --git a/types.go b/types.go
index 3d4febb..7317291 100644
--- a/types.go
+++ b/types.go
@@ -568,16 +568,20 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 	// Count the files in each stream
 	files := uint64(0)
 
-	for _, v := range s.streams {
+	s.total = make([]uint64, len(s.streams))
+
+	for i, v := range s.streams {
 		if err := checkUint64(v, false); err != nil {
 			return nil, err
 		}
 
 		files += v
-	}
 
-	if err := checkUint64(files, false); err != nil {
-		return nil, err
+		if err := checkUint64(files, false); err != nil {
+			return nil, err
+		}
+
+		s.total[i] = files
 	}
 
 	if id == idSize {
-- 
2.43.0


From c340a9af7e89bbf21de69542589b039945049398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 45/50] fix: refuse properties with an impossible length

The length of a dummy property was converted to a negative number of bytes
to skip, so that nothing was skipped and no error returned.
---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index 7317291..0a48bc3 100644
--- a/types.go
+++ b/types.go
@@ -904,6 +904,10 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 			return nil, err
 		}
 
+		if length > math.MaxInt64 {
+			return nil, errInvalidSize
+		}
+
 		switch property {
 		case idEmptyStream:
 			empty, err := readBool(r, files)
-- 
2.43.0


From 9c8f984cde6b871ce7cf078eeee1ed886322aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 46/50] fix: accept headers in which the number of something is
 zero

An archive without any files may say so, and the other lists, such as the
properties of a coder or the digests of the files, can be empty as well.
---
 types.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/types.go b/types.go
index 0a48bc3..5262e61 100644
--- a/types.go
+++ b/types.go
@@ -120,7 +120,7 @@ func readUint64Bounded(r io.ByteReader, nonZero bool) (uint64, error) {
 }
 
 func readBool(r io.ByteReader, count uint64) ([]bool, error) {
-	if err := checkUint64(count, true); err != nil {
+	if err := checkUint64(count, false); err != nil {
 		return nil, err
 	}
 
@@ -151,7 +151,7 @@ func readBool(r io.ByteReader, count uint64) ([]bool, error) {
 
 // readOptionalBool returns nil if all of the values are true.
 func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
-	if err := checkUint64(count, true); err != nil {
+	if err := checkUint64(count, false); err != nil {
 		return nil, err
 	}
 
@@ -168,7 +168,7 @@ func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 }
 
 func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
-	if err := checkUint64(count, true); err != nil {
+	if err := checkUint64(count, false); err != nil {
 		return nil, err
 	}
 
@@ -190,7 +190,7 @@ func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
 }
 
 func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
-	if err := checkUint64(count, true); err != nil {
+	if err := checkUint64(count, false); err != nil {
 		return nil, nil, err
 	}
 
@@ -231,7 +231,7 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 		return nil, err
 	}
 
-	p.streams, err = readUint64Bounded(r, true)
+	p.streams, err = readUint64Bounded(r, false)
 	if err != nil {
 		return nil, err
 	}
@@ -309,7 +309,7 @@ func readCoder(r util.Reader) (*coder, error) {
 	}
 
 	if v&0x20 != 0 {
-		size, err := readUint64Bounded(r, true)
+		size, err := readUint64Bounded(r, false)
 		if err != nil {
 			return nil, err
 		}
@@ -418,7 +418,7 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 		return nil, errUnexpectedID
 	}
 
-	folders, err := readUint64Bounded(r, true)
+	folders, err := readUint64Bounded(r, false)
 	if err != nil {
 		return nil, err
 	}
@@ -713,7 +713,7 @@ func filetimeToTime(ft windows.Filetime) time.Time {
 }
 
 func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
-	if err := checkUint64(count, true); err != nil {
+	if err := checkUint64(count, false); err != nil {
 		return nil, err
 	}
 
@@ -778,7 +778,7 @@ func splitNull(data []byte, atEOF bool) (advance int, token []byte, err error) {
 }
 
 func readNames(r util.Reader, count, length uint64) ([]string, error) {
-	if err := checkUint64(count, true); err != nil {
+	if err := checkUint64(count, false); err != nil {
 		return nil, err
 	}
 
@@ -823,7 +823,7 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 }
 
 func readAttributes(r util.Reader, count uint64) ([]uint32, error) {
-	if err := checkUint64(count, true); err != nil {
+	if err := checkUint64(count, false); err != nil {
 		return nil, err
 	}
 
@@ -872,7 +872,7 @@ func readAttributes(r util.Reader, count uint64) ([]uint32, error) {
 func readFilesInfo(r util.Reader) (*filesInfo, error) {
 	f := new(filesInfo)
 
-	files, err := readUint64Bounded(r, true)
+	files, err := readUint64Bounded(r, false)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 780b6e44ffb9875b3294e1bc087c949dfc77ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 47/50] fix: read LZMA and LZMA2 streams with dictionaries of 2
 GiB and more

The largest LZMA2 property stands for a dictionary of 4 GiB - 1 bytes, not
for 4 GiB which is out of range, and for LZMA the default limit is just
below the 2 GiB that can be chosen.
---
 internal/lzma/reader.go  | 7 ++++++-
 internal/lzma2/reader.go | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index b8d277c..ae438a1 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/ulikunitz/xz/lzma"
 )
@@ -57,7 +58,11 @@ func NewReader(p []byte, s uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	h := bytes.NewBuffer(p)
 	_ = binary.Write(h, binary.LittleEndian, s)
 
-	lr, err := lzma.NewReader(multiReader(h, readers[0]))
+	config := lzma.ReaderConfig{
+		DictCap: int(min(uint64(lzma.MaxDictCap), math.MaxInt)), //nolint:gosec
+	}
+
+	lr, err := config.NewReader(multiReader(h, readers[0]))
 	if err != nil {
 		return nil, fmt.Errorf("lzma: error creating reader: %w", err)
 	}
diff --git a/internal/lzma2/reader.go b/internal/lzma2/reader.go
index 59cca7b..b969edc 100644
--- a/internal/lzma2/reader.go
+++ b/internal/lzma2/reader.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/ulikunitz/xz/lzma"
 )
@@ -63,7 +64,8 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	}
 
 	config := lzma.Reader2Config{
-		DictCap: (2 | (int(p[0]) & 1)) << (p[0]/2 + 11), // This gem came from Lzma2Dec.c
+		// This gem came from Lzma2Dec.c, the largest value stands for 4 GiB - 1
+		DictCap: int(min((2|uint64(p[0]&1))<<(p[0]/2+11), lzma.MaxDictCap, math.MaxInt)), //nolint:gosec
 	}
 
 	if err := config.Verify(); err != nil {
-- 
2.43.0


From 88c805b2205cab318cb372f53ebc89059fde5615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 48/50] fix: report LZMA streams that end early as such

The decoder only turns an unwrapped io.EOF into io.ErrUnexpectedEOF, so the
end of a truncated stream was passed on as an io.EOF and anything reading
from it, such as the decryption, took it for a regular one.
---
 internal/lzma/reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index ae438a1..bb10c08 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -100,7 +100,8 @@ func (m *multiByteReader) ReadByte() (b byte, err error) {
 		b, err = m.br.ReadByte()
 	}
 
-	if err != nil {
+	// The decoder only recognises an unwrapped io.EOF
+	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("lzma: error multi byte reading: %w", err)
 	}
 
@@ -109,7 +110,7 @@ func (m *multiByteReader) ReadByte() (b byte, err error) {
 
 func (m *multiByteReader) Read(p []byte) (int, error) {
 	n, err := m.mr.Read(p)
-	if err != nil {
+	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("lzma: error multi reading: %w", err)
 	}
 
-- 
2.43.0


From 8eab355832740cb0ec2d1deb5505039144f0470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 49/50] fix: honour the start address of the ARM64 filter

---
 internal/bra/arm64.go  | 15 +++++++++++++--
 internal/bra/reader.go |  5 +++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/bra/arm64.go b/internal/bra/arm64.go
index 94b8791..8058ab1 100644
--- a/internal/bra/arm64.go
+++ b/internal/bra/arm64.go
@@ -73,6 +73,17 @@ func (c *arm64) Convert(b []byte, encoding bool) int {
 }
 
 // NewARM64Reader returns a new ARM64 io.ReadCloser.
-func NewARM64Reader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, size, new(arm64))
+func NewARM64Reader(p []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	conv := new(arm64)
+
+	// The address of the first instruction is optional
+	if len(p) > 0 {
+		if len(p) != 4 || p[0]%arm64Alignment != 0 {
+			return nil, errInvalidProperties
+		}
+
+		conv.ip = binary.LittleEndian.Uint32(p)
+	}
+
+	return newReader(readers, size, conv)
 }
diff --git a/internal/bra/reader.go b/internal/bra/reader.go
index 7601e30..a9c2735 100644
--- a/internal/bra/reader.go
+++ b/internal/bra/reader.go
@@ -16,8 +16,9 @@ type readCloser struct {
 }
 
 var (
-	errAlreadyClosed = errors.New("bra: already closed")
-	errNeedOneReader = errors.New("bra: need exactly one reader")
+	errAlreadyClosed     = errors.New("bra: already closed")
+	errNeedOneReader     = errors.New("bra: need exactly one reader")
+	errInvalidProperties = errors.New("bra: invalid properties")
 )
 
 func (rc *readCloser) Close() error {
-- 
2.43.0


From 54797584b84846d33115d1d4de06ad0d03a8fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 50/50] fix: verify packed headers whose checksum is zero

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index daef8cd..73b19e3 100644
--- a/reader.go
+++ b/reader.go
@@ -557,7 +557,7 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 			}
 		}
 
-		if crc != 0 && !util.CRC32Equal(fr.Checksum(), crc) {
+		if streamsInfo.unpackInfo.hasDigest(0) && !util.CRC32Equal(fr.Checksum(), crc) {
 			return &ReadError{
 				Encrypted: fr.hasEncryption,
 				Err:       errChecksum,
-- 
2.43.0

