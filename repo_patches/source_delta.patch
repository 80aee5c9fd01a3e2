From 13c90a2eca5039218090f2f2191e5f6c8b8d71cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 01/49] fix: circularbuffer: write the rest of the data after
 wrapping around, not its start again

---
 circularbuffer/noalloc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circularbuffer/noalloc.go b/circularbuffer/noalloc.go
index 0449739..89a2327 100644
--- a/circularbuffer/noalloc.go
+++ b/circularbuffer/noalloc.go
@@ -166,5 +166,6 @@ func (buff *doubleSizeBuffer) Write(by []byte) {
 		}
 
 		remaining = remaining[writeThisTime:]
+		by = remaining
 	}
 }
-- 
2.43.0


From e553bed5cc5040623304550c8367e1a3ea96fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 02/49] fix: HashVerifier: do not let a failed verification
 influence the next one

---
 filechecksum/verifier.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filechecksum/verifier.go b/filechecksum/verifier.go
index 9d604a5..e5d9d21 100644
--- a/filechecksum/verifier.go
+++ b/filechecksum/verifier.go
@@ -34,6 +34,8 @@ func (v *HashVerifier) VerifyBlockRange(startBlockID uint, data []byte) bool {
 			return true
 		}
 
+		// a failed verification leaves its data in the hash
+		v.Hash.Reset()
 		v.Hash.Write(blockData)
 		hashedData := v.Hash.Sum(nil)
 
-- 
2.43.0


From f34f1e5d7b5af8e220a672b9754ea4b6b36ac63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 03/49] fix: HashVerifier: a block without checksum does not
 end the verification of the range

---
 filechecksum/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filechecksum/verifier.go b/filechecksum/verifier.go
index e5d9d21..585ec8f 100644
--- a/filechecksum/verifier.go
+++ b/filechecksum/verifier.go
@@ -31,7 +31,7 @@ func (v *HashVerifier) VerifyBlockRange(startBlockID uint, data []byte) bool {
 		)
 
 		if expectedChecksum == nil {
-			return true
+			continue
 		}
 
 		// a failed verification leaves its data in the hash
-- 
2.43.0


From ed6376172220195933203832aaac6af45a96d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 04/49] fix: checksum generation: report errors of the input
 instead of a checksum for a part of it

---
 filechecksum/filechecksum.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 4f69701..79c3ddf 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -167,9 +167,14 @@ func (check *FileChecksumGenerator) generate(
 
 	i := uint(0)
 	for {
-		n, err := io.ReadFull(inputFile, buffer)
+		n, err := readBlock(inputFile, buffer)
 		section := buffer[:n]
 
+		if err != nil && err != io.EOF {
+			resultChan <- ChecksumResults{Err: err}
+			return
+		}
+
 		if n == 0 {
 			break
 		}
@@ -235,3 +240,20 @@ func (check *FileChecksumGenerator) generate(
 
 	return
 }
+
+// readBlock fills the buffer like io.ReadFull, but returns every error of the reader
+// as it is: io.EOF (also when it has read a part of the block) is the only one that means
+// that the input is complete
+func readBlock(r io.Reader, buffer []byte) (n int, err error) {
+	for n < len(buffer) && err == nil {
+		var read int
+		read, err = r.Read(buffer[n:])
+		n += read
+	}
+
+	if n == len(buffer) {
+		err = nil
+	}
+
+	return
+}
-- 
2.43.0


From 47a4ce0bd5d7f4e3ff6d87e187cb70307a86735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 05/49] fix: checksum generation: report errors of the
 compression function

---
 filechecksum/filechecksum.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 79c3ddf..6392c88 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -196,6 +196,11 @@ func (check *FileChecksumGenerator) generate(
 
 		if compressionFunction != nil {
 			blockSize, err = compressionFunction(section)
+
+			if err != nil {
+				resultChan <- ChecksumResults{Err: err}
+				return
+			}
 		}
 
 		results = append(
-- 
2.43.0


From 785bd004f317e6cd5ef03ad60acb4bd34e3ca2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 06/49] fix: GenerateChecksums: wait until the generator is
 free before returning

---
 filechecksum/filechecksum.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 6392c88..3fb1266 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -101,7 +101,16 @@ func (check *FileChecksumGenerator) GetStrongHash() hash.Hash {
 // Potentially speaking, this might be better producing a channel of blocks, which would remove the need for io from
 // a number of other places.
 func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, output io.Writer) (fileChecksum []byte, err error) {
-	for chunkResult := range check.StartChecksumGeneration(inputFile, 64, nil) {
+	results := check.StartChecksumGeneration(inputFile, 64, nil)
+
+	// The generation resets the hashes before it closes the channel: wait for that,
+	// so that the generator can be used again
+	defer func() {
+		for range results {
+		}
+	}()
+
+	for chunkResult := range results {
 		if chunkResult.Err != nil {
 			return nil, chunkResult.Err
 		} else if chunkResult.Filechecksum != nil {
-- 
2.43.0


From fb2c9e5a3422be52c9f2116cb57c54abd8ab808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 07/49] fix: GenerateChecksums: report errors of the output

---
 filechecksum/filechecksum.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 3fb1266..a699cd4 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -118,8 +118,13 @@ func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, outpu
 		}
 
 		for _, chunk := range chunkResult.Checksums {
-			output.Write(chunk.WeakChecksum)
-			output.Write(chunk.StrongChecksum)
+			if _, err = output.Write(chunk.WeakChecksum); err != nil {
+				return nil, err
+			}
+
+			if _, err = output.Write(chunk.StrongChecksum); err != nil {
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From 40ce9b18a689dbe9c690f1dbdb14af97dc277310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 08/49] fix: comparer: do not read the next block into the
 window that it replaces

---
 comparer/comparer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index b793818..1e67ec8 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -134,10 +134,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		if weakMatchList := reference.FindWeakChecksum2(weaksum); weakMatchList != nil {
 			atomic.AddInt64(&c.WeakHashHits, 1)
 
-			block = blockMemory.GetBlock()
-
 			strong.Reset()
-			strong.Write(block)
+			strong.Write(blockMemory.GetBlock())
 			strongSum = strong.Sum(strongSum)
 			strongList := reference.FindStrongChecksum2(strongSum, weakMatchList)
 
-- 
2.43.0


From 7d70912c1b47d3ec220991c5ebc1f6b87f725aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 09/49] fix: comparer: with a block size of one, use the byte
 that was read

---
 comparer/comparer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 1e67ec8..8471cc1 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -179,8 +179,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 
 		if uint(n) == generator.BlockSize {
-			generator.WeakRollingHash.SetBlock(block)
-			blockMemory.Write(block)
+			generator.WeakRollingHash.SetBlock(readBytes)
+			blockMemory.Write(readBytes)
 			i += int64(n)
 		} else if n > 0 {
 			b_len := blockMemory.Len()
-- 
2.43.0


From ede7e98b5740c6a9e394ce4ff87b36aab22f1fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 10/49] fix: comparer: report read errors instead of trying
 forever, and look at a byte that comes with the end of the file

---
 comparer/comparer.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 8471cc1..ea78a16 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -170,14 +170,19 @@ func (c *Comparer) startFindMatchingBlocks_int(
 
 		switch next {
 		case READ_NEXT_BYTE:
-			n, err = comparison.Read(singleByte)
+			n, err = readBlock(comparison, singleByte)
 			readBytes = singleByte
 		case READ_NEXT_BLOCK:
-			n, err = io.ReadFull(comparison, block)
+			n, err = readBlock(comparison, block)
 			readBytes = block[:n]
 			next = READ_NEXT_BYTE
 		}
 
+		if err != nil && err != io.EOF {
+			ReportErr(err)
+			return
+		}
+
 		if uint(n) == generator.BlockSize {
 			generator.WeakRollingHash.SetBlock(readBytes)
 			blockMemory.Write(readBytes)
@@ -215,3 +220,19 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		return
 	}
 }
+
+// readBlock fills the buffer like io.ReadFull, but returns every error of the reader
+// as it is, and io.EOF also when it has read a part of the block
+func readBlock(r io.Reader, buffer []byte) (n int, err error) {
+	for n < len(buffer) && err == nil {
+		var read int
+		read, err = r.Read(buffer[n:])
+		n += read
+	}
+
+	if n == len(buffer) {
+		err = nil
+	}
+
+	return
+}
-- 
2.43.0


From 468a99483053906dd581056821df697ae677cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 11/49] fix: comparer: a stream that is shorter than a block
 can match the short last block

---
 comparer/comparer.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index ea78a16..94e3a0a 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -94,7 +94,6 @@ func (c *Comparer) startFindMatchingBlocks_int(
 	defer close(results)
 
 	block := make([]byte, generator.BlockSize)
-	var err error
 
 	ReportErr := func(err error) {
 		results <- BlockMatchResult{
@@ -102,15 +101,26 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 	}
 
-	_, err = io.ReadFull(comparison, block)
+	firstRead, err := readBlock(comparison, block)
 
-	if err != nil {
+	if err != nil && err != io.EOF {
 		ReportErr(
 			fmt.Errorf("Error reading first block in comparison: %v", err),
 		)
 		return
 	}
 
+	if firstRead == 0 {
+		return
+	}
+
+	// less than a block: only the last, partial block can match
+	next := READ_NEXT_BYTE
+	if err == io.EOF {
+		block = block[:firstRead]
+		next = READ_NONE
+	}
+
 	generator.WeakRollingHash.SetBlock(block)
 	singleByte := make([]byte, 1)
 	weaksum := make([]byte, generator.WeakRollingHash.Size())
@@ -122,7 +132,6 @@ func (c *Comparer) startFindMatchingBlocks_int(
 	strong := generator.GetStrongHash()
 	// All the bytes
 	i := int64(0)
-	next := READ_NEXT_BYTE
 
 	//ReadLoop:
 	for {
-- 
2.43.0


From f1da6cd4e1ea33f38c0e7f11b72a77de301b14a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 12/49] fix: merger: merge a block with the following span when
 the preceeding one does not border it

---
 comparer/merger.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/comparer/merger.go b/comparer/merger.go
index f86b9e8..28d7ca7 100644
--- a/comparer/merger.go
+++ b/comparer/merger.go
@@ -205,9 +205,15 @@ func (merger *MatchMerger) StartMergeResultStream(
 					blockSize,
 				)
 
+				// the preceeding span may not border in the comparison
+				merged := &a
+				if a.EndBlock != blockID {
+					merged = asBlockSpan
+				}
+
 				b := itemToBlockSpan(following)
 				merger.merge(
-					&a,
+					merged,
 					&b,
 					blockSize,
 				)
-- 
2.43.0


From ee57a2e594df53e042cac74adb506d79b6f86cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 13/49] fix: truncate an existing output file, so that no old
 content stays behind the new one

---
 rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 59db7c1..3d3e11a 100644
--- a/rsync.go
+++ b/rsync.go
@@ -215,7 +215,7 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 		return os.Create(filename)
 	}
 
-	return os.OpenFile(filename, os.O_WRONLY, 0)
+	return os.OpenFile(filename, os.O_WRONLY|os.O_TRUNC, 0)
 }
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
-- 
2.43.0


From 79036b4a8fae6fe7432a1b5cf7d0dd73bc975202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 14/49] fix: return the error when the temporary file cannot be
 created

---
 rsync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsync.go b/rsync.go
index 3d3e11a..3b0f8c6 100644
--- a/rsync.go
+++ b/rsync.go
@@ -220,6 +220,11 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
 	ft, err := ioutil.TempFile(".", "tmp_")
+
+	if err != nil {
+		return
+	}
+
 	filename = ft.Name()
 	f = ft
 	return
-- 
2.43.0


From 1552d9d7d9e15930223fc981245c2714f2bcbbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 15/49] fix: do not lose the error of the final copy

---
 rsync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 3b0f8c6..9a02424 100644
--- a/rsync.go
+++ b/rsync.go
@@ -303,7 +303,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := from.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
@@ -316,7 +316,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := to.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
-- 
2.43.0


From 7a542da89e274c77869c1eee0ab8164f332e002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 16/49] fix: remove the temporary file after patching in place

---
 rsync.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rsync.go b/rsync.go
index 9a02424..379ca58 100644
--- a/rsync.go
+++ b/rsync.go
@@ -295,6 +295,13 @@ type fileCopyCloser struct {
 }
 
 func (f *fileCopyCloser) Close() (err error) {
+	// the temporary file is not needed any more once its content has arrived
+	defer func() {
+		if err == nil {
+			err = os.Remove(f.from)
+		}
+	}()
+
 	from, err := os.OpenFile(f.from, os.O_RDONLY, 0)
 
 	if err != nil {
-- 
2.43.0


From 0ff423a1d636d2aefa57dfd76b26beb5d5132090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 17/49] fix: Close does not overwrite the local file after a
 failed patch

---
 rsync.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 379ca58..f3e6e62 100644
--- a/rsync.go
+++ b/rsync.go
@@ -48,6 +48,9 @@ type RSync struct {
 	Summary FileSummary
 
 	OnClose []closer
+
+	// set when Patch has written the whole reference
+	patched bool
 }
 
 type closer interface {
@@ -200,7 +203,7 @@ func (rsync *RSync) Patch() (err error) {
 	mergedBlocks := merger.GetMergedBlocks()
 	missing := mergedBlocks.GetMissingBlocks(rsync.Summary.GetBlockCount() - 1)
 
-	return sequential.SequentialPatcher(
+	err = sequential.SequentialPatcher(
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
@@ -208,6 +211,9 @@ func (rsync *RSync) Patch() (err error) {
 		20*megabyte,
 		rsync.Output,
 	)
+
+	rsync.patched = err == nil
+	return
 }
 
 func getOutFile(filename string) (f io.WriteCloser, err error) {
@@ -258,6 +264,12 @@ func IsSameFile(path1, path2 string) (same bool, err error) {
 // a temporary one if neede
 func (rsync *RSync) Close() error {
 	for _, f := range rsync.OnClose {
+		// never replace the local file by the result of a patch that failed
+		if c, ok := f.(*fileCopyCloser); ok && !rsync.patched {
+			os.Remove(c.from)
+			continue
+		}
+
 		if err := f.Close(); err != nil {
 			return err
 		}
-- 
2.43.0


From 1466357a889ab2fa0aa13cc292663427efc54ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 18/49] fix: patching to an empty reference succeeds

---
 rsync.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rsync.go b/rsync.go
index f3e6e62..64afb7e 100644
--- a/rsync.go
+++ b/rsync.go
@@ -174,6 +174,17 @@ func MakeRSync(
 func (rsync *RSync) Patch() (err error) {
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
+
+	if rsync.Summary.GetBlockCount() == 0 {
+		if rsync.Summary.GetFileSize() > 0 {
+			return fmt.Errorf("The summary has no blocks for a file of %v bytes", rsync.Summary.GetFileSize())
+		}
+
+		// nothing to write for an empty file
+		rsync.patched = true
+		return nil
+	}
+
 	sectionSize := rsync.Summary.GetFileSize() / numMatchers
 	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))
 
-- 
2.43.0


From 39c689ade20376c2bfc8134d1978425d2cbbb93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 19/49] fix: Patch searches the whole local file, also what is
 beyond the size of the reference

---
 rsync.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 64afb7e..23ffefd 100644
--- a/rsync.go
+++ b/rsync.go
@@ -185,7 +185,15 @@ func (rsync *RSync) Patch() (err error) {
 		return nil
 	}
 
-	sectionSize := rsync.Summary.GetFileSize() / numMatchers
+
+	// the whole local file is searched, however long the reference is
+	localSize, err := rsync.Input.Seek(0, io.SeekEnd)
+
+	if err != nil {
+		return err
+	}
+
+	sectionSize := localSize / numMatchers
 	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))
 
 	merger := &comparer.MatchMerger{}
-- 
2.43.0


From 2e715b69ca7fb2cec03330a47a5a3f598d347f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 20/49] fix: Patch never writes more or less than the size of
 the reference

---
 rsync.go | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 23ffefd..8609447 100644
--- a/rsync.go
+++ b/rsync.go
@@ -185,7 +185,6 @@ func (rsync *RSync) Patch() (err error) {
 		return nil
 	}
 
-
 	// the whole local file is searched, however long the reference is
 	localSize, err := rsync.Input.Seek(0, io.SeekEnd)
 
@@ -222,19 +221,59 @@ func (rsync *RSync) Patch() (err error) {
 	mergedBlocks := merger.GetMergedBlocks()
 	missing := mergedBlocks.GetMissingBlocks(rsync.Summary.GetBlockCount() - 1)
 
+	output := rsync.Output
+	fileSize := rsync.Summary.GetFileSize()
+	sized := &sizedWriter{w: output, remaining: fileSize}
+
+	// a summary without file size leaves the length of the last block open
+	if fileSize > 0 {
+		output = sized
+	}
+
 	err = sequential.SequentialPatcher(
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
 		toPatcherFoundSpan(mergedBlocks, int64(blockSize)),
 		20*megabyte,
-		rsync.Output,
+		output,
 	)
 
+	if err == nil && fileSize > 0 && sized.remaining > 0 {
+		err = fmt.Errorf("The patched file is %v bytes too short", sized.remaining)
+	}
+
 	rsync.patched = err == nil
 	return
 }
 
+// sizedWriter passes on as many bytes as the reference has, and ignores what follows: the last
+// block may be short, but is copied as a whole block from the middle of the local file
+type sizedWriter struct {
+	w         io.Writer
+	remaining int64
+}
+
+func (s *sizedWriter) Write(b []byte) (n int, err error) {
+	keep := b
+	if int64(len(keep)) > s.remaining {
+		keep = keep[:s.remaining]
+	}
+
+	if len(keep) > 0 {
+		n, err = s.w.Write(keep)
+		s.remaining -= int64(n)
+		if err != nil {
+			return
+		}
+		if n < len(keep) {
+			return n, io.ErrShortWrite
+		}
+	}
+
+	return len(b), nil
+}
+
 func getOutFile(filename string) (f io.WriteCloser, err error) {
 	if _, err = os.Stat(filename); os.IsNotExist(err) {
 		return os.Create(filename)
-- 
2.43.0


From aca8568946cfce5106a63daa68d5cb2fecddc1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 21/49] fix: SequentialPatcher: report when the local file
 cannot be positioned

---
 patcher/sequential/sequential.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index b8a3018..cfd2bff 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -57,7 +57,10 @@ func SequentialPatcher(
 			firstMatched := locallyAvailableBlocks[0]
 
 			// we have the current block range in the local file
-			localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION)
+			if _, err := localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION); err != nil {
+				return fmt.Errorf("Could not seek to offset %v of the local file: %v", firstMatched.MatchOffset, err)
+			}
+
 			blockSizeToRead := int64(firstMatched.EndBlock-firstMatched.StartBlock+1) * firstMatched.BlockSize
 
 			if _, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead)); err != nil {
-- 
2.43.0


From 0153e78c832ddf5c078f66a09b391fb59635754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 22/49] fix: SequentialPatcher: report when the local file is
 too short

---
 patcher/sequential/sequential.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index cfd2bff..c9d8006 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -63,10 +63,23 @@ func SequentialPatcher(
 
 			blockSizeToRead := int64(firstMatched.EndBlock-firstMatched.StartBlock+1) * firstMatched.BlockSize
 
-			if _, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead)); err != nil {
+			copied, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead))
+
+			if err != nil {
 				return fmt.Errorf("Could not copy %v bytes to output: %v", blockSizeToRead, err)
 			}
 
+			// only the last block of the file may be partial
+			if missing := blockSizeToRead - copied; missing > 0 &&
+				(firstMatched.EndBlock != maxBlock || missing > firstMatched.BlockSize || copied == 0) {
+				return fmt.Errorf(
+					"The local file ends %v bytes early for blocks %v-%v",
+					missing,
+					firstMatched.StartBlock,
+					firstMatched.EndBlock,
+				)
+			}
+
 			currentBlock = firstMatched.EndBlock + 1
 			locallyAvailableBlocks = locallyAvailableBlocks[1:]
 
-- 
2.43.0


From 2a37b6437af85354f470a5afbd988ae11fb9c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 23/49] fix: SequentialPatcher: report when the source refuses
 a request

---
 patcher/sequential/sequential.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index c9d8006..f2fbfe6 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -85,7 +85,14 @@ func SequentialPatcher(
 
 		} else if withinFirstBlockOfRemoteBlocks(currentBlock, requiredRemoteBlocks) {
 			firstMissing := requiredRemoteBlocks[0]
-			reference.RequestBlocks(firstMissing)
+			if err := reference.RequestBlocks(firstMissing); err != nil {
+				return fmt.Errorf(
+					"Could not request blocks %v-%v: %v",
+					firstMissing.StartBlock,
+					firstMissing.EndBlock,
+					err,
+				)
+			}
 
 			select {
 			case result := <-reference.GetResultChannel():
-- 
2.43.0


From 040516ed18c7a80f1944584f8ea610bc0df13659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 24/49] fix: SequentialPatcher: report a response that ends
 inside a block

---
 patcher/sequential/sequential.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index f2fbfe6..7e86a45 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -109,7 +109,11 @@ func SequentialPatcher(
 							firstMissing.BlockSize,
 						)
 
-						if completed != (firstMissing.EndBlock-firstMissing.StartBlock) + 1 {
+						// only the last block of the file may be partial
+						partial := int64(len(result.Data))%firstMissing.BlockSize != 0
+
+						if completed != (firstMissing.EndBlock-firstMissing.StartBlock) + 1 ||
+							(partial && firstMissing.EndBlock != maxBlock) {
 							return fmt.Errorf(
 								"Unexpected reponse length from remote source: blocks %v-%v (got %v blocks)", 
 								firstMissing.StartBlock,
-- 
2.43.0


From 24e03e8365186342596bdac3f2481f3e56640f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 25/49] fix: BlockSourceBase: do not crash when a second
 request fails before the first error was read

---
 blocksources/helpers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blocksources/helpers.go b/blocksources/helpers.go
index 204c484..38e3f2d 100644
--- a/blocksources/helpers.go
+++ b/blocksources/helpers.go
@@ -12,12 +12,16 @@ import (
 type errorWatcher struct {
 	errorChannel chan error
 	lastError    error
+
+	// only the first error is reported
+	done bool
 }
 
 func (w *errorWatcher) setError(e error) {
-	if w.lastError != nil {
-		panic("cannot set a new error when one is already set!")
+	if w.done {
+		return
 	}
+	w.done = true
 	w.lastError = e
 }
 
-- 
2.43.0


From 05e94c93483bc01f4e0356478fda1713f4a9e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 26/49] fix: BlockSourceBase: do not lose a response when a
 lower block is requested while another one waits for delivery

---
 blocksources/blocksourcebase.go       |  6 ++++--
 blocksources/helpers.go               | 10 ++++++++++
 blocksources/sortableBlockResponse.go | 10 ++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 95e236a..56226c2 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -246,9 +246,11 @@ func (s *BlockSourceBase) loop() {
 			}
 
 		case pendingResponse.sendIfPending() <- pendingResponse.Response():
+			// lower blocks may have been requested since this response was set
+			delivered := pendingResponse.Response().StartBlock
 			pendingResponse.clear()
-			responseOrdering = responseOrdering[:len(responseOrdering)-1]
-			requestOrdering = requestOrdering[:len(requestOrdering)-1]
+			responseOrdering = responseOrdering.without(delivered)
+			requestOrdering = requestOrdering.without(delivered)
 
 			// check if there's another response to enqueue
 			if len(responseOrdering) > 0 {
diff --git a/blocksources/helpers.go b/blocksources/helpers.go
index 38e3f2d..e2c4c29 100644
--- a/blocksources/helpers.go
+++ b/blocksources/helpers.go
@@ -88,6 +88,16 @@ func (r UintSlice) Less(i, j int) bool {
 	return r[i] < r[j]
 }
 
+// without removes one entry from the list
+func (r UintSlice) without(startBlock uint) UintSlice {
+	for i, v := range r {
+		if v == startBlock {
+			return append(r[:i], r[i+1:]...)
+		}
+	}
+	return r
+}
+
 type asyncResult struct {
 	startBlockID uint
 	endBlockID   uint
diff --git a/blocksources/sortableBlockResponse.go b/blocksources/sortableBlockResponse.go
index 551d75f..4ad3279 100644
--- a/blocksources/sortableBlockResponse.go
+++ b/blocksources/sortableBlockResponse.go
@@ -17,3 +17,13 @@ func (r PendingResponses) Swap(i, j int) {
 func (r PendingResponses) Less(i, j int) bool {
 	return r[i].StartBlock < r[j].StartBlock
 }
+
+// without removes the response that starts with the block
+func (r PendingResponses) without(startBlock uint) PendingResponses {
+	for i, v := range r {
+		if v.StartBlock == startBlock {
+			return append(r[:i], r[i+1:]...)
+		}
+	}
+	return r
+}
-- 
2.43.0


From 3caaf3bdb4c98b558e008fa7f9097b8ec4d24e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 27/49] fix: BlockSourceBase: start no request after an error
 or Close

---
 blocksources/blocksourcebase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 56226c2..9c007c0 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -154,7 +154,7 @@ func (s *BlockSourceBase) loop() {
 	for state == STATE_RUNNING || inflightRequests > 0 || pendingErrors.Err() != nil {
 
 		// Start any pending work that we can
-		for inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
+		for state == STATE_RUNNING && inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
 			inflightRequests += 1
 
 			nextRequest := requestQueue[len(requestQueue)-1]
-- 
2.43.0


From 9fad150af0f7e62b2649f4199c853d65796021bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 28/49] fix: BlockSourceBase: requesting from a closed source
 is an error, not a crash

---
 blocksources/blocksourcebase.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 9c007c0..9a7b8cd 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -96,7 +96,14 @@ func (s *BlockSourceBase) ReadBytes() int64 {
 	return s.bytesRequested
 }
 
-func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) error {
+func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) (err error) {
+	// the request channel is closed when the source has ended
+	defer func() {
+		if recover() != nil {
+			err = BlockSourceAlreadyClosedError
+		}
+	}()
+
 	s.requestChannel <- block
 	return nil
 }
-- 
2.43.0


From 1bf38d54e306d27c1b124d1c99d796aa94371185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 29/49] fix: BlockSourceBase: Close ends the source also when
 nobody reads its error

---
 blocksources/blocksourcebase.go | 1 +
 blocksources/helpers.go         | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 9a7b8cd..856a85b 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -275,6 +275,7 @@ func (s *BlockSourceBase) loop() {
 
 		case <-s.exitChannel:
 			state = STATE_EXITING
+			pendingErrors.end()
 		}
 	}
 }
diff --git a/blocksources/helpers.go b/blocksources/helpers.go
index e2c4c29..a9ef639 100644
--- a/blocksources/helpers.go
+++ b/blocksources/helpers.go
@@ -29,6 +29,12 @@ func (w *errorWatcher) clear() {
 	w.lastError = nil
 }
 
+// end drops the error and ignores later ones, when nobody has to read them any more
+func (w *errorWatcher) end() {
+	w.done = true
+	w.lastError = nil
+}
+
 func (w *errorWatcher) Err() error {
 	return w.lastError
 }
-- 
2.43.0


From 49493a5cc74af16d300d976f89f4aa1d8ed95de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 30/49] fix: gosync patch: report an index file that cannot be
 read

---
 cmd/gosync/patch.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 448e689..4f54b8a 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -70,11 +70,19 @@ func Patch(c *cli.Context) error {
 			majorVersion,
 		)
 
+		if e != nil {
+			return e
+		}
+
 		index, checksumLookup, blockCount, err := readIndex(
 			indexReader,
 			uint(blocksize),
 		)
 
+		if err != nil {
+			return err
+		}
+
 		fs := &gosync_main.BasicSummary{
 			ChecksumIndex:  index,
 			ChecksumLookup: checksumLookup,
-- 
2.43.0


From bd2161fde117200e8cd855616b24ea55a6e7e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 31/49] fix: gosync patch: reject an index that does not
 describe the whole file

---
 cmd/gosync/patch.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 4f54b8a..4643750 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -83,6 +83,17 @@ func Patch(c *cli.Context) error {
 			return err
 		}
 
+		// an index that was cut off between two entries reads without an error
+		if blocksize == 0 || filesize < 0 ||
+			uint64(blockCount) != (uint64(filesize)+uint64(blocksize)-1)/uint64(blocksize) {
+			return fmt.Errorf(
+				"The index has %v blocks of %v bytes, which does not fit its file size of %v",
+				blockCount,
+				blocksize,
+				filesize,
+			)
+		}
+
 		fs := &gosync_main.BasicSummary{
 			ChecksumIndex:  index,
 			ChecksumLookup: checksumLookup,
-- 
2.43.0


From cd2c19f2e14a69ed8df543d94295a58386ec745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 32/49] fix: gosync diff: the sections after the first overlap,
 too

---
 cmd/gosync/common.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 8203952..99131c4 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -252,14 +252,16 @@ func multithreadedMatching(
 
 	for i := int64(0); i < matcherCount; i++ {
 		offset := sectionSize * i
+		length := sectionSize
 
 		// Sections must overlap by blocksize (strictly blocksize - 1?)
 		if i > 0 {
 			offset -= int64(blocksize)
+			length += int64(blocksize)
 		}
 
 		sectionReader := bufio.NewReaderSize(
-			io.NewSectionReader(localFile, offset, sectionSize),
+			io.NewSectionReader(localFile, offset, length),
 			MB,
 		)
 
-- 
2.43.0


From b7ab00c688edbd1c4b04d2f6079f2b19fbf8bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 33/49] fix: HttpRequester: recognise gzip encoded responses
 whatever the case and number of headers

---
 blocksources/httpblocksource.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocksources/httpblocksource.go b/blocksources/httpblocksource.go
index 0e93278..bddb6f5 100644
--- a/blocksources/httpblocksource.go
+++ b/blocksources/httpblocksource.go
@@ -73,7 +73,8 @@ func (r *HttpRequester) DoRequest(startOffset int64, endOffset int64) (data []by
 	} else if rangedResponse.StatusCode != 206 {
 		return nil, RangedRequestNotSupportedError
 	} else if strings.Contains(
-		rangedResponse.Header.Get("Content-Encoding"),
+		// the names of encodings are not case sensitive, and may be spread over several headers
+		strings.ToLower(strings.Join(rangedResponse.Header["Content-Encoding"], ",")),
 		"gzip",
 	) {
 		return nil, ResponseFromServerWasGZiped
-- 
2.43.0


From 65d38d04f0393d7d544945962b2012a4566e1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 34/49] fix: MakeRSync: close the local file when there can be
 no output

---
 rsync.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsync.go b/rsync.go
index 8609447..290d0c8 100644
--- a/rsync.go
+++ b/rsync.go
@@ -111,6 +111,12 @@ func MakeRSync(
 		return
 	}
 
+	defer func() {
+		if err != nil {
+			inputFile.Close()
+		}
+	}()
+
 	var out io.WriteCloser
 	var outFilename = OutFile
 	var copier closer
-- 
2.43.0


From 8c39e987f629b9ac3468825a24ef1bc97db3c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 35/49] fix: RSync.Close: close the remaining files when one
 cannot be closed

---
 rsync.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rsync.go b/rsync.go
index 290d0c8..95d21f6 100644
--- a/rsync.go
+++ b/rsync.go
@@ -326,19 +326,23 @@ func IsSameFile(path1, path2 string) (same bool, err error) {
 
 // Close - close open files, copy to the final location from
 // a temporary one if neede
-func (rsync *RSync) Close() error {
+func (rsync *RSync) Close() (err error) {
 	for _, f := range rsync.OnClose {
 		// never replace the local file by the result of a patch that failed
-		if c, ok := f.(*fileCopyCloser); ok && !rsync.patched {
-			os.Remove(c.from)
+		if c, ok := f.(*fileCopyCloser); ok && (!rsync.patched || err != nil) {
+			// once copying has started, this may be the only copy
+			if !c.started {
+				os.Remove(c.from)
+			}
 			continue
 		}
 
-		if err := f.Close(); err != nil {
-			return err
+		// the others are closed even if one cannot be
+		if e := f.Close(); e != nil && err == nil {
+			err = e
 		}
 	}
-	return nil
+	return
 }
 
 type fileCloser struct {
@@ -368,6 +372,9 @@ func (n nullCloser) Close() error {
 type fileCopyCloser struct {
 	from string
 	to   string
+
+	// set before the target is overwritten
+	started bool
 }
 
 func (f *fileCopyCloser) Close() (err error) {
@@ -391,6 +398,7 @@ func (f *fileCopyCloser) Close() (err error) {
 		}
 	}()
 
+	f.started = true
 	to, err := os.OpenFile(f.to, os.O_TRUNC|os.O_WRONLY, 0)
 
 	if err != nil {
-- 
2.43.0


From fdbdbd5120896884e04450738554c83290400d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 36/49] fix: RSync.Close: end the block source that MakeRSync
 has started

---
 rsync.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rsync.go b/rsync.go
index 95d21f6..b35ebc2 100644
--- a/rsync.go
+++ b/rsync.go
@@ -167,6 +167,7 @@ func MakeRSync(
 		Source:  source,
 		Summary: Summary,
 		OnClose: []closer{
+			&sourceCloser{source},
 			&fileCloser{inputFile, InputFile},
 			&fileCloser{out, outFilename},
 			copier,
@@ -363,6 +364,19 @@ func (f *fileCloser) Close() error {
 	return nil
 }
 
+// sourceCloser ends a block source, which may have ended by itself after an error
+type sourceCloser struct {
+	source *blocksources.BlockSourceBase
+}
+
+func (s *sourceCloser) Close() error {
+	err := s.source.Close()
+	if err == blocksources.BlockSourceAlreadyClosedError {
+		return nil
+	}
+	return err
+}
+
 type nullCloser struct{}
 
 func (n nullCloser) Close() error {
-- 
2.43.0


From d1d1e17d11eeef76b9cf53a6370b2473564543e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 37/49] fix: gosync patch: remove the temporary file of a patch
 that failed

---
 cmd/gosync/patch.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 4643750..adcb71e 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -115,11 +115,12 @@ func Patch(c *cli.Context) error {
 
 		err = rsync.Patch()
 
-		if err != nil {
-			return err
+		// after a failure, too: the temporary file is removed
+		if e := rsync.Close(); err == nil {
+			err = e
 		}
 
-		return rsync.Close()
+		return err
 	})
 	return nil
 }
-- 
2.43.0


From c59648f4ff4fd208e9e834adf95e010c9a0615b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 38/49] fix: gosync: report the errors of commands by the exit
 status

---
 cmd/gosync/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/main.go b/cmd/gosync/main.go
index 4ff5578..c7aa6f6 100644
--- a/cmd/gosync/main.go
+++ b/cmd/gosync/main.go
@@ -61,5 +61,8 @@ func main() {
 		return nil
 	}
 
-	app.Run(os.Args)
+	if err := app.Run(os.Args); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 3fa8a7e1851b1cc75fe2fbb025887c6b57a28de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 39/49] fix: gosync build: do not replace the file by its own
 index

---
 cmd/gosync/build.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 9051435..94e9cb6 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -6,6 +6,7 @@ import (
 	"path/filepath"
 	"time"
 
+	gosync_main "github.com/Redundancy/go-sync"
 	"github.com/Redundancy/go-sync/filechecksum"
 	"github.com/urfave/cli/v2"
 )
@@ -54,6 +55,16 @@ func Build(c *cli.Context) error {
 
 	ext := filepath.Ext(filename)
 	outfilePath := filename[:len(filename)-len(ext)] + ".gosync"
+
+	if same, err := gosync_main.IsSameFile(filename, outfilePath); err == nil && same {
+		fmt.Fprintf(
+			os.Stderr,
+			"The index of %v would replace the file itself\n",
+			filename,
+		)
+		os.Exit(1)
+	}
+
 	outputFile, err := os.Create(outfilePath)
 
 	if err != nil {
-- 
2.43.0


From ba034840df05d3db61587fd1a03d89cdb1af83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 40/49] fix: gosync build: reject block sizes that the index
 cannot have

---
 cmd/gosync/build.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 94e9cb6..0c897f3 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -33,6 +33,12 @@ func init() {
 func Build(c *cli.Context) error {
 	filename := c.Args().Get(0)
 	blocksize := uint32(c.Int("blocksize"))
+
+	if int64(blocksize) != int64(c.Int("blocksize")) || blocksize == 0 {
+		fmt.Fprintf(os.Stderr, "The block size %v is not possible\n", c.Int("blocksize"))
+		os.Exit(1)
+	}
+
 	generator := filechecksum.NewFileChecksumGenerator(uint(blocksize))
 	inputFile, err := os.Open(filename)
 
-- 
2.43.0


From 59fc5a6ce21c8afdb41d2a3471271f9df92bcc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 41/49] fix: gosync diff: do not compare a directory as if it
 were an empty file

---
 cmd/gosync/diff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index 0d35f77..95addbb 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -80,6 +80,10 @@ func Diff(c *cli.Context) error {
 		os.Exit(1)
 	}
 
+	if fi.IsDir() {
+		return fmt.Errorf("%v is a directory", localFilename)
+	}
+
 	num_matchers := int64(c.Int("p"))
 
 	localFile_size := fi.Size()
-- 
2.43.0


From bd1c1ff189ece50dd63b799268c2a94235109b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 42/49] fix: gosync: read the whole signature of an index that
 arrives in pieces

---
 cmd/gosync/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 99131c4..37942a2 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -173,7 +173,8 @@ func readHeadersAndCheck(
 ) {
 	b := make([]byte, len(magicString))
 
-	if _, err = r.Read(b); err != nil {
+	// a pipe or connection may deliver it in pieces
+	if _, err = io.ReadFull(r, b); err != nil {
 		return
 	} else if string(b) != magicString {
 		err = errors.New(
-- 
2.43.0


From dcc057c198a4157438baccad5d4333ce22fc9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 43/49] fix: gosync patch: accept an index by URL, as its
 description says

---
 cmd/gosync/common.go | 4 +++-
 cmd/gosync/patch.go  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 37942a2..277d286 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -93,7 +93,8 @@ func getLocalOrRemoteFile(path string) (io.ReadCloser, error) {
 	switch {
 	case err != nil:
 		return os.Open(path)
-	case url.Scheme == "":
+	case url.Scheme != "http" && url.Scheme != "https":
+		// also the drive of a Windows path
 		return os.Open(path)
 	default:
 		response, err := http.Get(path)
@@ -103,6 +104,7 @@ func getLocalOrRemoteFile(path string) (io.ReadCloser, error) {
 		}
 
 		if response.StatusCode < 200 || response.StatusCode > 299 {
+			response.Body.Close()
 			return nil, fmt.Errorf("Request to %v returned status: %v", path, response.Status)
 		}
 
diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index adcb71e..740ee58 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -58,7 +58,8 @@ func Patch(c *cli.Context) error {
 			outFilename = c.Args().Get(3)
 		}
 
-		indexReader, e := os.Open(summaryFile)
+		// the index may be local or remote
+		indexReader, e := getLocalOrRemoteFile(summaryFile)
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From f237d07f4569a202a89b95fcaae3af449ee6a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 44/49] fix: gosync: a BasicSummary without ChecksumLookup
 disables verification, as documented, instead of crashing

---
 rsync.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rsync.go b/rsync.go
index b35ebc2..d440b69 100644
--- a/rsync.go
+++ b/rsync.go
@@ -92,6 +92,15 @@ func (fs *BasicSummary) GetFileSize() int64 {
 	return fs.FileSize
 }
 
+// GetStrongChecksumForBlock gets the checksum to verify a block with, or nil if there is nothing to verify it with
+func (fs *BasicSummary) GetStrongChecksumForBlock(blockID int) []byte {
+	if fs.ChecksumLookup == nil {
+		return nil
+	}
+
+	return fs.ChecksumLookup.GetStrongChecksumForBlock(blockID)
+}
+
 // MakeRSync creates an RSync object using string paths,
 // inferring most of the configuration
 func MakeRSync(
-- 
2.43.0


From 0c2d040182905469a747bb1c0e3bbf3617bd1d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:23 +0000
Subject: [PATCH 45/49] fix: BlockSourceBase: deliver each of several
 overlapping requests that start with the same block

---
 blocksources/blocksourcebase.go       | 4 ++--
 blocksources/sortableBlockResponse.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 856a85b..de20f58 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -254,10 +254,10 @@ func (s *BlockSourceBase) loop() {
 
 		case pendingResponse.sendIfPending() <- pendingResponse.Response():
 			// lower blocks may have been requested since this response was set
-			delivered := pendingResponse.Response().StartBlock
+			delivered := pendingResponse.Response()
 			pendingResponse.clear()
 			responseOrdering = responseOrdering.without(delivered)
-			requestOrdering = requestOrdering.without(delivered)
+			requestOrdering = requestOrdering.without(delivered.StartBlock)
 
 			// check if there's another response to enqueue
 			if len(responseOrdering) > 0 {
diff --git a/blocksources/sortableBlockResponse.go b/blocksources/sortableBlockResponse.go
index 4ad3279..c25fe73 100644
--- a/blocksources/sortableBlockResponse.go
+++ b/blocksources/sortableBlockResponse.go
@@ -18,10 +18,10 @@ func (r PendingResponses) Less(i, j int) bool {
 	return r[i].StartBlock < r[j].StartBlock
 }
 
-// without removes the response that starts with the block
-func (r PendingResponses) without(startBlock uint) PendingResponses {
+// without removes one response like the given one: overlapping requests may start with the same block
+func (r PendingResponses) without(response patcher.BlockReponse) PendingResponses {
 	for i, v := range r {
-		if v.StartBlock == startBlock {
+		if v.StartBlock == response.StartBlock && len(v.Data) == len(response.Data) {
 			return append(r[:i], r[i+1:]...)
 		}
 	}
-- 
2.43.0


From 8efb8456db9b5f6f15fd9ff25092e5f76adbe94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:01 +0000
Subject: [PATCH 46/49] fix: gosync: read an index file whose name starts with
 http: but is no address

---
 cmd/gosync/common.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 277d286..62e56f8 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -96,6 +96,9 @@ func getLocalOrRemoteFile(path string) (io.ReadCloser, error) {
 	case url.Scheme != "http" && url.Scheme != "https":
 		// also the drive of a Windows path
 		return os.Open(path)
+	case url.Host == "":
+		// a file name such as http:file
+		return os.Open(path)
 	default:
 		response, err := http.Get(path)
 
-- 
2.43.0


From a2c117be5ba4fd5e1791200cfb4ce424367f771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:02 +0000
Subject: [PATCH 47/49] fix: gosync diff: report that the local file cannot be
 read instead of no matches

---
 cmd/gosync/diff.go |  4 ++++
 comparer/merger.go | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index 95addbb..5b3bc91 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -103,6 +103,10 @@ func Diff(c *cli.Context) error {
 
 	mergedBlocks := merger.GetMergedBlocks()
 
+	if err = merger.Err(); err != nil {
+		return fmt.Errorf("Could not read %v: %v", localFilename, err)
+	}
+
 	fmt.Println("\nMatched:")
 	totalMatchingSize := uint64(0)
 	matchedBlockCountAfterMerging := uint(0)
diff --git a/comparer/merger.go b/comparer/merger.go
index 28d7ca7..d6c1ecb 100644
--- a/comparer/merger.go
+++ b/comparer/merger.go
@@ -19,6 +19,9 @@ type MatchMerger struct {
 	startEndBlockMap *llrb.LLRB
 
 	blockCount uint
+
+	// the first error that ended one of the streams
+	err error
 }
 
 // a span of multiple blocks, from start to end, which match the blocks
@@ -145,6 +148,11 @@ func (merger *MatchMerger) StartMergeResultStream(
 
 		for result := range resultStream {
 			if result.Err != nil {
+				merger.Lock()
+				if merger.err == nil {
+					merger.err = result.Err
+				}
+				merger.Unlock()
 				return
 			}
 
@@ -272,6 +280,13 @@ func (merger *MatchMerger) GetMergedBlocks() (sorted BlockSpanList) {
 	return
 }
 
+// Err waits for the streams like GetMergedBlocks, and returns the first error that ended one
+// of them: what follows it in that stream is missing from the merged blocks
+func (merger *MatchMerger) Err() error {
+	merger.wait.Wait()
+	return merger.err
+}
+
 // Creates a list of spans that are missing.
 // note that maxBlock is blockCount-1
 func (l BlockSpanList) GetMissingBlocks(maxBlock uint) (sorted BlockSpanList) {
-- 
2.43.0


From 2f284d468116de77db7e423045b16e1a85332edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 48/49] fix: gosync build: report a file whose content does not
 have its size instead of writing an index that fits nothing

---
 cmd/gosync/build.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 0c897f3..e4ded40 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"time"
@@ -97,7 +98,8 @@ func Build(c *cli.Context) error {
 	}
 
 	start := time.Now()
-	_, err = generator.GenerateChecksums(inputFile, outputFile)
+	counted := &countingReader{r: inputFile}
+	_, err = generator.GenerateChecksums(counted, outputFile)
 	end := time.Now()
 
 	if err != nil {
@@ -110,6 +112,18 @@ func Build(c *cli.Context) error {
 		os.Exit(2)
 	}
 
+	// the header has the size: the file changed meanwhile, or is no regular file
+	if counted.n != file_size {
+		fmt.Fprintf(
+			os.Stderr,
+			"Error generating checksum: %v has %v bytes, but its size is %v\n",
+			filename,
+			counted.n,
+			file_size,
+		)
+		os.Exit(2)
+	}
+
 	inputFileInfo, err := os.Stat(filename)
 	if err != nil {
 		fmt.Fprintf(
@@ -131,3 +145,15 @@ func Build(c *cli.Context) error {
 
 	return nil
 }
+
+// countingReader counts the bytes that were read
+type countingReader struct {
+	r io.Reader
+	n int64
+}
+
+func (c *countingReader) Read(p []byte) (n int, err error) {
+	n, err = c.r.Read(p)
+	c.n += int64(n)
+	return
+}
-- 
2.43.0


From 1da078947944841f8e44368483f684ce80440d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:48 +0000
Subject: [PATCH 49/49] fix: BlockSourceBase: report more data than asked for
 instead of crashing in the verifier

---
 blocksources/blocksourcebase.go | 5 ++++-
 blocksources/helpers.go         | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index de20f58..575b5c0 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -187,6 +187,7 @@ func (s *BlockSourceBase) loop() {
 				resultChan <- asyncResult{
 					startBlockID: nextRequest.StartBlockID,
 					endBlockID:   nextRequest.EndBlockID,
+					length:       endOffset - startOffset,
 					data:         result,
 					err:          err,
 				}
@@ -220,7 +221,9 @@ func (s *BlockSourceBase) loop() {
 
 			s.bytesRequested += int64(len(result.data))
 
-			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
+			// more data than was asked for would be checked against blocks that may not exist
+			if s.Verifier != nil && (int64(len(result.data)) > result.length ||
+				!s.Verifier.VerifyBlockRange(result.startBlockID, result.data)) {
 				pendingErrors.setError(
 					fmt.Errorf(
 						"The returned block range (%v-%v) did not match the expected checksum for the blocks",
diff --git a/blocksources/helpers.go b/blocksources/helpers.go
index a9ef639..f04b9eb 100644
--- a/blocksources/helpers.go
+++ b/blocksources/helpers.go
@@ -107,6 +107,7 @@ func (r UintSlice) without(startBlock uint) UintSlice {
 type asyncResult struct {
 	startBlockID uint
 	endBlockID   uint
+	length       int64 // in bytes, as asked for
 	data         []byte
 	err          error
 }
-- 
2.43.0

