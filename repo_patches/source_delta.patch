From 656775aba7113f1ad6dcff87e18292602720d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 01/40] fix: return pass group decoding errors from the worker
 pool

---
 frame/Frame.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 67ccedf..cfa07f8 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -678,13 +678,15 @@ func (f *Frame) decodePasses(reader jxlio.BitReader) error {
 	return nil
 }
 
-func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) {
+func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) error {
 	for inp := range inputChan {
 		if err := f.doProcessing(inp.iPass, inp.iGroup, passGroups); err != nil {
 			log.Errorf("Error processing %v %v %v", inp.iPass, inp.iGroup, err)
+			return err
 		}
 
 	}
+	return nil
 }
 
 func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) error {
@@ -751,15 +753,22 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	if maxGoroutines < 1 {
 		maxGoroutines = 1
 	}
+	workerErrChan := make(chan error, maxGoroutines)
 	for i := 0; i < maxGoroutines; i++ {
 		wg.Add(1)
 		go func() {
-			f.startWorker(inputChan, passGroups)
-			wg.Done()
+			defer wg.Done()
+			if err := f.startWorker(inputChan, passGroups); err != nil {
+				workerErrChan <- err
+			}
 		}()
 	}
 
 	wg.Wait()
+	close(workerErrChan)
+	if len(workerErrChan) > 0 {
+		return <-workerErrChan
+	}
 
 	for pass := 0; pass < numPasses; pass++ {
 		j := 0
-- 
2.43.0


From 323c7ea446c6975d9364752ee70c890cd73b4108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 02/40] fix: DecodeFrame reports invertSubsampling errors

---
 frame/Frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index cfa07f8..df23fcb 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -460,7 +460,7 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 	}
 
 	if err := f.invertSubsampling(); err != nil {
-		return nil
+		return err
 	}
 
 	if f.Header.restorationFilter.gab {
-- 
2.43.0


From 97b85d71d5bc746cf1f4068f6829205907206afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 03/40] fix: RestorationFilter reports truncated EPF weights

---
 frame/RestorationFilter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frame/RestorationFilter.go b/frame/RestorationFilter.go
index 749f55e..c103421 100644
--- a/frame/RestorationFilter.go
+++ b/frame/RestorationFilter.go
@@ -129,7 +129,10 @@ func NewRestorationFilterWithReader(reader jxlio.BitReader, encoding uint32) (*R
 			}
 		}
 
-		_, _ = reader.ReadBits(32) // ??? what do we do with this data?
+		// ??? what do we do with this data?
+		if _, err = reader.ReadBits(32); err != nil {
+			return nil, err
+		}
 	}
 
 	if !allDefault && rf.epfIterations > 0 {
-- 
2.43.0


From 56fdce261746bbfc1fcffc801278bc68329015ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 04/40] fix: PNG writer reports zlib close errors

---
 core/png_writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/png_writer.go b/core/png_writer.go
index ca2a5d7..93b5cfb 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -376,7 +376,9 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 			}
 		}
 	}
-	wr.Close()
+	if err := wr.Close(); err != nil {
+		return err
+	}
 
 	if _, err := buf.Write(compressedBytes.Bytes()); err != nil {
 		return err
-- 
2.43.0


From c620db7ad08e6497cfe2e3db9efff5981bc04cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 05/40] fix: bit reader does not depend on how the source
 chunks its reads

---
 jxlio/bitreader.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 48ca4ab..d017f01 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -97,14 +97,11 @@ func (br *BitStreamReader) ReadBytesToBuffer(buffer []uint8, numBytes uint32) er
 		return errors.New("BitStreamReader cache not aligned")
 	}
 
-	n, err := br.stream.Read(buffer[:numBytes])
-	if err != nil {
+	// a Read may legitimately return fewer bytes than asked for, so keep going
+	// until everything is there.
+	if _, err := io.ReadFull(br.stream, buffer[:numBytes]); err != nil {
 		return err
 	}
-
-	if n != int(numBytes) {
-		return errors.New("unable to read all bytes")
-	}
 	return nil
 }
 
@@ -112,7 +109,7 @@ func (br *BitStreamReader) ReadBytesToBuffer(buffer []uint8, numBytes uint32) er
 func (br *BitStreamReader) readBit() (uint8, error) {
 	if br.index == 0 {
 
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
@@ -162,7 +159,7 @@ func (br *BitStreamReader) ReadBits(bits uint32) (uint64, error) {
 
 	// Read full bytes directly while we need 8+ more bits
 	for bits-bitsRead >= 8 {
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
@@ -174,7 +171,7 @@ func (br *BitStreamReader) ReadBits(bits uint32) (uint64, error) {
 	// Read remaining bits (less than 8)
 	remaining := bits - bitsRead
 	if remaining > 0 {
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From c06a497fd3f949f983d04be2be5f586efc932a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 06/40] fix: SkipBits skips the right bits when part way
 through a byte, counts them, and does not overflow

---
 jxlio/bitreader.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index d017f01..3e02fe0 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -402,15 +402,27 @@ func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 }
 
 func (br *BitStreamReader) SkipBits(bits uint32) error {
+	return br.skipBits(uint64(bits))
+}
+
+func (br *BitStreamReader) skipBits(bits uint64) error {
+
+	// finish off the byte we're part way through.
+	for bits > 0 && br.index != 0 {
+		if _, err := br.readBit(); err != nil {
+			return err
+		}
+		bits--
+	}
 
+	// now aligned, so whole bytes can be dropped.
 	numBytes := bits / 8
 	if numBytes > 0 {
-		buffer := make([]byte, numBytes)
-		_, err := br.stream.Read(buffer)
+		n, err := io.CopyN(io.Discard, br.stream, int64(numBytes))
+		br.bitsRead += uint64(n) * 8
 		if err != nil {
 			return err
 		}
-		br.currentByte = buffer[numBytes-1]
 	}
 
 	// read bits so we can keep track of where we are.
@@ -424,7 +436,7 @@ func (br *BitStreamReader) SkipBits(bits uint32) error {
 }
 
 func (br *BitStreamReader) Skip(bytes uint32) (int64, error) {
-	err := br.SkipBits(bytes << 3)
+	err := br.skipBits(uint64(bytes) << 3)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From af123fae8602de709ff3daa2d3c9ead192b312e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 07/40] fix: ShowBits leaves the reader untouched when it fails

---
 jxlio/bitreader.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 3e02fe0..58178b8 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -385,11 +385,9 @@ func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 	oldIndex := br.index
 	oldBitsRead := br.bitsRead
 
-	b, err := br.ReadBits(uint32(bits))
-	if err != nil {
-		return 0, err
-	}
+	b, readErr := br.ReadBits(uint32(bits))
 
+	// put everything back, even if there were not enough bits to show.
 	_, err = br.Seek(curPos, io.SeekStart)
 	if err != nil {
 		return 0, err
@@ -398,6 +396,9 @@ func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 	br.index = oldIndex
 	br.bitsRead = oldBitsRead
 
+	if readErr != nil {
+		return 0, readErr
+	}
 	return b, nil
 }
 
-- 
2.43.0


From cea914edfd0e0d7fdec8993f271c3efc57c396ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 08/40] fix: container box sizes are validated, size 0 and 64
 bit sizes are handled

---
 core/read_jxl_boxes.go | 78 +++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 24 deletions(-)

diff --git a/core/read_jxl_boxes.go b/core/read_jxl_boxes.go
index 44425da..08855ea 100644
--- a/core/read_jxl_boxes.go
+++ b/core/read_jxl_boxes.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"io"
+	"math"
 
 	"github.com/kpfaulkner/jxl-go/jxlio"
 )
@@ -65,6 +66,9 @@ func (br *BoxReader) ReadBoxHeader() ([]ContainerBoxHeader, error) {
 	if containerBoxHeaders, err = br.readAllBoxes(); err != nil {
 		return nil, err
 	}
+	if len(containerBoxHeaders) == 0 {
+		return nil, errors.New("no codestream box found")
+	}
 
 	return containerBoxHeaders, nil
 }
@@ -86,25 +90,32 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 		}
 
 		boxSize := makeTag(boxSizeArray, 0, 4)
+
+		// size of 0 means the box runs to the end of the file.
+		toEndOfFile := boxSize == 0
+		headerSize := uint64(8)
+
+		err = br.reader.ReadBytesToBuffer(boxTag, 4)
+		if err != nil {
+			return nil, err
+		}
+		tag := makeTag(boxTag, 0, 4)
+
+		// size of 1 means the real size follows the tag as 8 bytes
 		if boxSize == 1 {
 			err = br.reader.ReadBytesToBuffer(boxSizeArray, 8)
 			if err != nil {
 				return nil, err
 			}
 			boxSize = makeTag(boxSizeArray, 0, 8)
-			if boxSize > 0 {
-				boxSize -= 8
-			}
-		}
-		if boxSize > 0 {
-			boxSize -= 8
+			headerSize = 16
 		}
-
-		err = br.reader.ReadBytesToBuffer(boxTag, 4)
-		if err != nil {
-			return nil, err
+		if !toEndOfFile {
+			if boxSize < headerSize || boxSize > math.MaxInt64 {
+				return nil, errors.New("invalid box size")
+			}
+			boxSize -= headerSize
 		}
-		tag := makeTag(boxTag, 0, 4)
 
 		// check boxType...  if we dont know the box type, just skip over the bytes and keep reading.
 		switch tag {
@@ -114,7 +125,12 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 			if err != nil {
 				return nil, err
 			}
-			boxSize -= 4
+			if !toEndOfFile {
+				if boxSize < 4 {
+					return nil, errors.New("invalid JXLP box size")
+				}
+				boxSize -= 4
+			}
 
 			// fileoffset...  directly from ReadSeeker?
 			pos, err := br.reader.Seek(0, io.SeekCurrent)
@@ -129,6 +145,9 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 				Processed: false,
 			}
 			boxHeaders = append(boxHeaders, bh)
+			if toEndOfFile {
+				return boxHeaders, nil
+			}
 			// skip past this box.
 			_, err = br.SkipFully(int64(boxSize))
 			if err != nil {
@@ -162,6 +181,9 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 				Processed: false,
 			}
 			boxHeaders = append(boxHeaders, bh)
+			if toEndOfFile {
+				return boxHeaders, nil
+			}
 
 			// skip past this box.
 			_, err = br.SkipFully(int64(boxSize))
@@ -170,17 +192,17 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 			}
 
 		default:
+			// nothing can follow a box that runs to the end of the file.
+			if toEndOfFile {
+				return boxHeaders, nil
+			}
 			// skip over the bytes
-			if boxSize > 0 {
-				s, err := br.SkipFully(int64(boxSize))
-				if err != nil {
-					return nil, err
-				}
-				if s != 0 {
-					return nil, errors.New("truncated extra box")
-				}
-			} else {
-				panic("java read supplyExceptionally... unsure why?")
+			s, err := br.SkipFully(int64(boxSize))
+			if err != nil {
+				return nil, err
+			}
+			if s != 0 {
+				return nil, errors.New("truncated extra box")
 			}
 		}
 	}
@@ -188,8 +210,16 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 
 // returns number of bytes that were NOT skipped.
 func (br *BoxReader) SkipFully(i int64) (int64, error) {
-	n, err := br.reader.Skip(uint32(i))
-	return i - n, err
+	remaining := i
+	for remaining > 0 {
+		// the reader can only skip 32 bits worth of bytes at a time.
+		n, err := br.reader.Skip(uint32(min(remaining, math.MaxUint32)))
+		if err != nil {
+			return remaining, err
+		}
+		remaining -= n
+	}
+	return remaining, nil
 }
 
 func makeTag(bytes []uint8, offset int, length int) uint64 {
-- 
2.43.0


From df94bb05fb2c2a1b55e7dafd5cac7f735ef4131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 09/40] fix: an empty codestream is an error rather than a nil
 image

---
 core/jxl_codestream_decoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index bef88fd..c4df831 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -69,7 +69,7 @@ func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 	}
 
 	if jxl.atEnd() {
-		return nil, nil
+		return nil, io.ErrUnexpectedEOF
 	}
 
 	level := int32(jxl.level)
@@ -96,7 +96,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 	}
 
 	if jxl.atEnd() {
-		return nil, nil
+		return nil, io.ErrUnexpectedEOF
 	}
 
 	level := int32(jxl.level)
@@ -153,7 +153,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		}
 
 		if jxl.atEnd() {
-			return nil, nil
+			return nil, io.ErrUnexpectedEOF
 		}
 
 		for {
@@ -307,7 +307,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		return img, nil
 	}
 
-	return nil, nil
+	return nil, errors.New("no codestream found")
 }
 
 // Read signature
-- 
2.43.0


From a7d19a99d2f87b4d71dc3743e544b398f615fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 10/40] fix: ParseOnly stops after the last frame

---
 core/jxl_codestream_decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index c4df831..635dab5 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -177,6 +177,9 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 				if err := imgFrame.SkipFrameData(); err != nil {
 					return nil, err
 				}
+				if header.IsLast {
+					break
+				}
 				continue
 			}
 
-- 
2.43.0


From 39f40069ad5b0da86975258b61def99aa45bd65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 11/40] fix: truncated MA trees are reported as errors instead
 of a panic

---
 entropy/EntropyStream.go | 10 +++-------
 frame/MATree.go          | 12 ++++++++++--
 frame/fakes.go           |  6 +++---
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index 3917298..a9cc825 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -45,7 +45,7 @@ type EntropyStreamer interface {
 	GetDists() []SymbolDistribution
 	GetState() *ANSState
 	ReadSymbol(reader jxlio.BitReader, context int) (int32, error)
-	TryReadSymbol(reader jxlio.BitReader, context int) int32
+	TryReadSymbol(reader jxlio.BitReader, context int) (int32, error)
 	ReadSymbolWithMultiplier(reader jxlio.BitReader, context int, distanceMultiplier int32) (int32, error)
 	ReadHybridInteger(reader jxlio.BitReader, config *HybridIntegerConfig, token int32) (int32, error)
 	ValidateFinalState() bool
@@ -301,12 +301,8 @@ func (es *EntropyStream) ReadSymbol(reader jxlio.BitReader, context int) (int32,
 	return es.ReadSymbolWithMultiplier(reader, context, 0)
 }
 
-func (es *EntropyStream) TryReadSymbol(reader jxlio.BitReader, context int) int32 {
-	v, err := es.ReadSymbol(reader, context)
-	if err != nil {
-		panic(err)
-	}
-	return v
+func (es *EntropyStream) TryReadSymbol(reader jxlio.BitReader, context int) (int32, error) {
+	return es.ReadSymbol(reader, context)
 }
 
 func (es *EntropyStream) ReadSymbolWithMultiplier(reader jxlio.BitReader, context int, distanceMultiplier int32) (int32, error) {
diff --git a/frame/MATree.go b/frame/MATree.go
index be99ee5..46add67 100644
--- a/frame/MATree.go
+++ b/frame/MATree.go
@@ -55,7 +55,11 @@ func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc
 		}
 
 		if property >= 0 {
-			value := jxlio.UnpackSigned(uint32(stream.TryReadSymbol(reader, 0)))
+			symbol, err := stream.TryReadSymbol(reader, 0)
+			if err != nil {
+				return nil, err
+			}
+			value := jxlio.UnpackSigned(uint32(symbol))
 			leftChild := len(nodes) + nodesRemaining + 1
 			node.property = property
 			node.predictor = -1
@@ -76,7 +80,11 @@ func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc
 				return nil, errors.New("invalid predictor value")
 			}
 
-			offset := jxlio.UnpackSigned(uint32(stream.TryReadSymbol(reader, 3)))
+			symbol, err := stream.TryReadSymbol(reader, 3)
+			if err != nil {
+				return nil, err
+			}
+			offset := jxlio.UnpackSigned(uint32(symbol))
 
 			var mulLog int32
 			if mulLog, err = stream.ReadSymbol(reader, 4); err != nil {
diff --git a/frame/fakes.go b/frame/fakes.go
index 6ecfcbc..2a0b854 100644
--- a/frame/fakes.go
+++ b/frame/fakes.go
@@ -149,14 +149,14 @@ func (f *FakeEntropyStreamer) ReadSymbol(reader jxlio.BitReader, context int) (i
 	return symbol, nil
 }
 
-func (f *FakeEntropyStreamer) TryReadSymbol(reader jxlio.BitReader, context int) int32 {
+func (f *FakeEntropyStreamer) TryReadSymbol(reader jxlio.BitReader, context int) (int32, error) {
 	if len(f.FakeTrySymbols) == 0 {
-		return 0
+		return 0, nil
 	}
 
 	symbol := f.FakeTrySymbols[0]
 	f.FakeTrySymbols = f.FakeTrySymbols[1:]
-	return symbol
+	return symbol, nil
 }
 
 func (f FakeEntropyStreamer) ReadSymbolWithMultiplier(reader jxlio.BitReader, context int, distanceMultiplier int32) (int32, error) {
-- 
2.43.0


From 13309b37117b610b8dee30f68586b054c6952cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 12/40] fix: BitReaderRecorder.GetBitsCount reports the count
 instead of panicking

---
 testcommon/bitreaderRecorder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/testcommon/bitreaderRecorder.go b/testcommon/bitreaderRecorder.go
index eda4c32..f2826d4 100644
--- a/testcommon/bitreaderRecorder.go
+++ b/testcommon/bitreaderRecorder.go
@@ -115,8 +115,9 @@ func (fbr *BitReaderRecorder) ReadU8() (int, error) {
 }
 
 func (fbr *BitReaderRecorder) GetBitsCount() uint64 {
-	//TODO implement me
-	panic("implement me")
+	res := fbr.realBitReader.BitsRead()
+	fbr.GetBitsCountData = append(fbr.GetBitsCountData, res)
+	return res
 }
 
 func (fbr *BitReaderRecorder) ZeroPadToByte() error {
-- 
2.43.0


From 9c29a857515e6224708990ee4e5c7c3511fc70f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 13/40] fix: unsupported features are reported as errors
 instead of panics

---
 core/jxl_codestream_decoder.go | 2 +-
 core/jxl_image.go              | 5 +++--
 core/pfm_writer.go             | 3 ++-
 core/png_writer.go             | 3 ++-
 frame/FrameHeader.go           | 3 ++-
 frame/PassGroup.go             | 4 ++--
 6 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 635dab5..2deb966 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -238,7 +238,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 
 			if header.Encoding == frame.VARDCT && jxl.options.RenderVarblocks {
-				panic("VARDCT not implemented yet")
+				return nil, errors.New("rendering varblocks is not implemented")
 			}
 
 			if jxl.canvas[0].Height == 0 && jxl.canvas[0].Width == 0 {
diff --git a/core/jxl_image.go b/core/jxl_image.go
index dde581b..63ab81b 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"errors"
 	"fmt"
 	"image"
 
@@ -262,7 +263,7 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 		}
 	}
 	if jxl.alphaIsPremultiplied {
-		panic("not implemented")
+		return nil, errors.New("premultiplied alpha is not implemented")
 	}
 	for c := 0; c < len(buffer); c++ {
 		if buffer[c].IsInt() && jxl.bitDepths[c] == uint32(bitDepth) {
@@ -532,7 +533,7 @@ func (jxl *JXLImage) linearize() (*JXLImage, error) {
 		return jxl, nil
 	}
 
-	panic("not implemented")
+	return nil, errors.New("linearizing this transfer function is not implemented")
 }
 
 func (jxl *JXLImage) toneMapLinear() error {
diff --git a/core/pfm_writer.go b/core/pfm_writer.go
index b0f2376..44bcab1 100644
--- a/core/pfm_writer.go
+++ b/core/pfm_writer.go
@@ -3,6 +3,7 @@ package core
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 
@@ -37,7 +38,7 @@ func WritePFM(jxlImage *JXLImage, output io.Writer) error {
 	nb := make([]image2.ImageBuffer, len(buffer2))
 	for c := 0; c < len(nb); c++ {
 		if buffer2[c].IsInt() {
-			panic("not implemented")
+			return errors.New("writing integer buffers as PFM is not implemented")
 		} else {
 			nb[c] = buffer2[c]
 		}
diff --git a/core/png_writer.go b/core/png_writer.go
index 93b5cfb..d1cc06b 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"encoding/binary"
+	"errors"
 	"hash/crc32"
 	"io"
 
@@ -98,7 +99,7 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 	}
 
 	if jxlImage.alphaIsPremultiplied {
-		panic("not implemented")
+		return errors.New("premultiplied alpha is not implemented")
 	}
 	for c := 0; c < len(buffer); c++ {
 		if buffer[c].IsInt() && jxlImage.bitDepths[c] == uint32(bitDepth) {
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index d422185..64c114a 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -1,6 +1,7 @@
 package frame
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/kpfaulkner/jxl-go/bundle"
@@ -302,7 +303,7 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 	// nolint
 	if normalFrame && parent.AnimationHeader != nil {
 		// dont care about animation
-		panic("animation")
+		return nil, errors.New("animation is not supported")
 		/*
 			dur, err := reader.ReadU32(0, 0, 1, 0, 0, 8, 0, 32)
 			if err != nil {
diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 29a3b34..bc18cfa 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -109,7 +109,7 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 
 	header := g.frame.Header
 	if prev != nil {
-		panic("not implemented")
+		return errors.New("inverting VarDCT with a previous pass group is not implemented")
 	}
 
 	// differs from jxlatte
@@ -264,7 +264,7 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 				}
 				layBlock(scratchBlock[0], frameBuffer[c], util.ZERO, ppf, tt.getPixelSize())
 			case METHOD_DCT4:
-				panic("not implemented")
+				return errors.New("DCT4 transform not implemented")
 			default:
 				return errors.New("transform not implemented")
 			}
-- 
2.43.0


From f65736bf317384daadf10d6ade98de34ee18f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 14/40] fix: ToImage and WritePNG leave the decoded image
 unchanged

---
 core/jxl_image.go  | 12 +++++++++---
 core/png_writer.go |  5 +++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index 63ab81b..c10cdb1 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -102,7 +102,7 @@ func NewJXLImageFromJXLImage(img *JXLImage, copyBuffer bool) (*JXLImage, error)
 	jxl.bitDepths = make([]uint32, len(img.bitDepths))
 	copy(jxl.bitDepths, img.bitDepths)
 
-	for _, ib := range jxl.Buffer {
+	for _, ib := range img.Buffer {
 		buf := image2.NewImageBufferFromImageBuffer(&ib, copyBuffer)
 		jxl.Buffer = append(jxl.Buffer, *buf)
 	}
@@ -232,7 +232,12 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 	}
 	whitePoint := colour.CM_WP_D65
 	iccProfile := jxl.iccProfile
-	var err error
+
+	// work on a copy, the conversions below happen in place.
+	jxl, err := NewJXLImageFromJXLImage(jxl, true)
+	if err != nil {
+		return nil, err
+	}
 	if iccProfile == nil {
 		// transforms in place
 		img, err := jxl.transform(primaries, whitePoint, tf, PEAK_DETECT_AUTO)
@@ -469,7 +474,8 @@ func (jxl *JXLImage) transferWithOp(f func(v float32) float32) (*JXLImage, error
 		buffers[c] = jxl.Buffer[c].FloatBuffer
 	}
 
-	img, err := NewJXLImageFromJXLImage(jxl, false)
+	// copies the samples so that the extra channels are kept.
+	img, err := NewJXLImageFromJXLImage(jxl, true)
 	if err != nil {
 		return nil, err
 	}
diff --git a/core/png_writer.go b/core/png_writer.go
index d1cc06b..98227ac 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -48,6 +48,11 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 	}
 	whitePoint := colour.CM_WP_D65
 
+	// work on a copy, the conversions below happen in place.
+	jxlImage, err := NewJXLImageFromJXLImage(jxlImage, true)
+	if err != nil {
+		return err
+	}
 	if jxlImage.iccProfile == nil {
 		// transforms in place
 		img, err := jxlImage.transform(primaries, whitePoint, tf, PEAK_DETECT_AUTO)
-- 
2.43.0


From 31fecd368ee4a14d15e1dbd472b362bdeb862b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 15/40] fix: PNG samples use the bit depth declared in the IHDR
 chunk and the alpha channel of the image

---
 core/png_writer.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/core/png_writer.go b/core/png_writer.go
index 98227ac..ecdcc25 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -299,12 +299,9 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 		return err
 	}
 
-	var bitDepth int32
-	if jxlImage.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
-	}
+	// samples have to match the bit depth declared in the IHDR chunk.
+	bitDepth := w.bitDepth
+	alphaChannel := jxlImage.imageHeader.GetColourChannelCount() + int(jxlImage.alphaIndex)
 
 	maxValue := int32(^(^0 << bitDepth))
 
@@ -325,7 +322,7 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 	}
 
 	if jxlImage.HasAlpha() {
-		if err = jxlImage.Buffer[3].CastToIntIfMax(maxValue); err != nil {
+		if err = jxlImage.Buffer[alphaChannel].CastToIntIfMax(maxValue); err != nil {
 			return err
 		}
 	}
@@ -350,7 +347,7 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 			// FIXME(kpfaulkner) remove 3 assumption
 			for c := 0; c < jxlImage.imageHeader.GetColourChannelCount(); c++ {
 				dat := jxlImage.Buffer[c].IntBuffer[y][x]
-				if jxlImage.bitDepths[c] == 8 {
+				if bitDepth == 8 {
 					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
 						return err
 					}
@@ -365,8 +362,8 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 
 			}
 			if jxlImage.HasAlpha() {
-				dat := jxlImage.Buffer[3].IntBuffer[y][x]
-				if jxlImage.bitDepths[3] == 8 {
+				dat := jxlImage.Buffer[alphaChannel].IntBuffer[y][x]
+				if bitDepth == 8 {
 					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
 						return err
 					}
-- 
2.43.0


From 4d2eb6af2446e81f84a762edea5d93fd43e58dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 16/40] fix: Go images get 8 bit samples whatever the bit depth
 of the channels

---
 core/jxl_image.go | 48 +++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index c10cdb1..e922926 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -187,27 +187,30 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 	if channelNo < 0 || channelNo >= len(buffer) {
 		return nil, fmt.Errorf("Invalid channel index %d", channelNo)
 	}
-	img := image.NewGray(image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height)))
+	channel := &buffer[channelNo]
+
+	// gray images have 8 bits per sample, whatever the bit depth of the channel.
+	if jxl.bitDepths[channelNo] != 8 {
+		if err := channel.CastToFloatIfMax(^(^0 << jxl.bitDepths[channelNo])); err != nil {
+			return nil, err
+		}
+	}
+	if err := channel.CastToIntIfMax(255); err != nil {
+		return nil, err
+	}
+	if err := channel.Clamp(255); err != nil {
+		return nil, err
+	}
+
+	img := image.NewGray(image.Rect(0, 0, int(channel.Width), int(channel.Height)))
 	pix := img.Pix
 	dx := img.Bounds().Dx()
 	dy := img.Bounds().Dy()
 	pos := 0
-	if buffer[0].IsFloat() {
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-
-				// Assumption of 8 bits per channel. Will do for now.
-				pix[pos] = uint8(buffer[channelNo].FloatBuffer[y][x] * 255)
-				pos++
-			}
-		}
-	} else {
-
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-				pix[pos] = uint8(buffer[channelNo].IntBuffer[y][x])
-				pos++
-			}
+	for y := 0; y < dy; y++ {
+		for x := 0; x < dx; x++ {
+			pix[pos] = uint8(channel.IntBuffer[y][x])
+			pos++
 		}
 	}
 	return img, nil
@@ -216,12 +219,8 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 // ToImage converts to standard Go image.Image NRGBA format for the R,G,B and alpha channels
 func (jxl *JXLImage) ToImage() (image.Image, error) {
 
-	var bitDepth int32
-	if jxl.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
-	}
+	// the Go images created below have 8 bits per sample.
+	bitDepth := int32(8)
 
 	//gray := jxlImage.ColourEncoding == color.CE_GRAY
 	primaries := colour.CM_PRI_SRGB
@@ -327,6 +326,7 @@ func (jxl *JXLImage) create24BitImage(buffer []image2.ImageBuffer) image.Image {
 	dx := img.Bounds().Dx()
 	dy := img.Bounds().Dy()
 	pos := 0
+	alphaChannel := jxl.imageHeader.GetColourChannelCount() + int(jxl.alphaIndex)
 
 	if buffer[0].IsFloat() {
 		for y := 0; y < dy; y++ {
@@ -361,7 +361,7 @@ func (jxl *JXLImage) create24BitImage(buffer []image2.ImageBuffer) image.Image {
 				pos++
 
 				if jxl.imageHeader.HasAlpha() {
-					pix[pos] = uint8(buffer[3].IntBuffer[y][x])
+					pix[pos] = uint8(buffer[alphaChannel].IntBuffer[y][x])
 					pos++
 				} else {
 					pix[pos] = 255
-- 
2.43.0


From c9d3056766b5400841f7814c50dc0012122c5ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 17/40] fix: the registered decoder accepts readers that cannot
 seek and bare codestreams

---
 reader.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/reader.go b/reader.go
index c13f603..fa53936 100644
--- a/reader.go
+++ b/reader.go
@@ -1,7 +1,7 @@
 package jxl_go
 
 import (
-	"errors"
+	"bytes"
 	"image"
 	color2 "image/color"
 	"io"
@@ -11,25 +11,37 @@ import (
 )
 
 const jxlHeader = "\x00\x00\x00\x0C\x4A\x58\x4C\x20\x0D\x0A\x87\x0A"
+const jxlCodestreamHeader = "\xFF\x0A"
 
 func init() {
 	image.RegisterFormat("jxl", jxlHeader, Decode, DecodeConfig)
+	image.RegisterFormat("jxl", jxlCodestreamHeader, Decode, DecodeConfig)
 }
 
-func Decode(r io.Reader) (image.Image, error) {
+// readSeeker returns r as an io.ReadSeeker. The image package hands over readers
+// that cannot seek, those are read into memory.
+func readSeeker(r io.Reader) (io.ReadSeeker, error) {
+	if rs, ok := r.(io.ReadSeeker); ok {
+		return rs, nil
+	}
+	data, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	return bytes.NewReader(data), nil
+}
 
-	var rs io.ReadSeeker
-	var ok bool
+func Decode(r io.Reader) (image.Image, error) {
 
-	if rs, ok = r.(io.ReadSeeker); !ok {
-		return nil, errors.New("required ReadSeeker")
+	rs, err := readSeeker(r)
+	if err != nil {
+		return nil, err
 	}
 
 	jxl := core.NewJXLDecoder(rs, nil)
 
 	var img image.Image
 	var jxlImg *core.JXLImage
-	var err error
 	if jxlImg, err = jxl.Decode(); err != nil {
 		return nil, err
 	}
@@ -41,11 +53,9 @@ func Decode(r io.Reader) (image.Image, error) {
 }
 
 func DecodeConfig(r io.Reader) (image.Config, error) {
-	var rs io.ReadSeeker
-	var ok bool
-
-	if rs, ok = r.(io.ReadSeeker); !ok {
-		return image.Config{}, errors.New("required ReadSeeker")
+	rs, err := readSeeker(r)
+	if err != nil {
+		return image.Config{}, err
 	}
 
 	jxl := core.NewJXLDecoder(rs, nil)
-- 
2.43.0


From 771a92b81928029c3e2e7283a9f4ca0a4f127b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 18/40] fix: DecodeConfig describes the image that Decode
 returns

---
 core/jxl_codestream_decoder.go |  5 +----
 reader.go                      | 19 ++++++-------------
 2 files changed, 7 insertions(+), 17 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 2deb966..5799b5d 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -58,10 +58,7 @@ func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 		return nil, err
 	}
 
-	if len(jxl.boxHeaders) > 1 {
-		return nil, errors.New("multiple boxes found, cannot get image header alone")
-	}
-
+	// the image header is at the start of the first box.
 	box := jxl.boxHeaders[0]
 	_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
 	if err != nil {
diff --git a/reader.go b/reader.go
index fa53936..834ccac 100644
--- a/reader.go
+++ b/reader.go
@@ -6,7 +6,6 @@ import (
 	color2 "image/color"
 	"io"
 
-	"github.com/kpfaulkner/jxl-go/colour"
 	"github.com/kpfaulkner/jxl-go/core"
 )
 
@@ -64,24 +63,18 @@ func DecodeConfig(r io.Reader) (image.Config, error) {
 		return image.Config{}, err
 	}
 
+	// has to match the image that Decode returns.
 	var colourModel color2.Model
-
-	switch header.GetColourModel() {
-	case colour.CE_RGB:
-		colourModel = color2.RGBAModel
-	case colour.CE_XYB:
-		colourModel = color2.GrayModel // unsure how to deal with XYB
-	case colour.CE_GRAY:
+	if header.GetColourChannelCount() == 1 {
 		colourModel = color2.GrayModel
-	default:
-		colourModel = color2.RGBAModel
+	} else {
+		colourModel = color2.NRGBAModel
 	}
 
-	dim := header.GetSize()
 	return image.Config{
 		ColorModel: colourModel,
-		Width:      int(dim.Width),
-		Height:     int(dim.Height),
+		Width:      int(header.OrientedWidth),
+		Height:     int(header.OrientedHeight),
 	}, nil
 
 }
-- 
2.43.0


From 6697b824849f15e8b79243d684319256b4fe1a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 19/40] fix: live frame buffers are not handed to the buffer
 pool

---
 frame/Frame.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index df23fcb..22bdc75 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -795,8 +795,8 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	if f.Header.Encoding == VARDCT {
 
 		// get floating point version of frame buffer
-		buffers := util.MakeMatrix3DPooled[float32](3, 0, 0)
-		defer util.ReturnMatrix3DToPool(buffers)
+		// these are the live buffers of the frame, so they must not go to the pool.
+		buffers := make([][][]float32, 3)
 		for c := 0; c < 3; c++ {
 			if err := f.Buffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
 				return err
-- 
2.43.0


From 16099fc136af334601b95a40b21a5fae2b08c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 20/40] fix: WritePFM does not print to standard output

---
 core/pfm_writer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/pfm_writer.go b/core/pfm_writer.go
index 44bcab1..5db3405 100644
--- a/core/pfm_writer.go
+++ b/core/pfm_writer.go
@@ -54,7 +54,6 @@ func WritePFM(jxlImage *JXLImage, output io.Writer) error {
 			for c := 0; c < cCount; c++ {
 				err := binary.Write(&buf, binary.BigEndian, nb[c].FloatBuffer[y][x])
 				if err != nil {
-					fmt.Println("binary.Write failed:", err)
 					return err
 				}
 			}
-- 
2.43.0


From ee37aca0e5d514a32d919f260e2c87ab1b32b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 21/40] fix: pass group workers do not read planes other
 workers are writing

---
 frame/PassGroup.go | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index bc18cfa..f2dc8a2 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -4,8 +4,6 @@ import (
 	"errors"
 	"fmt"
 
-	log "github.com/sirupsen/logrus"
-
 	"github.com/kpfaulkner/jxl-go/jxlio"
 	"github.com/kpfaulkner/jxl-go/util"
 )
@@ -214,27 +212,15 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 				}
 
 			case METHOD_AFV:
-				if log.GetLevel() >= log.DebugLevel {
-					displayBuffer("before", frameBuffer[c])
-				}
 				// FIXME(kpfaulkner) there is some bug in here compared to JXLatte, but
 				// have yet to figure it out.
 				if err := g.invertAFV(coeffs[c], frameBuffer[c], tt, ppg, ppf, scratchBlock); err != nil {
 					return err
 				}
-				if log.GetLevel() >= log.DebugLevel {
-					displayBuffer("after", frameBuffer[c])
-				}
 			case METHOD_DCT2:
-				if log.GetLevel() >= log.DebugLevel {
-					displayBuffer("DCT2-before", frameBuffer[c])
-				}
 				g.auxDCT2(coeffs[c], scratchBlock[0], ppg, util.ZERO, 2)
 				g.auxDCT2(scratchBlock[0], scratchBlock[1], util.ZERO, util.ZERO, 4)
 				g.auxDCT2(scratchBlock[1], frameBuffer[c], util.ZERO, ppf, 8)
-				if log.GetLevel() >= log.DebugLevel {
-					displayBuffer("DCT2-after", frameBuffer[c])
-				}
 			case METHOD_HORNUSS:
 				g.auxDCT2(coeffs[c], scratchBlock[1], ppg, util.ZERO, 2)
 				for y := int32(0); y < 2; y++ {
-- 
2.43.0


From 0fff2d3965ec910526949a20d827acf6cbc228b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 22/40] fix: LF group workers do not convert the shared LF
 frame in place

---
 frame/Frame.go          | 9 +++++++++
 frame/lfcoefficients.go | 6 ++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 22bdc75..93dfe5e 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -556,6 +556,15 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 	f.lfGroups = make([]*LFGroup, f.numLFGroups)
 
+	// The LF frame is shared by all workers, so convert it before they start.
+	if f.Header.Encoding == VARDCT && f.Header.Flags&USE_LF_FRAME != 0 {
+		for c := range lfBuffer {
+			if err := lfBuffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
+				return err
+			}
+		}
+	}
+
 	// Hoist invariant computation out of the loop
 	frameSize, err := f.GetPaddedFrameSize()
 	if err != nil {
diff --git a/frame/lfcoefficients.go b/frame/lfcoefficients.go
index 422b263..5450473 100644
--- a/frame/lfcoefficients.go
+++ b/frame/lfcoefficients.go
@@ -45,10 +45,12 @@ func NewLFCoefficientsWithReader(reader jxlio.BitReader, parent *LFGroup, frame
 		pX := pos.X << 8
 		lf.dequantLFCoeff = dequantLFCoeff
 		for c := 0; c < 3; c++ {
-			if err := lfBuffer[c].CastToFloatIfMax(^(^0 << frame.getGlobalMetadata().BitDepth.BitsPerSample)); err != nil {
+			// other LF groups read lfBuffer at the same time: never convert it in place
+			lfPlane := lfBuffer[c]
+			if err := lfPlane.CastToFloatIfMax(^(^0 << frame.getGlobalMetadata().BitDepth.BitsPerSample)); err != nil {
 				return nil, err
 			}
-			b := lfBuffer[c].FloatBuffer
+			b := lfPlane.FloatBuffer
 			for y := int32(0); y < int32(len(dequantLFCoeff[c])); y++ {
 				for x, d := pX, 0; x < pX+int32(len(dequantLFCoeff[c][y])); x, d = x+1, d+1 {
 					dequantLFCoeff[c][y][d] = b[pY+y][x]
-- 
2.43.0


From 6c186c318b096359475cb9f81995dc270a385fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 23/40] fix: run-time panics caused by invalid image data are
 returned as errors

---
 core/jxl_decoder.go | 15 +++++++++++++--
 core/jxl_image.go   | 16 +++++++++++++---
 core/pfm_writer.go  | 10 ++++++++--
 core/png_writer.go  | 10 ++++++++--
 frame/Frame.go      | 45 +++++++++++++++++++++++++++++++++++++++++++++
 reader.go           | 15 +++++++++++++--
 util/misc.go        | 15 ++++++++++++++-
 7 files changed, 114 insertions(+), 12 deletions(-)

diff --git a/core/jxl_decoder.go b/core/jxl_decoder.go
index f9631d7..1a92414 100644
--- a/core/jxl_decoder.go
+++ b/core/jxl_decoder.go
@@ -7,6 +7,7 @@ import (
 	"github.com/kpfaulkner/jxl-go/jxlio"
 	"github.com/kpfaulkner/jxl-go/options"
 	"github.com/kpfaulkner/jxl-go/testcommon"
+	"github.com/kpfaulkner/jxl-go/util"
 )
 
 // JXLDecoder decodes the JXL image
@@ -35,7 +36,12 @@ func NewJXLDecoder(in io.ReadSeeker, opts *options.JXLOptions) *JXLDecoder {
 	return jxl
 }
 
-func (jxl *JXLDecoder) Decode() (*JXLImage, error) {
+func (jxl *JXLDecoder) Decode() (decoded *JXLImage, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			decoded, err = nil, util.PanicError(r)
+		}
+	}()
 
 	jxlImage, err := jxl.decoder.decode()
 	if err != nil {
@@ -45,7 +51,12 @@ func (jxl *JXLDecoder) Decode() (*JXLImage, error) {
 	return jxlImage, nil
 }
 
-func (jxl *JXLDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
+func (jxl *JXLDecoder) GetImageHeader() (imageHeader *bundle.ImageHeader, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			imageHeader, err = nil, util.PanicError(r)
+		}
+	}()
 
 	header, err := jxl.decoder.GetImageHeader()
 	if err != nil {
diff --git a/core/jxl_image.go b/core/jxl_image.go
index e922926..3794b55 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -179,7 +179,12 @@ func (jxl *JXLImage) NumExtraChannels() int {
 // ChannelToImage converts a single channel to grayscale Go image.Image interface.
 // Can be used for any channel (R,G,B, alpha, depth..... etc) but is really expected to be
 // used for NON "regular" channels (ie depth etc)
-func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
+func (jxl *JXLImage) ChannelToImage(channelNo int) (converted image.Image, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			converted, err = nil, util.PanicError(r)
+		}
+	}()
 	buffer, err := jxl.getBuffer(true)
 	if err != nil {
 		return nil, err
@@ -217,7 +222,12 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 }
 
 // ToImage converts to standard Go image.Image NRGBA format for the R,G,B and alpha channels
-func (jxl *JXLImage) ToImage() (image.Image, error) {
+func (jxl *JXLImage) ToImage() (converted image.Image, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			converted, err = nil, util.PanicError(r)
+		}
+	}()
 
 	// the Go images created below have 8 bits per sample.
 	bitDepth := int32(8)
@@ -233,7 +243,7 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 	iccProfile := jxl.iccProfile
 
 	// work on a copy, the conversions below happen in place.
-	jxl, err := NewJXLImageFromJXLImage(jxl, true)
+	jxl, err = NewJXLImageFromJXLImage(jxl, true)
 	if err != nil {
 		return nil, err
 	}
diff --git a/core/pfm_writer.go b/core/pfm_writer.go
index 5db3405..bde6b48 100644
--- a/core/pfm_writer.go
+++ b/core/pfm_writer.go
@@ -9,9 +9,15 @@ import (
 
 	"github.com/kpfaulkner/jxl-go/colour"
 	image2 "github.com/kpfaulkner/jxl-go/image"
+	"github.com/kpfaulkner/jxl-go/util"
 )
 
-func WritePFM(jxlImage *JXLImage, output io.Writer) error {
+func WritePFM(jxlImage *JXLImage, output io.Writer) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = util.PanicError(r)
+		}
+	}()
 
 	gray := jxlImage.ColorEncoding == colour.CE_GRAY
 	width := jxlImage.Width
@@ -22,7 +28,7 @@ func WritePFM(jxlImage *JXLImage, output io.Writer) error {
 		pf = "PF"
 	}
 	header := fmt.Sprintf("%s\n%d %d\n1.0\n", pf, width, height)
-	_, err := output.Write([]byte(header))
+	_, err = output.Write([]byte(header))
 	if err != nil {
 		return err
 	}
diff --git a/core/png_writer.go b/core/png_writer.go
index ecdcc25..e2e0b7c 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -9,6 +9,7 @@ import (
 	"io"
 
 	"github.com/kpfaulkner/jxl-go/colour"
+	"github.com/kpfaulkner/jxl-go/util"
 )
 
 type PNGWriter struct {
@@ -23,7 +24,12 @@ type PNGWriter struct {
 
 // WritePNG instead of using standard golang image/png package since we need
 // to write out ICC Profile which doesn't seem to be supported by the standard package.
-func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
+func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = util.PanicError(r)
+		}
+	}()
 
 	w.hdr = jxlImage.isHDR()
 	var bitDepth int32
@@ -49,7 +55,7 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 	whitePoint := colour.CM_WP_D65
 
 	// work on a copy, the conversions below happen in place.
-	jxlImage, err := NewJXLImageFromJXLImage(jxlImage, true)
+	jxlImage, err = NewJXLImageFromJXLImage(jxlImage, true)
 	if err != nil {
 		return err
 	}
diff --git a/frame/Frame.go b/frame/Frame.go
index 93dfe5e..7cc5ba4 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -603,6 +603,11 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 		go func(id uint32) {
 			defer wg.Done()
 			defer func() { <-sem }()
+			defer func() {
+				if r := recover(); r != nil {
+					errChan <- util.PanicError(r)
+				}
+			}()
 
 			reader, err := f.getBitreader(1 + int(id))
 			if err != nil {
@@ -767,6 +772,11 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 		wg.Add(1)
 		go func() {
 			defer wg.Done()
+			defer func() {
+				if r := recover(); r != nil {
+					workerErrChan <- util.PanicError(r)
+				}
+			}()
 			if err := f.startWorker(inputChan, passGroups); err != nil {
 				workerErrChan <- err
 			}
@@ -824,6 +834,11 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 					defer wg.Done()
 					sem <- struct{}{}
 					defer func() { <-sem }()
+					defer func() {
+						if r := recover(); r != nil {
+							errChan <- util.PanicError(r)
+						}
+					}()
 
 					passGroup := &passGroups[p][g]
 					var prev *PassGroup
@@ -1069,6 +1084,7 @@ func (f *Frame) performGabConvolution() error {
 		}
 		rowsPerWorker := (height + int32(numWorkers) - 1) / int32(numWorkers)
 
+		errChan := make(chan error, numWorkers)
 		var wg sync.WaitGroup
 		for w := 0; w < numWorkers; w++ {
 			startY := int32(w) * rowsPerWorker
@@ -1082,10 +1098,19 @@ func (f *Frame) performGabConvolution() error {
 			wg.Add(1)
 			go func(sy, ey int32) {
 				defer wg.Done()
+				defer func() {
+					if r := recover(); r != nil {
+						errChan <- util.PanicError(r)
+					}
+				}()
 				processRows(sy, ey)
 			}(startY, endY)
 		}
 		wg.Wait()
+		close(errChan)
+		if len(errChan) > 0 {
+			return <-errChan
+		}
 
 		f.Buffer[c] = *newBuffer
 	}
@@ -1386,6 +1411,7 @@ func (f *Frame) performEdgePreservingFilter() error {
 		}
 		rowsPerWorker := (height + int32(numWorkers) - 1) / int32(numWorkers)
 
+		errChan := make(chan error, numWorkers)
 		var wg sync.WaitGroup
 		for w := 0; w < numWorkers; w++ {
 			startY := int32(w) * rowsPerWorker
@@ -1399,10 +1425,19 @@ func (f *Frame) performEdgePreservingFilter() error {
 			wg.Add(1)
 			go func(sy, ey int32) {
 				defer wg.Done()
+				defer func() {
+					if r := recover(); r != nil {
+						errChan <- util.PanicError(r)
+					}
+				}()
 				processRows(sy, ey)
 			}(startY, endY)
 		}
 		wg.Wait()
+		close(errChan)
+		if len(errChan) > 0 {
+			return <-errChan
+		}
 
 		for c := 0; c < int(colours); c++ {
 			tmp := f.Buffer[c]
@@ -1520,6 +1555,7 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 	}
 	rows := len(buffer)
 	rowsPerWorker := (rows + maxGoroutines - 1) / maxGoroutines
+	errChan := make(chan error, maxGoroutines)
 	var wg sync.WaitGroup
 
 	for i := 0; i < maxGoroutines; i++ {
@@ -1535,6 +1571,11 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 		wg.Add(1)
 		go func(startY, endY int) {
 			defer wg.Done()
+			defer func() {
+				if r := recover(); r != nil {
+					errChan <- util.PanicError(r)
+				}
+			}()
 			for y := startY; y < endY; y++ {
 				for ky := 0; ky < int(k); ky++ {
 					newBuffer[y*int(k)+ky] = make([]float32, len(buffer[y])*int(k))
@@ -1574,6 +1615,10 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 		}(start, end)
 	}
 	wg.Wait()
+	close(errChan)
+	if len(errChan) > 0 {
+		return nil, <-errChan
+	}
 
 	return image.NewImageBufferFromFloats(newBuffer), nil
 
diff --git a/reader.go b/reader.go
index 834ccac..e91df15 100644
--- a/reader.go
+++ b/reader.go
@@ -7,6 +7,7 @@ import (
 	"io"
 
 	"github.com/kpfaulkner/jxl-go/core"
+	"github.com/kpfaulkner/jxl-go/util"
 )
 
 const jxlHeader = "\x00\x00\x00\x0C\x4A\x58\x4C\x20\x0D\x0A\x87\x0A"
@@ -30,7 +31,12 @@ func readSeeker(r io.Reader) (io.ReadSeeker, error) {
 	return bytes.NewReader(data), nil
 }
 
-func Decode(r io.Reader) (image.Image, error) {
+func Decode(r io.Reader) (decoded image.Image, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			decoded, err = nil, util.PanicError(r)
+		}
+	}()
 
 	rs, err := readSeeker(r)
 	if err != nil {
@@ -51,7 +57,12 @@ func Decode(r io.Reader) (image.Image, error) {
 	return img, nil
 }
 
-func DecodeConfig(r io.Reader) (image.Config, error) {
+func DecodeConfig(r io.Reader) (config image.Config, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			config, err = image.Config{}, util.PanicError(r)
+		}
+	}()
 	rs, err := readSeeker(r)
 	if err != nil {
 		return image.Config{}, err
diff --git a/util/misc.go b/util/misc.go
index 475cbaa..cb3b059 100644
--- a/util/misc.go
+++ b/util/misc.go
@@ -1,6 +1,19 @@
 package util
 
-import "golang.org/x/exp/constraints"
+import (
+	"fmt"
+
+	"golang.org/x/exp/constraints"
+)
+
+// PanicError converts the value of a recovered panic to an error. Invalid image data
+// must not take the host process down.
+func PanicError(r any) error {
+	if err, ok := r.(error); ok {
+		return fmt.Errorf("invalid image data: %w", err)
+	}
+	return fmt.Errorf("invalid image data: %v", r)
+}
 
 func IfThenElse[T any](condition bool, a T, b T) T {
 	if condition {
-- 
2.43.0


From e455008bdbd4382c420fa4ad8a6401be01142434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 24/40] fix: reject non-positive LZ77 copy lengths, which
 recursed without bound

---
 entropy/EntropyStream.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index a9cc825..3881726 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -334,7 +334,11 @@ func (es *EntropyStream) ReadSymbolWithMultiplier(reader jxlio.BitReader, contex
 		if err != nil {
 			return 0, err
 		}
-		es.numToCopy77 = es.lz77MinLength + hi
+		numToCopy := es.lz77MinLength + hi
+		if numToCopy <= 0 {
+			return 0, errors.New("invalid LZ77 copy length")
+		}
+		es.numToCopy77 = numToCopy
 		token, err = lz77dist.ReadSymbol(reader, es.ansState)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From e617e5d885b12aee689b4d48c59cbe6644e14ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:39 +0000
Subject: [PATCH 25/40] fix: saved reference frames and LF frames are no longer
 changed by later processing

---
 core/jxl_codestream_decoder.go | 40 +++++++++++++++-------------------
 frame/Frame.go                 |  5 ++++-
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 5799b5d..cb458d5 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -3,6 +3,7 @@ package core
 import (
 	"errors"
 	"io"
+	"slices"
 
 	"github.com/kpfaulkner/jxl-go/bundle"
 	"github.com/kpfaulkner/jxl-go/colour"
@@ -185,10 +186,10 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 				return nil, err
 			}
 
-			if header.LfLevel > 0 {
-				jxl.lfBuffer[header.LfLevel-1] = imgFrame.Buffer
-			}
 			if header.FrameType == frame.LF_FRAME {
+				if header.LfLevel > 0 {
+					jxl.lfBuffer[header.LfLevel-1] = imgFrame.Buffer
+				}
 				imgFrame.Release()
 				continue
 			}
@@ -211,7 +212,8 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 
 			if save && header.SaveBeforeCT {
-				jxl.reference[header.SaveAsReference] = imgFrame.Buffer
+				// the rest of the pipeline works in place, so keep a copy.
+				jxl.reference[header.SaveAsReference] = copyBuffers(imgFrame.Buffer)
 			}
 
 			err = jxl.computePatches(imgFrame)
@@ -248,22 +250,6 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 				}
 			}
 			if header.FrameType == frame.REGULAR_FRAME || header.FrameType == frame.SKIP_PROGRESSIVE {
-				found := false
-				for i := uint32(0); i < 4; i++ {
-					if image2.ImageBufferSliceEquals(jxl.reference[i], jxl.canvas) && i != header.SaveAsReference {
-						found = true
-						break
-					}
-				}
-
-				if found {
-					canvas2 := make([]image2.ImageBuffer, 0, len(jxl.canvas))
-					for _, ib := range jxl.canvas {
-						ib2 := image2.NewImageBufferFromImageBuffer(&ib, true)
-						canvas2 = append(canvas2, *ib2)
-					}
-					jxl.canvas = canvas2
-				}
 				err = jxl.blendFrame(jxl.canvas, imgFrame)
 				if err != nil {
 					return nil, err
@@ -271,7 +257,8 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 
 			if save && !header.SaveBeforeCT {
-				jxl.reference[header.SaveAsReference] = jxl.canvas
+				// later frames are drawn on the same canvas, so keep a copy.
+				jxl.reference[header.SaveAsReference] = copyBuffers(jxl.canvas)
 			}
 
 			if header.IsLast && header.Duration == 0 {
@@ -731,6 +718,14 @@ func (jxl *JXLCodestreamDecoder) performColourTransforms(matrix *colour.OpsinInv
 	return nil
 }
 
+func copyBuffers(buffers []image2.ImageBuffer) []image2.ImageBuffer {
+	duplicate := make([]image2.ImageBuffer, len(buffers))
+	for i := range buffers {
+		duplicate[i] = *image2.NewImageBufferFromImageBuffer(&buffers[i], true)
+	}
+	return duplicate
+}
+
 func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFrame *frame.Frame) error {
 
 	imageSize := jxl.imageHeader.GetSize()
@@ -774,7 +769,8 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 		isAlpha := c >= int32(imageColours) && jxl.imageHeader.ExtraChannelInfo[c-int32(imageColours)].EcType == bundle.ALPHA
 		premult := hasAlpha && jxl.imageHeader.ExtraChannelInfo[info.AlphaChannel].AlphaAssociated
 
-		refBuffer := jxl.reference[info.Source]
+		// conversions of the reference are for this channel only
+		refBuffer := slices.Clone(jxl.reference[info.Source])
 		err := jxl.convertCanvasWithDifferentBufferType(canvas, c, &frameBuffer, imageColours, frameC, frameColours)
 		if err != nil {
 			return err
diff --git a/frame/Frame.go b/frame/Frame.go
index 7cc5ba4..85d19ce 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"slices"
 	"sync"
 
 	log "github.com/sirupsen/logrus"
@@ -556,8 +557,10 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 	f.lfGroups = make([]*LFGroup, f.numLFGroups)
 
-	// The LF frame is shared by all workers, so convert it before they start.
+	// The LF frame is shared by all workers, so convert it before they start. It
+	// may be used by other frames as well, so leave the original as it is.
 	if f.Header.Encoding == VARDCT && f.Header.Flags&USE_LF_FRAME != 0 {
+		lfBuffer = slices.Clone(lfBuffer)
 		for c := range lfBuffer {
 			if err := lfBuffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
 				return err
-- 
2.43.0


From 317735bc7394a7763625e56de0e6dc86bc69ce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 26/40] fix: the transfer function of an XYB colour encoding is
 implied, not read from the header

---
 colour/colour_encoding_bundle.go | 35 ++++++++++++++++++--------------
 colour/colour_flags.go           | 15 +++++++-------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/colour/colour_encoding_bundle.go b/colour/colour_encoding_bundle.go
index b1e6c6e..8ec540a 100644
--- a/colour/colour_encoding_bundle.go
+++ b/colour/colour_encoding_bundle.go
@@ -109,25 +109,30 @@ func NewColourEncodingBundleWithReader(reader jxlio.BitReader) (*ColourEncodingB
 	}
 
 	if !allDefault && !ceb.UseIccProfile {
-		var useGamma bool
-		if useGamma, err = reader.ReadBool(); err != nil {
-			return nil, err
-		}
-		if useGamma {
-			if tf, err := reader.ReadBits(24); err != nil {
+		if ceb.ColourEncoding == CE_XYB {
+			// the transfer function of XYB is implied (gamma 1/3) and not coded
+			ceb.Tf = TF_XYB_GAMMA
+		} else {
+			var useGamma bool
+			if useGamma, err = reader.ReadBool(); err != nil {
 				return nil, err
+			}
+			if useGamma {
+				if tf, err := reader.ReadBits(24); err != nil {
+					return nil, err
+				} else {
+					ceb.Tf = int32(tf)
+				}
 			} else {
-				ceb.Tf = int32(tf)
+				var tfEnum int32
+				if tfEnum, err = reader.ReadEnum(); err != nil {
+					return nil, err
+				}
+				ceb.Tf = (1 << 24) + tfEnum
 			}
-		} else {
-			var tfEnum int32
-			if tfEnum, err = reader.ReadEnum(); err != nil {
-				return nil, err
+			if !ValidateTransfer(ceb.Tf) {
+				return nil, errors.New("Illegal transfer function")
 			}
-			ceb.Tf = (1 << 24) + tfEnum
-		}
-		if !ValidateTransfer(ceb.Tf) {
-			return nil, errors.New("Illegal transfer function")
 		}
 		if ceb.RenderingIntent, err = reader.ReadEnum(); err != nil {
 			return nil, err
diff --git a/colour/colour_flags.go b/colour/colour_flags.go
index 4419624..1b5c0c2 100644
--- a/colour/colour_flags.go
+++ b/colour/colour_flags.go
@@ -22,13 +22,14 @@ const (
 	RI_SATURATION int32 = 2
 	RI_ABSOLUTE   int32 = 3
 
-	TF_BT709   int32 = 1 + (1 << 24)
-	TF_UNKNOWN int32 = 2 + (1 << 24)
-	TF_LINEAR  int32 = 8 + (1 << 24)
-	TF_SRGB    int32 = 13 + (1 << 24)
-	TF_PQ      int32 = 16 + (1 << 24)
-	TF_DCI     int32 = 17 + (1 << 24)
-	TF_HLG     int32 = 18 + (1 << 24)
+	TF_XYB_GAMMA int32 = 3333333 // gamma 1/3, implied by CE_XYB
+	TF_BT709     int32 = 1 + (1 << 24)
+	TF_UNKNOWN   int32 = 2 + (1 << 24)
+	TF_LINEAR    int32 = 8 + (1 << 24)
+	TF_SRGB      int32 = 13 + (1 << 24)
+	TF_PQ        int32 = 16 + (1 << 24)
+	TF_DCI       int32 = 17 + (1 << 24)
+	TF_HLG       int32 = 18 + (1 << 24)
 )
 
 func ValidateColourEncoding(colourEncoding int32) bool {
-- 
2.43.0


From d2ac548720453e25f853d33a35bbf7786c1ac1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 27/40] fix: preview dimensions coded in units of 8 are
 multiplied by 8

---
 bundle/image_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index d44511b..a5a80aa 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -734,7 +734,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 		if height, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 			return nil, err
 		} else {
-			dim.Height = height
+			dim.Height = height << 3
 		}
 	} else {
 		if height, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
@@ -758,7 +758,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 			if width, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 				return nil, err
 			} else {
-				dim.Width = width
+				dim.Width = width << 3
 			}
 		} else {
 			if width, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
-- 
2.43.0


From 9f041dda1f2b9f55dd3ba15f4b30de5679fbe220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 28/40] fix: the image area limit is computed without 32-bit
 overflow

---
 bundle/image_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index a5a80aa..ecfb050 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -833,7 +833,7 @@ func readSizeHeader(reader jxlio.BitReader, level int32) (util.Dimension, error)
 		log.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 	}
-	if uint64(dim.Width*dim.Height) > maxTimes {
+	if uint64(dim.Width)*uint64(dim.Height) > maxTimes {
 		log.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 	}
-- 
2.43.0


From bbde738f7ccfb75b0a908c886269f9a64a7a1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:57 +0000
Subject: [PATCH 29/40] fix: extension lengths in the headers are counted in
 bits

---
 bundle/Extensions.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/bundle/Extensions.go b/bundle/Extensions.go
index 32edf44..b8d2df7 100644
--- a/bundle/Extensions.go
+++ b/bundle/Extensions.go
@@ -25,26 +25,26 @@ func NewExtensionsWithReader(reader jxlio.BitReader) (*Extensions, error) {
 		return nil, err
 	}
 
-	var length uint64
+	// lengths are in bits
+	var lengths [64]uint64
 	for i := uint64(0); i < 64; i++ {
 		if (1<<i)&ex.ExtensionsKey != 0 {
-			if length, err = reader.ReadU64(); err != nil {
+			if lengths[i], err = reader.ReadU64(); err != nil {
 				return nil, err
 			}
-			if length > math.MaxUint32 {
+			if lengths[i] > math.MaxUint32 {
 				return nil, errors.New("Large Extensions unsupported")
 			}
-			ex.Payloads[i] = make([]byte, length)
+			ex.Payloads[i] = make([]byte, (lengths[i]+7)/8)
 		}
 	}
 	for i := 0; i < 64; i++ {
-		if len(ex.Payloads[i]) > 0 {
-			for j := 0; j < len(ex.Payloads[i]); j++ {
-				if bits, err := reader.ReadBits(8); err != nil {
-					return nil, err
-				} else {
-					ex.Payloads[i][j] = byte(bits)
-				}
+		for j := 0; j < len(ex.Payloads[i]); j++ {
+			n := min(lengths[i]-8*uint64(j), 8)
+			if bits, err := reader.ReadBits(uint32(n)); err != nil {
+				return nil, err
+			} else {
+				ex.Payloads[i][j] = byte(bits)
 			}
 		}
 	}
-- 
2.43.0


From de6a4774ec594df863fc93f77fe31f157b9ed452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:51 +0000
Subject: [PATCH 30/40] fix: the clamp flag of BLEND_MULT does not depend on
 extra channels

---
 frame/BlendingInfo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frame/BlendingInfo.go b/frame/BlendingInfo.go
index 0e4ade4..c342f22 100644
--- a/frame/BlendingInfo.go
+++ b/frame/BlendingInfo.go
@@ -40,8 +40,7 @@ func NewBlendingInfoWithReader(reader jxlio.BitReader, extra bool, fullFrame boo
 	}
 
 	var err error
-	if extra && (bi.Mode == BLEND_BLEND ||
-		bi.Mode == BLEND_MULT ||
+	if bi.Mode == BLEND_MULT || extra && (bi.Mode == BLEND_BLEND ||
 		bi.Mode == BLEND_MULADD) {
 		if bi.Clamp, err = reader.ReadBool(); err != nil {
 			return nil, err
-- 
2.43.0


From 3ba1d53f7cd370eeb17e685f3cc4df3c8958d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:15 +0000
Subject: [PATCH 31/40] fix: squeeze parameters are read with the codings of
 the format

---
 frame/ModularStream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index c7d5ff3..5c063af 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -52,13 +52,13 @@ func NewSqueezeParam(reader jxlio.BitReader) (SqueezeParam, error) {
 	if sp.inPlace, err = reader.ReadBool(); err != nil {
 		return sp, err
 	}
-	if beginC, err := reader.ReadU32(3, 6, 10, 13, 0, 8, 72, 1096); err != nil {
+	if beginC, err := reader.ReadU32(0, 3, 8, 6, 72, 10, 1096, 13); err != nil {
 		return sp, err
 	} else {
 		sp.beginC = int(beginC)
 	}
 
-	if numC, err := reader.ReadU32(0, 0, 0, 4, 1, 2, 3, 4); err != nil {
+	if numC, err := reader.ReadU32(1, 0, 2, 0, 3, 0, 4, 4); err != nil {
 		return sp, err
 	} else {
 		sp.numC = int(numC)
-- 
2.43.0


From 4e5ee28908754a5e4bd8a33313ca094bca2cd354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 32/40] fix: custom quantisation tables may use the DCT4x8 mode

---
 frame/HFGlobal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index 2b8797c..7209915 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -350,6 +350,18 @@ func (hfg *HFGlobal) setupDCTParam(reader jxlio.BitReader, frame *Frame, index i
 			return err
 		}
 		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4, denominator: 1, params4x4: nil}
+	case MODE_DCT4_8:
+		m := util.MakeMatrix2D[float32](3, 1)
+		for y := int32(0); y < 3; y++ {
+			if m[y][0], err = reader.ReadF16(); err != nil {
+				return err
+			}
+		}
+		dctParam, err := hfg.readDCTParams(reader)
+		if err != nil {
+			return err
+		}
+		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4_8, denominator: 1, params4x4: nil}
 	case MODE_DCT:
 		dctParam, err := hfg.readDCTParams(reader)
 		if err != nil {
-- 
2.43.0


From 09ce70e7962b5f54b52ba1959c8fd927a7837cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:08 +0000
Subject: [PATCH 33/40] fix: no LF coefficients are read when the LF frame
 supplies them

---
 frame/lfcoefficients.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frame/lfcoefficients.go b/frame/lfcoefficients.go
index 5450473..9dd6acd 100644
--- a/frame/lfcoefficients.go
+++ b/frame/lfcoefficients.go
@@ -57,6 +57,8 @@ func NewLFCoefficientsWithReader(reader jxlio.BitReader, parent *LFGroup, frame
 				}
 			}
 		}
+		// the section holds no LF coefficients of its own
+		return lf, nil
 	}
 
 	extraPrecision, err := reader.ReadBits(2)
-- 
2.43.0


From b844254e61ba1b11c5bf41d2a309fffc94c485b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:22 +0000
Subject: [PATCH 34/40] fix: UnpackSigned is right for values of 2^31 and above

---
 jxlio/bitreader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 58178b8..db80589 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -483,7 +483,7 @@ func UnpackSigned(value uint32) int32 {
 		return int32(value >> 1)
 	}
 
-	return -(int32(value) + 1) >> 1
+	return -int32(value>>1) - 1
 }
 
 func UnpackSigned64(value uint64) int64 {
@@ -491,5 +491,5 @@ func UnpackSigned64(value uint64) int64 {
 		return int64(value >> 1)
 	}
 
-	return -(int64(value) + 1) >> 1
+	return -int64(value>>1) - 1
 }
-- 
2.43.0


From 0dd0a31b40cc1a18ba9fffceb6402fe4bf331a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:43 +0000
Subject: [PATCH 35/40] fix: Add keeps the element it inserts in front of

append wrote over it in the array it shares with the slice, so the channel
after a palette's colour channels was lost.
---
 util/misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/misc.go b/util/misc.go
index cb3b059..c1a90c3 100644
--- a/util/misc.go
+++ b/util/misc.go
@@ -107,7 +107,7 @@ func FillFloat32(a []float32, fromIndex uint32, toIndex uint32, val float32) {
 }
 
 func Add[T any](slice []T, index int, elem T) []T {
-	newSlice := append(slice[:index], elem)
+	newSlice := append(slice[:index:index], elem)
 	newSlice = append(newSlice, slice[index:]...)
 	return newSlice
 }
-- 
2.43.0


From b5b627474d4e46861c6c259a777a987021f0ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:45 +0000
Subject: [PATCH 36/40] fix: implicit palette colours of images with fewer than
 3 bits per sample

bitDepth-3 wrapped around as an unsigned number.
---
 frame/ModularStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 5c063af..8c0e903 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -519,7 +519,7 @@ func (ms *ModularStream) applyTransforms() error {
 			first := ms.transforms[i].beginC + 1
 			endC := ms.transforms[i].beginC + ms.transforms[i].numC - 1
 			last := endC + 1
-			bitDepth := ms.frame.getGlobalMetadata().BitDepth.BitsPerSample
+			bitDepth := int32(ms.frame.getGlobalMetadata().BitDepth.BitsPerSample)
 			firstChannel := ms.channels[first]
 			c0 := ms.channels[0]
 			for j := first + 1; j <= last; j++ {
-- 
2.43.0


From f0b7f14ca65303985290cd5900b77a5371a9d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:15 +0000
Subject: [PATCH 37/40] fix: start a blended frame at row 0 when its vertical
 origin is negative

---
 core/jxl_codestream_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index cb458d5..59bb465 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -731,7 +731,7 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 	imageSize := jxl.imageHeader.GetSize()
 	header := imgFrame.Header
 	frameStartY := int32(0)
-	if header.Bounds.Origin.X >= 0 {
+	if header.Bounds.Origin.Y >= 0 {
 		frameStartY = header.Bounds.Origin.Y
 	}
 	frameStartX := int32(0)
-- 
2.43.0


From b065bbef97445f3b6c219e82f1dda3a9b3f83dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 38/40] fix: convert the frame's alpha channel, not the image's
 channel number, before blending

---
 core/jxl_codestream_decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 59bb465..49f8f60 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -795,7 +795,9 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 		}
 		ref := refBuffer[c]
 
-		err2 := jxl.blendAlpha(canvas[c], hasAlpha, info, imageColours, refBuffer, frameBuffers)
+		// a gray image can have frames of three colour channels: blendAlpha counts
+		// channels as the image does
+		err2 := jxl.blendAlpha(canvas[c], hasAlpha, info, imageColours, refBuffer, frameBuffers[frameColours-imageColours:])
 		if err2 != nil {
 			return err2
 		}
-- 
2.43.0


From 9186669b020d0503a3df912b4e9ff1226d0faf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:46 +0000
Subject: [PATCH 39/40] fix: blending two fully transparent samples gives 0,
 not NaN

---
 core/jxl_codestream_decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 49f8f60..c623550 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -925,6 +925,9 @@ func (jxl *JXLCodestreamDecoder) performBlending(canvas []image2.ImageBuffer,
 					cf[cy][cx] = alpha
 				} else if !hasAlpha || premult {
 					cf[cy][cx] = newSample + oldSample*(1-newAlpha)
+				} else if alpha == 0 {
+					// both are fully transparent: there is no colour to weigh
+					cf[cy][cx] = 0
 				} else {
 					cf[cy][cx] = (newSample*newAlpha + oldSample*oldAlpha*(1-newAlpha)) / alpha
 				}
-- 
2.43.0


From 26ce49e7e485130b5bc2256eb088ff77f0460d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:54 +0000
Subject: [PATCH 40/40] fix: upsampled samples are clamped to the largest
 neighbour also when all are negative

---
 frame/Frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 85d19ce..259319b 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -1587,7 +1587,7 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 							weights := upWeights[ky][kx]
 							total := float32(0.0)
 							min := float32(math.MaxFloat32)
-							max := float32(math.SmallestNonzeroFloat32)
+							max := float32(-math.MaxFloat32)
 							for iy := 0; iy < 5; iy++ {
 								for ix := 0; ix < 5; ix++ {
 									newY := util.MirrorCoordinate(int32(y)+int32(iy)-2, int32(len(buffer)))
-- 
2.43.0

