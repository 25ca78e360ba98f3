From 728e3ff65a47df66f903e57f4750f960e524e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 01/18] fix: clean up (or keep) the temporary file correctly on
 error exits

Exits after the output was opened bypassed the deferred FileControl.Shutdown,
leaving the temporary file behind; a failed close in Success did so too.
A failed overwrite of the input deleted the temporary file, the only complete
copy of the result.
---
 filecontrol.go | 26 ++++++++++++++++++--------
 vigilantbsp.go |  4 ++--
 wad.go         |  8 ++++----
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index b573f5b..80f3964 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -137,6 +137,10 @@ func (fc *FileControl) Success() bool {
 	}
 	errFin := fc.fin.Close()
 	errFout := fc.fout.Close()
+	// don't close them again in Shutdown, otherwise it won't delete temporary
+	// file when we have to return false
+	fc.fin = nil
+	fc.fout = nil
 	sucReport := fc.CloseReportFile(true)
 	hasError := errFin != nil || errFout != nil || !sucReport
 	if hasError {
@@ -166,6 +170,7 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 	if errFin != nil {
 		Log.Error("Couldn't reopen the temporarily file to read from it: %s.\n",
 			errFin.Error())
+		os.Remove(fc.outputFileName) // input file is intact
 		return false
 	}
 	fout, errFout := os.OpenFile(fc.inputFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
@@ -176,14 +181,21 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 			errFout.Error())
 	} else {
 		_, err := io.Copy(fout, fin)
+		if err2 := fout.Close(); err == nil {
+			err = err2
+		}
 		if err != nil {
-			success = false
 			// FUCK Hope the user has backup for this
 			// TODO may be make backup oneself, I dunno
 			Log.Error("Error when overwriting the original file: %s.\n",
 				err.Error())
+			// original file is gone, so the temporary file is the only
+			// complete copy of the result
+			fin.Close()
+			Log.Error("The result of processing was left in file '%s'.\n",
+				fc.outputFileName)
+			return false
 		}
-		fout.Close()
 	}
 	fin.Close()
 	// Now delete the temporary file
@@ -336,8 +348,7 @@ func LoadAssociatedRMB(wadFullFileName string, fileControl *FileControl) *Loaded
 func DebugSaveDumpedSegs(where string) {
 	fout, ferr := os.OpenFile(where, os.O_CREATE|os.O_RDWR|os.O_TRUNC, os.ModeExclusive|os.ModePerm)
 	if ferr != nil {
-		Log.Printf("An error has occured while trying to create/modify %s: %s\n", where, ferr)
-		os.Exit(1)
+		Log.Panic("An error has occured while trying to create/modify %s: %s\n", where, ferr)
 	}
 	defer fout.Close()
 	n, _ := fout.WriteString(Log.GetDumpedSegs())
@@ -347,8 +358,7 @@ func DebugSaveDumpedSegs(where string) {
 func DumpMemoryProfile(where string) {
 	fout, ferr := os.OpenFile(where, os.O_CREATE|os.O_RDWR|os.O_TRUNC, os.ModeExclusive|os.ModePerm)
 	if ferr != nil {
-		Log.Printf("An error has occured while trying to create/modify %s: %s\n", where, ferr)
-		os.Exit(1)
+		Log.Panic("An error has occured while trying to create/modify %s: %s\n", where, ferr)
 	}
 	defer fout.Close()
 	pprof.Lookup("allocs").WriteTo(fout, 0)
@@ -433,9 +443,9 @@ func (fc *FileControl) PinExternalWad(wadFileName string) *PinnedWad {
 	// no, it is a new one
 	f, err := fc.OpenExternalFile(wadFileName)
 	if err != nil {
-		Log.Error("An error has occured while trying to open %s: %s\n",
+		// not os.Exit: temporary file needs to be cleaned up
+		Log.Panic("An error has occured while trying to open %s: %s\n",
 			wadFileName, err)
-		os.Exit(1)
 	}
 
 	wh := new(WadHeader)
diff --git a/vigilantbsp.go b/vigilantbsp.go
index ef5d7b8..fc3debf 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -240,8 +240,8 @@ func main() {
 	// in the future, will probably store new wad's header separately
 	err = binary.Write(fout, binary.LittleEndian, wh)
 	if err != nil {
-		Log.Error("An error has occured while trying to create/modify %s: %s\n", outFileName, err)
-		os.Exit(1)
+		// not os.Exit: temporary file needs to be cleaned up
+		Log.Panic("An error has occured while trying to create/modify %s: %s\n", outFileName, err)
 	}
 
 	if zerosToInsert > 0 {
diff --git a/wad.go b/wad.go
index 4b59b29..98226ce 100644
--- a/wad.go
+++ b/wad.go
@@ -102,15 +102,15 @@ func FindValidLevels(root *ScheduledLump) int {
 	return res
 }
 
+// Panics (as opposed to exiting) on failure, so that deferred cleanup of the
+// temporary file is performed
 func WriteNZerosOrFail(a io.Writer, n uint32, fname string) {
 	zb := make([]byte, n, n)
 	written, err := a.Write(zb)
 	if err != nil {
-		Log.Error("An error has occured while trying to write %s: %s\n", fname, err)
-		os.Exit(1)
+		Log.Panic("An error has occured while trying to write %s: %s\n", fname, err)
 	} else if uint32(written) != n {
-		Log.Error("The number of written bytes %d doesn't match the number of bytes that were to be written: %d\n", written, n)
-		os.Exit(1)
+		Log.Panic("The number of written bytes %d doesn't match the number of bytes that were to be written: %d\n", written, n)
 	}
 }
 
-- 
2.43.0


From a2c76257cac1174da3ffd24437674e4eab6208ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 02/18] fix: don't ignore read and write errors

Errors when reading lumps from the input and when writing lumps and the
directory were ignored, so that the input could be overwritten with a
truncated wad while success was reported.
---
 level.go       | 20 +++++++-------------
 lumpwrite.go   | 20 +++++++++++++-------
 udmf_level.go  |  2 +-
 vigilantbsp.go | 18 ++++++++++++++----
 wad.go         | 13 +++++++++++++
 writebus.go    | 16 ++++++++++++----
 6 files changed, 60 insertions(+), 29 deletions(-)

diff --git a/level.go b/level.go
index 5870a50..066ca29 100755
--- a/level.go
+++ b/level.go
@@ -147,47 +147,41 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 					// lines, etc. when building nodes.
 					cntLinedefs := le[idx].Size / DOOM_LINEDEF_SIZE
 					linedefs = make([]Linedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, linedefs)
+					ReadLumpOrFail(f, &(le[idx]), linedefs)
 				} else { // FORMAT_HEXEN
 					cntLinedefs := le[idx].Size / HEXEN_LINEDEF_SIZE
 					hexenLinedefs = make([]HexenLinedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, hexenLinedefs)
+					ReadLumpOrFail(f, &(le[idx]), hexenLinedefs)
 				}
 				copyLump = !config.RebuildNodes // !!! linedefs' vertices might be renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("VERTEXES")) {
 				l.VerticesLumpIdx = idx
 				cntVertices := le[idx].Size >> 2
 				vertices = make([]Vertex, cntVertices, cntVertices)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, vertices)
+				ReadLumpOrFail(f, &(le[idx]), vertices)
 				// bounds
 				bounds = GetBounds(vertices)
 				copyLump = !config.RebuildNodes // vertices are created and renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("SIDEDEFS")) {
 				cntSidedefs := le[idx].Size / DOOM_SIDEDEF_SIZE
 				sidedefs = make([]Sidedef, cntSidedefs, cntSidedefs)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sidedefs)
+				ReadLumpOrFail(f, &(le[idx]), sidedefs)
 				// this is kept intact, for now at least
 			} else if bytes.Equal(bname, []byte("SECTORS")) {
 				cntSectors := le[idx].Size / DOOM_SECTOR_SIZE
 				sectors = make([]Sector, cntSectors, cntSectors)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sectors)
+				ReadLumpOrFail(f, &(le[idx]), sectors)
 				// this is kept intact
 			} else if action.LevelFormat == FORMAT_HEXEN && bytes.Equal(bname, []byte("THINGS")) {
 				vrThing := HexenThing{}
 				cntThings := le[idx].Size / uint32(binary.Size(vrThing))
 				hexenThings = make([]HexenThing, cntThings, cntThings)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, hexenThings)
+				ReadLumpOrFail(f, &(le[idx]), hexenThings)
 			} // this is kept intact
 			// copy along every entry that is not going to be modified
 			if copyLump {
 				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				ReadLumpOrFail(f, &(le[idx]), tmpBuf)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
diff --git a/lumpwrite.go b/lumpwrite.go
index fe02e47..8381282 100755
--- a/lumpwrite.go
+++ b/lumpwrite.go
@@ -30,9 +30,10 @@ import (
 // as a valid byte array (also already converted to file endianness) ready to be
 // written
 func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
-	lumpIdx int, s string, postfix string) {
+	lumpIdx int, s string, postfix string) error {
+	var err error
 	if data != nil {
-		fout.Write(data)
+		_, err = fout.Write(data)
 	}
 	le[lumpIdx].FilePos = *curPos
 	le[lumpIdx].Size = uint32(len(data))
@@ -45,14 +46,15 @@ func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
 			s, postfix, le[lumpIdx].Size, hashSuffix)
 	}
 	*curPos = *curPos + uint32(len(data))
+	return err
 }
 
 // Write lump from a typed array of structures that represent game data but need
 // conversion before going to file
 func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	binary.Write(fout, binary.LittleEndian, data)
+	err := binary.Write(fout, binary.LittleEndian, data)
 	if config.HashLumps {
 		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
 	}
@@ -62,13 +64,16 @@ func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen)
+	return err
 }
 
 func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	sigCnt, _ := fout.Write(DEEPNODES_SIG[:])
-	binary.Write(fout, binary.LittleEndian, data)
+	sigCnt, err := fout.Write(DEEPNODES_SIG[:])
+	if err == nil {
+		err = binary.Write(fout, binary.LittleEndian, data)
+	}
 	if config.HashLumps {
 		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
 	}
@@ -78,6 +83,7 @@ func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen+sigCnt)
+	return err
 }
 
 // non-threadsafe encode of cryptographic hash, I presume
diff --git a/udmf_level.go b/udmf_level.go
index b08ca86..de4293f 100644
--- a/udmf_level.go
+++ b/udmf_level.go
@@ -78,7 +78,7 @@ func (l *UDMF_Level) DoLevel(le []LumpEntry, idx int, action *ScheduledLump,
 			}
 			if copyLump {
 				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				ReadLumpOrFail(f, &(le[idx]), tmpBuf)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
diff --git a/vigilantbsp.go b/vigilantbsp.go
index fc3debf..3a18c17 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -266,7 +266,10 @@ func main() {
 		idx := action.DirIndex
 		if le[idx].Size != 0 {
 			tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-			f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+			_, err = f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+			if err != nil {
+				Log.Panic("Couldn't read lump #%d from the input file: %s\n", idx, err)
+			}
 			wriBus.SendRawLump(tmpBuf, idx, "", "")
 		} else if (idx == 0) && ZeroOffsetFirstLump {
 			// first lump has zero size, if we set zero offset we can steal some bytes
@@ -288,9 +291,16 @@ func main() {
 		}
 		action = action.Next
 	}
-	wriBus.Shutdown()
-	fout.Seek(int64(wh.DirectoryStart), 0)
-	binary.Write(fout, binary.LittleEndian, le)
+	err = wriBus.Shutdown()
+	if err == nil {
+		_, err = fout.Seek(int64(wh.DirectoryStart), 0)
+	}
+	if err == nil {
+		err = binary.Write(fout, binary.LittleEndian, le)
+	}
+	if err != nil {
+		Log.Panic("An error has occured while trying to write %s: %s\n", outFileName, err)
+	}
 	suc := mainFileControl.Success()
 	if suc {
 		trFileName := outFileName
diff --git a/wad.go b/wad.go
index 98226ce..bf0ba3a 100644
--- a/wad.go
+++ b/wad.go
@@ -114,6 +114,19 @@ func WriteNZerosOrFail(a io.Writer, n uint32, fname string) {
 	}
 }
 
+// ReadLumpOrFail reads a lump into dst, which is either a slice of bytes or a
+// slice of structures representing its data. Failure to read as much is fatal
+func ReadLumpOrFail(f *os.File, entry *LumpEntry, dst interface{}) {
+	_, err := f.Seek(int64(entry.FilePos), 0)
+	if err == nil {
+		err = binary.Read(f, binary.LittleEndian, dst)
+	}
+	if err != nil {
+		Log.Panic("Couldn't read lump %s from the input file: %s\n",
+			string(ByteSliceBeforeTerm(entry.Name[:])), err)
+	}
+}
+
 func SetValiditySocket(lumpName string, reference []string, validitySub *[]int,
 	val int, additive bool) {
 	target := -1
diff --git a/writebus.go b/writebus.go
index d9c5317..684647a 100755
--- a/writebus.go
+++ b/writebus.go
@@ -43,6 +43,7 @@ type WriteBus struct {
 	fout   *os.File
 	le     []LumpEntry
 	curPos uint32
+	err    error // first write error, if any
 }
 
 type WriteBusControl struct {
@@ -73,20 +74,21 @@ func StartWriteBus(fout *os.File, le []LumpEntry, curPos uint32) *WriteBusContro
 func (b *WriteBus) WriteBusLoop(ch <-chan WriteBusRequest, chFinish chan<- bool,
 	chSync chan<- bool) {
 	for req := range ch {
+		var err error
 		switch req.tpeIndex {
 		case WRI_TYPE_BYTES:
 			{
-				WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le, req.lumpIdx,
+				err = WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le, req.lumpIdx,
 					req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_INTERFACE:
 			{
-				ConvertAndWriteGenericLump(req.intfData, &(b.curPos), b.fout,
+				err = ConvertAndWriteGenericLump(req.intfData, &(b.curPos), b.fout,
 					b.le, req.lumpIdx, req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_DEEPNODES:
 			{
-				ConvertAndWriteDeepNodes(req.deepData, &(b.curPos), b.fout,
+				err = ConvertAndWriteDeepNodes(req.deepData, &(b.curPos), b.fout,
 					b.le, req.lumpIdx, req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_SYNC:
@@ -99,6 +101,9 @@ func (b *WriteBus) WriteBusLoop(ch <-chan WriteBusRequest, chFinish chan<- bool,
 				Log.Error("Unknown request at WriteBusLoop (%d)\n", req.tpeIndex)
 			}
 		}
+		if err != nil && b.err == nil {
+			b.err = err
+		}
 	}
 	chFinish <- true
 }
@@ -150,9 +155,12 @@ func (c *WriteBusControl) SendDeepNodesLump(data []DeepNode, lumpIdx int,
 	c.ch <- envl
 }
 
-func (c *WriteBusControl) Shutdown() {
+// Shutdown waits until everything is written, and returns the first error that
+// occured when writing lumps, if any
+func (c *WriteBusControl) Shutdown() error {
 	close(c.ch)
 	<-c.finisher
+	return c.bus.err
 }
 
 // This service call is needed to prevent actions pertaining to the previous
-- 
2.43.0


From a6d5a7c9928018cfb33af21af8ac10ea18c25d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 03/18] fix: keep directory and schedule in step when level
 lumps are dropped

SCRIPTS and duplicated lumps of a level were attached to directory entry 0,
and the former also shifted the indices of all the lumps that follow, so
lumps were written under entries of other lumps.
---
 wad.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/wad.go b/wad.go
index bf0ba3a..5d3b676 100644
--- a/wad.go
+++ b/wad.go
@@ -26,7 +26,7 @@ import (
 	"os"
 )
 
-var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR"}
+var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}
 var LUMP_MUSTEXIST = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}
 var LUMP_CREATE = []string{"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}
 
@@ -214,7 +214,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 			// Now let's conform lump order and existence to the specification
 			valid := true
 			lvlName := string(ByteSliceBeforeTerm(le[oldMainEntryIdx].Name[:]))
-			pendingDel := 0
 			for key, value := range validities[curLevel].requisites {
 				if value == 0 {
 					Log.Error("Level %s is not valid: missing lump %s\n", lvlName,
@@ -223,22 +222,16 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 				} else if value > 1 {
 					Log.Error("Level %s has one or more duplicate of lump %s - only one instance of this lump will remain\n",
 						lvlName, LUMP_MUSTEXIST[key])
-					// Some entries are not copied (ignored) to the output
-					pendingDel += value - 1
 				}
 			}
 			oldLevelLen := len(scheduleEntry.Level)
 			if valid {
-				nSize -= pendingDel
-				deltaCur -= pendingDel
 				// Level is valid. Create missing creatable lump entries,
 				// but delete duplicates
 				for key, value := range validities[curLevel].creatable {
 					if value == 0 {
 						// More space needed
 						leOut = append(leOut, LumpEntry{})
-						nSize++
-						deltaCur++
 						// For now, we insert lump at the end
 						SetValiditySocket(LUMP_CREATE[key], LUMP_SORT_ORDER,
 							&(validities[curLevel].currentOrder),
@@ -250,10 +243,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 								DirIndex: (-1) * (len(scheduleEntry.Level) - oldLevelLen + 1),
 								Level:    nil,
 							})
-					} else if value > 1 {
-						// Some entries are not copied (ignored) to the output
-						nSize -= value - 1
-						deltaCur -= value - 1
 					}
 				}
 
@@ -277,9 +266,19 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 						curOut++
 					} // else can happen - BEHAVIOR is HEXEN-specific, not needs to be present otherwise
 				}
+				kept := make([]*ScheduledLump, 0, len(scheduleEntry.Level))
 				for _, subEntry := range scheduleEntry.Level {
-					subEntry.DirIndex = oldIdxsToNew[subEntry.DirIndex]
+					newIdx, ok := oldIdxsToNew[subEntry.DirIndex]
+					if !ok {
+						// Duplicate entry, is not copied (ignored) to the output
+						continue
+					}
+					subEntry.DirIndex = newIdx
+					kept = append(kept, subEntry)
 				}
+				scheduleEntry.Level = kept
+				nSize += len(kept) - oldLevelLen
+				deltaCur += len(kept) - oldLevelLen
 			} else {
 				// Level is not valid, cannot be processed, will copy verbatim.
 				// To do this, a level record in schedule needs to be converted
-- 
2.43.0


From 7f6a2a9d6243c74b9e7d62ed62402a03e06b425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 04/18] fix: crash when a level lacks lumps that need to be
 created

Lump name was sliced past its length, relying on spare capacity of the
converted byte slice.
---
 wad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index 5d3b676..7dcc7d6 100644
--- a/wad.go
+++ b/wad.go
@@ -256,7 +256,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 							FilePos: 0,
 							Size:    0,
 						}
-						copy(leOut[curOut].Name[:], []byte(LUMP_SORT_ORDER[key])[:8])
+						copy(leOut[curOut].Name[:], LUMP_SORT_ORDER[key])
 						oldIdxsToNew[-1*inss] = curOut
 						curOut++
 						inss++
-- 
2.43.0


From f9136ac8771ca7c6060518de8e14f54e7e824092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 05/18] fix: zero-filled reject sizes were looked up by a
 shifted directory index

Sizes are recorded before the directory is rearranged but looked up after,
so key them by the schedule entry's id, which doesn't change.
---
 level.go | 4 ++--
 wad.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/level.go b/level.go
index 066ca29..05d7be9 100755
--- a/level.go
+++ b/level.go
@@ -112,9 +112,9 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		if bytes.Equal(bname, []byte("REJECT")) && config.Reject != REJECT_DONTTOUCH {
 			l.RejectLumpIdx = idx
 			if config.Reject == REJECT_ZEROFILLED {
-				calcrejectsize, leidx_ok := rejectsize[action.DirIndex]
+				calcrejectsize, leidx_ok := rejectsize[action.id]
 				if !leidx_ok {
-					panic("Rejectsize was not stored for key = <level marker lump DirIndex>")
+					panic("Rejectsize was not stored for key = <level marker schedule id>")
 				}
 				le[idx].Size = calcrejectsize
 				private_offset := troll.PopOffset(calcrejectsize)
diff --git a/wad.go b/wad.go
index 7dcc7d6..2762112 100644
--- a/wad.go
+++ b/wad.go
@@ -454,7 +454,7 @@ func LoadWadDirectory(isInputWad bool, le []LumpEntry, rejectsize map[int]uint32
 			fracBytes := float64(numSectors) * float64(numSectors) / 8.0
 			numRejectSize := uint32(math.Ceil(fracBytes))
 			troll.AddSize(numRejectSize)
-			rejectsize[action.DirIndex] = numRejectSize
+			rejectsize[action.id] = numRejectSize
 		}
 	}
 
-- 
2.43.0


From a36dbf4b5603032722ea6b3abf68beac3ee4cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 06/18] fix: TEXTMAP was written to the entry of the level
 marker

---
 udmf_level.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udmf_level.go b/udmf_level.go
index de4293f..c5f6637 100644
--- a/udmf_level.go
+++ b/udmf_level.go
@@ -48,7 +48,7 @@ func (l *UDMF_Level) DoLevel(le []LumpEntry, idx int, action *ScheduledLump,
 		Log.Panic("Couldn't read TEXTMAP: %s\n", err.Error())
 	}
 	// TEXTMAP is written to output file so as not forget it
-	wriBus.SendRawLump(textmap, action.DirIndex, "", "")
+	wriBus.SendRawLump(textmap, action.Level[0].DirIndex, "", "")
 	// TODO implement TEXTMAP parser
 	// parser should ideally be scheduled concurrently with writing to the bus
 	// when TEXTMAP parser failed (or doesn't exist lol), merely copy everything
-- 
2.43.0


From 7aba1a32e82020a79f071cc7d7d406c949aa304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 07/18] fix: NOPROCESS could source reject of a wrong map from
 the input wad

Entries for level lumps were shared between the schedule being updated for
the new directory and the one kept for looking up lumps of the input wad.
---
 wad.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wad.go b/wad.go
index 2762112..72f5cc5 100644
--- a/wad.go
+++ b/wad.go
@@ -525,6 +525,14 @@ func cloneSchedule(scheduleRoot *ScheduledLump) *ScheduledLump {
 	rootSch := newSch
 	for sch != nil {
 		*newSch = *sch
+		if sch.Level != nil {
+			// entries for level lumps are modified as well
+			newSch.Level = make([]*ScheduledLump, len(sch.Level))
+			for i, lump := range sch.Level {
+				newLump := *lump
+				newSch.Level[i] = &newLump
+			}
+		}
 		if sch.Next != nil {
 			newSch.Next = &ScheduledLump{}
 			newSch = newSch.Next
-- 
2.43.0


From ad10b772acd3f8e8401d86b8c7a8641c5adfa4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 08/18] fix: lumps of a level without sidedefs or sectors were
 never written

---
 level.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/level.go b/level.go
index 05d7be9..ccacf98 100755
--- a/level.go
+++ b/level.go
@@ -399,19 +399,29 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 
 	// If either reject or nodes not used, we need to shutdown solid-only
 	// blockmap builder control on their behalf here
-	if bcontrol != nil && rejectSkip {
+	if bcontrol != nil && l.RejectChan == nil {
 		bcontrol <- BconRequest{
 			Sender:  SOLIDBLOCKS_REJECT,
 			Message: BCON_NONEED_SOLID_BLOCKMAP,
 		}
 	}
-	if bcontrol != nil && !config.RebuildNodes {
+	if bcontrol != nil && l.NodesChan == nil {
 		bcontrol <- BconRequest{
 			Sender:  SOLIDBLOCKS_NODES,
 			Message: BCON_NONEED_SOLID_BLOCKMAP,
 		}
 	}
 
+	// A level without sidedefs or sectors gets neither nodes nor reject, but
+	// the lumps still need to be written, as they are not copied from source
+	if config.RebuildNodes && l.NodesChan == nil {
+		Log.Error("Level %s has no sidedefs or no sectors, can't build nodes.\n", l.mapName)
+		l.WriteNodes(NodesResult{})
+	}
+	if !rejectSkip && l.RejectChan == nil {
+		l.wriBus.SendRawLump(nil, l.RejectLumpIdx, "REJECT", " [empty]")
+	}
+
 	// Wait for channels to deliver results of node/reject/blockmap building,
 	// write them
 	l.WaitForAndWriteData()
-- 
2.43.0


From 4e9c8614936574d59b93457ca4d64e4ed77bbdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 09/18] fix: small zero-filled reject made the header point at
 a wrong directory position

---
 vigilantbsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index 3a18c17..1cd0492 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -213,7 +213,7 @@ func main() {
 		if zerosToInsert > 8 {
 			zerosToInsert = uint32(zerosToInsert - 8)
 		} else {
-			decr = 8 - zerosToInsert // how much to move directory back
+			decr = zerosToInsert // how much to move directory back
 			zerosToInsert = 0
 		}
 		wh.DirectoryStart = wh.DirectoryStart - decr
-- 
2.43.0


From 94cfde6520eb06c228110600a70ccb67a1c7e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 10/18] fix: blockmap generator must not go on after the early
 return reply

When the conditional subset search already delivered a good enough blockmap,
the generator went on building others and tried to reply a second time on a
channel nobody reads anymore, so its goroutine stayed blocked (and busy).
---
 blockmapgen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blockmapgen.go b/blockmapgen.go
index 6f65a5b..2d206a6 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -128,6 +128,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			// fitting blockmap might have already been found
 			Blockmap_ReportTime(start, subsetMode)
 			where <- data
+			return
 		}
 	} // else must be that one fixed offset mode
 
@@ -177,6 +178,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			if data != nil {
 				Blockmap_ReportTime(start, subsetMode)
 				where <- data
+				return
 			}
 			bm := CreateBlockmap(&input)
 			if subsetMode != BSUBSET_NOCOMPRESSION {
-- 
2.43.0


From 463fc8749ba3b6440fc2100517bf938cfb850eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 11/18] fix: release solid blockmap when Zdoom nodes fallback
 supplied the result

NodesGenerator returned right after the Zdoom generator had replied for it,
without telling the solid blockmap controller it was done, so the controller
and generator goroutines (and the blockmap) were kept forever.
---
 nodegen.go  | 27 ++++++++++++---------------
 znodegen.go | 25 +++++++++++--------------
 2 files changed, 23 insertions(+), 29 deletions(-)

diff --git a/nodegen.go b/nodegen.go
index 263c074..06691a9 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -629,9 +629,6 @@ func NodesGenerator(input *NodesInput) {
 			}
 			rootNode = VanillaOrZdoomFormat_Create(&workData, rootSeg, rootBox,
 				initialSuper, oldNodeType, passthrough)
-			if rootNode == nil {
-				return // message was sent from Zdoom generator spawned from dispatch
-			}
 		} else {
 			if input.stkNode {
 				// breadth-first node creation (for debug purposes, debug parameter
@@ -703,9 +700,6 @@ func NodesGenerator(input *NodesInput) {
 
 		rootNode, treeCount = MTPSentinel_MakeBestBSPTree(&workData, rootBox,
 			initialSuper, input.specialRootMode, oldNodeType, foreign)
-		if rootNode == nil {
-			return // message was sent from Zdoom generator spawned from dispatch
-		}
 	} else {
 		Log.Panic("Multi-tree variant not implemented.\n")
 		// TODO for hard multi-tree, don't forget this
@@ -714,6 +708,18 @@ func NodesGenerator(input *NodesInput) {
 		// to support mega-trees without either much code duplication or degradation
 		// of performance for plain multi-tree
 	}
+
+	if requestedSolid {
+		// If requested solid blockmap before, tell them we are done with it
+		// - the CreateNode() ran its course
+		input.bcontrol <- BconRequest{
+			Sender:  SOLIDBLOCKS_NODES,
+			Message: BCON_DONE_WITH_SOLID_BLOCKMAP,
+		}
+	}
+	if rootNode == nil {
+		return // message was sent from Zdoom generator spawned from dispatch
+	}
 	// NOTE rootBox, rootSeg, initialSuper must NOT be used past this point!
 
 	// Ok, so now we are printing stats, checking limits, and reverting the
@@ -732,15 +738,6 @@ func NodesGenerator(input *NodesInput) {
 	Log.Printf("Created %d subsectors, %d nodes. Got %d segs. Split segs %d times.\n",
 		workData.totals.numSSectors, workData.totals.numNodes,
 		workData.totals.numSegs, workData.totals.segSplits)
-
-	if requestedSolid {
-		// If requested solid blockmap before, tell them we are done with it
-		// - the CreateNode() ran its course
-		input.bcontrol <- BconRequest{
-			Sender:  SOLIDBLOCKS_NODES,
-			Message: BCON_DONE_WITH_SOLID_BLOCKMAP,
-		}
-	}
 	hLeft := 0
 	hRight := 0
 	if rootNode.nextL != nil {
diff --git a/znodegen.go b/znodegen.go
index 40f11f7..ff01962 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -395,9 +395,6 @@ func ZExt_NodesGenerator(input *NodesInput) {
 			}
 			rootNode = ZExt_VanillaOrZdoomFormat_Create(&workData, rootSeg, rootBox,
 				initialSuper, oldNodeType, passthrough)
-			if rootNode == nil {
-				return
-			}
 		} else {
 			if input.stkNode {
 
@@ -452,14 +449,22 @@ func ZExt_NodesGenerator(input *NodesInput) {
 
 		rootNode, treeCount = ZExt_MTPSentinel_MakeBestBSPTree(&workData, rootBox,
 			initialSuper, input.specialRootMode, oldNodeType, foreign)
-		if rootNode == nil {
-			return
-		}
 	} else {
 		Log.Panic("Multi-tree variant not implemented.\n")
 
 	}
 
+	if requestedSolid {
+
+		input.bcontrol <- BconRequest{
+			Sender:  SOLIDBLOCKS_NODES,
+			Message: BCON_DONE_WITH_SOLID_BLOCKMAP,
+		}
+	}
+	if rootNode == nil {
+		return
+	}
+
 	Log.Merge(workData.mlog, "Merging buffered output (if any) from the chosen tree.\n")
 	workData.mlog = nil
 
@@ -468,14 +473,6 @@ func ZExt_NodesGenerator(input *NodesInput) {
 	Log.Printf("Created %d subsectors, %d nodes. Got %d segs. Split segs %d times.\n",
 		workData.totals.numSSectors, workData.totals.numNodes,
 		workData.totals.numSegs, workData.totals.segSplits)
-
-	if requestedSolid {
-
-		input.bcontrol <- BconRequest{
-			Sender:  SOLIDBLOCKS_NODES,
-			Message: BCON_DONE_WITH_SOLID_BLOCKMAP,
-		}
-	}
 	hLeft := 0
 	hRight := 0
 	if rootNode.nextL != nil {
-- 
2.43.0


From 74ed186d9e849b095059efd719a8564f7ccceb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 12/18] fix: compute the end of the largest subsector's segs
 without wrapping at 65536

When segs are reordered to keep FirstSeg of every subsector within 16 bits,
the largest subsector may begin below 65536 and end above it; its end was
computed in uint16 and wrapped, so that the program crashed.
---
 node_outro.go | 5 +++--
 znodegen.go   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/node_outro.go b/node_outro.go
index 9cd7243..f0371fd 100755
--- a/node_outro.go
+++ b/node_outro.go
@@ -145,8 +145,9 @@ func (w *NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool, int)
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	// the end of it may be past 65535, so must not be computed in uint16
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 	// Move pivot:pivot2 subslice to the end of w.segs slice
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
diff --git a/znodegen.go b/znodegen.go
index ff01962..9763ec5 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1960,8 +1960,8 @@ func (w *ZExt_NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool,
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
-- 
2.43.0


From 8b7a84adeb6080ef77ab2a77c859b75b0891f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 13/18] fix: empty vanilla nodes lumps when there are too many
 vertices for 16-bit SEGS

Segs in vanilla format refer to vertices by 16-bit numbers, but only the numbers
of subsectors and segs were checked: with more than 65536 vertices (original
ones plus those made by splits), vertex numbers in SEGS wrapped around.
---
 nodegen.go  | 7 +++++++
 znodegen.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/nodegen.go b/nodegen.go
index 06691a9..014a724 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -851,6 +851,13 @@ func NodesGenerator(input *NodesInput) {
 				workData.totals.numSSectors)
 		}
 		workData.emptyNodesLumps()
+	} else if workData.nodeType == NODETYPE_VANILLA && len(workData.vertices) > 65536 {
+		// vertex numbers in SEGS are 16-bit, they would have wrapped around
+		if !cloneEarly {
+			Log.Error("Number of vertices is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
+				len(workData.vertices))
+		}
+		workData.emptyNodesLumps()
 	} else if workData.tooManySegsCantFix(false) {
 		if !cloneEarly {
 			Log.Error("Number of segs is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
diff --git a/znodegen.go b/znodegen.go
index 9763ec5..063c495 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -542,6 +542,13 @@ func ZExt_NodesGenerator(input *NodesInput) {
 				workData.totals.numSSectors)
 		}
 		workData.emptyNodesLumps()
+	} else if workData.nodeType == NODETYPE_VANILLA && len(workData.vertices) > 65536 {
+
+		if !cloneEarly {
+			Log.Error("Number of vertices is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
+				len(workData.vertices))
+		}
+		workData.emptyNodesLumps()
 	} else if workData.tooManySegsCantFix(false) {
 		if !cloneEarly {
 			Log.Error("Number of segs is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
-- 
2.43.0


From d62f49e1148343a7295963074a2a551788223128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 14/18] fix: reject RMB files with a map marker reported as
 unsupported

A marker such as MAP123 was reported as an error, yet the line counted as
parsed and the file was used.
---
 rmbparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmbparse.go b/rmbparse.go
index bfd1f74..c990e59 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -745,6 +745,7 @@ func (c *ParseContext) parseRMBLine(line []byte, fromInvert bool) bool {
 				}
 				if len(command) != 3 && !MAP_SEQUEL.Match(command) {
 					c.LogError("unsupported map marker, expected MAP followed by 2 digits immediately, or followed by a space and a lump marker\n")
+					return false
 				}
 				fnd = true
 			}
-- 
2.43.0


From af7e7027d3ea16f238d51a58f596c4b6beae92d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 15/18] fix: INVERT with nothing to invert is an error

An INVERT followed by nothing or by a comment inverted the option of the
line before it, or crashed when there was none.
---
 rmbparse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmbparse.go b/rmbparse.go
index c990e59..59bca5b 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -442,10 +442,16 @@ func ParseINVERT(context *ParseContext, tblIdx int, cmd *RMBCommand) bool {
 	// the cast to ParseContextRecursion is to avoid "loop initialization"
 	// compiler error. What am I really doing is calling parseRMBLine method on
 	// context
+	before := len(context.activeFrame.Commands)
 	if ParseContextRecursion(context).parseRMBLine(context.command, true) {
 		// Hack (bad): need to extract last cmd so that invert flag is applied
 		// to it
 		l := len(context.activeFrame.Commands)
+		if l == before { // an empty line or a comment adds no command
+			context.command = []byte("INVERT")
+			context.LogError("INVERT must be followed by a command to invert\n")
+			return false
+		}
 		*cmd = context.activeFrame.Commands[l-1]
 		cmd.Invert = true
 		// delete old command as it will be reinserted with the new value
-- 
2.43.0


From ad85d1dabce44ffc96fcd012521fda2b192a2cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 16/18] fix: ignore negative sector numbers in GROUP instead of
 crashing

---
 rejectRMB.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index 1b65028..4814b05 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -78,7 +78,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 		if cmd.Type == RMB_GROUP {
 			grI := fr.Commands[i].Data[0]
 			dupChecker := make(map[int]bool)
-			if grI >= len(groups) {
+			if grI < 0 || grI >= len(groups) {
 				fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 					grI, len(groups))
 				continue
@@ -96,7 +96,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 					fr.Commands[i].Error("You need not explicitly list sector in its own group - every group always includes sector with the same index\n")
 					continue // because each group already includes corresponding sector
 				}
-				if v >= len(groups) {
+				if v < 0 || v >= len(groups) {
 					fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 						v, len(groups))
 					continue
-- 
2.43.0


From c7ab26ab08341c18a4eb1442bda2e5220f0f8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 17/18] fix: report linedef numbers of LINE that do not fit
 instead of truncating them

---
 rejectRMB.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rejectRMB.go b/rejectRMB.go
index 4814b05..ce26843 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -425,6 +425,16 @@ func rmbCheckSectorInRange(numSectors, i int, command RMBCommand) bool {
 	return true
 }
 
+// Linedef numbers are 16-bit. A number that does not fit must not be truncated,
+// as it would then refer to some other line
+func rmbCheckLineInRange(i int, command RMBCommand) bool {
+	if i > 65535 || i < 0 {
+		command.Error("specified linedef number out of range: %d\n", i)
+		return false
+	}
+	return true
+}
+
 func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
 	if sector.Blind == 3 {
 		if sector.BlindLo > sector.BlindHi {
@@ -938,6 +948,9 @@ func (r *RejectInternalSetup) loadLineEffectsForFrame(rmbFrame *RMBFrame) bool {
 		switch cmd.Type {
 		case RMB_LEFT:
 			{
+				if !rmbCheckLineInRange(cmd.Data[0], cmd) {
+					continue
+				}
 				idx := uint16(cmd.Data[0])
 				oldEffect := r.lineEffects[idx]
 				if oldEffect == LINE_EFFECT_NONE {
@@ -950,6 +963,9 @@ func (r *RejectInternalSetup) loadLineEffectsForFrame(rmbFrame *RMBFrame) bool {
 			}
 		case RMB_RIGHT:
 			{
+				if !rmbCheckLineInRange(cmd.Data[0], cmd) {
+					continue
+				}
 				idx := uint16(cmd.Data[0])
 				oldEffect := r.lineEffects[idx]
 				if oldEffect == LINE_EFFECT_NONE {
@@ -962,6 +978,9 @@ func (r *RejectInternalSetup) loadLineEffectsForFrame(rmbFrame *RMBFrame) bool {
 			}
 		case RMB_LINE:
 			{
+				if !rmbCheckLineInRange(cmd.Data[0], cmd) {
+					continue
+				}
 				r.lineEffects[uint16(cmd.Data[0])] = LINE_EFFECT_SOLID
 				ret = true
 			}
-- 
2.43.0


From 11f3eb750487cb72c5f8627813ce1e359a52c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 18/18] fix: trace self-referencing sectors in sector order

The order followed map iteration order, so the numbering of lines of sight
(and the log) changed between runs on the same input.
---
 reject.go     |  4 ++--
 rejectFAST.go |  4 ++--
 rejectSYMM.go |  4 ++--
 selfref.go    | 16 ++++++++++++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/reject.go b/reject.go
index 745a7e4..a4392b1 100755
--- a/reject.go
+++ b/reject.go
@@ -786,8 +786,8 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 		blYMax = bm.YMax
 
 		sectorPerimeters := cull.GetPerimeters()
-		for sector, perimeters := range sectorPerimeters {
-			for _, perimeter := range perimeters {
+		for _, sector := range cull.GetPerimeterSectors() {
+			for _, perimeter := range sectorPerimeters[sector] {
 				whichSector := r.traceSelfRefLines(&numTransLines,
 					&numSolidLines, sector, perimeter, it,
 					lineTraces, blXMin, blXMax, blYMin, blYMax, vertices, rsetup)
diff --git a/rejectFAST.go b/rejectFAST.go
index b6886c5..ce190b6 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -437,8 +437,8 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 		blYMax = bm.YMax
 
 		sectorPerimeters := cull.GetPerimeters()
-		for sector, perimeters := range sectorPerimeters {
-			for _, perimeter := range perimeters {
+		for _, sector := range cull.GetPerimeterSectors() {
+			for _, perimeter := range sectorPerimeters[sector] {
 				whichSector := r.traceSelfRefLines(&numTransLines,
 					&numSolidLines, sector, perimeter, it,
 					lineTraces, blXMin, blXMax, blYMin, blYMax, vertices, rsetup)
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b8cec01..6761abf 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -385,8 +385,8 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 		blYMax = bm.YMax
 
 		sectorPerimeters := cull.GetPerimeters()
-		for sector, perimeters := range sectorPerimeters {
-			for _, perimeter := range perimeters {
+		for _, sector := range cull.GetPerimeterSectors() {
+			for _, perimeter := range sectorPerimeters[sector] {
 				whichSector := r.traceSelfRefLines(&numTransLines,
 					&numSolidLines, sector, perimeter, it,
 					lineTraces, blXMin, blXMax, blYMin, blYMax, vertices, rsetup)
diff --git a/selfref.go b/selfref.go
index 8a057a7..fb8b7a3 100755
--- a/selfref.go
+++ b/selfref.go
@@ -217,8 +217,8 @@ func (c *Culler) Analyze() {
 	// over subsequent runs because segs are in different order
 	//if config.Deterministic { // reference to global: config
 	sort.Sort(Uint16Slice(c.spewOut))
-	// FIXME perimeterSink is currently a map, another probable source of
-	// inconsistency. Redefine it as an array, sort it by sector number
+	// perimeterSink is a map, see GetPerimeterSectors for how to walk it in a
+	// consistent order
 	//}
 }
 
@@ -244,6 +244,18 @@ func (c *Culler) GetPerimeters() map[uint16][][]uint16 {
 	return c.perimeterSink
 }
 
+// GetPerimeterSectors returns sectors which have perimeters, in ascending order.
+// Use this when the order in which perimeters are processed matters, because map
+// iteration order changes from one run to another
+func (c *Culler) GetPerimeterSectors() []uint16 {
+	sectors := make([]uint16, 0, len(c.perimeterSink))
+	for sector := range c.perimeterSink {
+		sectors = append(sectors, sector)
+	}
+	sort.Sort(Uint16Slice(sectors))
+	return sectors
+}
+
 // Returns true if segs need not to be created for this line in first pass
 // (prior to having knowledge about which sectors are self-referencing)
 func canBeCulled_ForSegs(lines WriteableLines, sidedefs []Sidedef,
-- 
2.43.0

