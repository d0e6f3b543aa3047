From ee05f49b0f5b11b9a37ecc8532f942d63a24be09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:46 +0000
Subject: [PATCH 01/46] fix: ihex32 reports malformed records instead of
 silently dropping data

---
 ihex32/hex.go    | 17 +++++++++++++----
 ihex32/record.go | 15 ++++++++++++---
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 841b826..6b7cad4 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//errRecord reports lines that are not valid records. Every goroutine sends at most one error.
+	errRecord := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, errRecord, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//a malformed record must not be dropped silently as the data would be incomplete
+	if len(errRecord) != 0 {
+		err = <-errRecord
+		return h, err
+	}
 
 	//apply offsets to all records
 	wgOffset := new(sync.WaitGroup)
@@ -238,14 +245,16 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+// in case a line is not a valid record an error is reported. Only blank lines (or a trailing DOS end-of-file character) are skipped.
+func parseRecordRoutine(c chan []*record, cErr chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		if strings.Trim(l, " \t\r\n\x1a") != "" {
 			r, err := parseRecord(l)
 			if err != nil {
-				log.Err(err)
+				log.Err(err).Msg("record could not be parsed")
+				cErr <- err
 				break forLoop
 			}
 			recs = append(recs, r)
diff --git a/ihex32/record.go b/ihex32/record.go
index 1be74d5..1b70c13 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -27,18 +27,27 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
-	if line[0] == beginLineToken[0] && len(line) >= 11 {
+	if len(line) >= 11 && line[0] == beginLineToken[0] {
 		r.byteCount = line[1:3]
+		//a record consists of the begin line symbol followed by hex bytes: byteCount, address (2), recordType, data (byteCount), checksum.
+		byteCount, err := hexToByte(r.byteCount)
+		if err != nil {
+			return &r, err
+		}
+		if len(line) != 11+2*int(byteCount) {
+			err := errors.New("length of record does not match its byte count")
+			return &r, err
+		}
 		r.addressField = line[3:7]
 		r.recordType = line[7:9]
 		for i := 9; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
 		}
 		if r.recordType == extendedLinearAddressRecordToken {
-			if len(line) >= 13 {
+			if byteCount == 2 {
 				r.offset = line[9:13]
 			} else {
-				err := errors.New("line is too short to parse extended address record")
+				err := errors.New("extended address record does not contain exactly two bytes")
 				return &r, err
 			}
 		} else {
-- 
2.43.0


From e4b6970c2c7969378c359dec43e889e00c009008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:05 +0000
Subject: [PATCH 02/46] fix: ihex32 applies the linear address offset
 independently of the number of goroutines

---
 ihex32/record.go | 11 ++++++++---
 ihex32/tokens.go |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 1b70c13..8a2e9af 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -51,7 +51,7 @@ func parseRecord(line string) (*record, error) {
 				return &r, err
 			}
 		} else {
-			r.offset = "0000"
+			r.offset = unsetOffset
 		}
 		r.checksum = line[len(line)-2:]
 		return &r, nil
@@ -67,7 +67,12 @@ func parseRecord(line string) (*record, error) {
 func addOffsets(wg *sync.WaitGroup, recs []*record, start int) {
 	defer wg.Done()
 	firstRecordAfterNewOffset := false
-	offs := "0000"
+	//only the beginning of the file has a defined offset.
+	//goroutines that start further down do not know the offset that applies to them until they reach the first offset record.
+	offs := unsetOffset
+	if start == 0 {
+		offs = "0000"
+	}
 forLoop:
 	for i := start; i < len(recs); i++ {
 		recs[i].rwm.Lock()
@@ -81,7 +86,7 @@ forLoop:
 			} else if firstRecordAfterNewOffset && recs[i].offset != offs {
 				recs[i].offset = offs
 				firstRecordAfterNewOffset = false
-			} else if recs[i].offset != offs && offs != "0000" /*only write if offset != 0000 as this is the init value anyway*/ {
+			} else if recs[i].offset != offs && offs != unsetOffset {
 				recs[i].offset = offs
 			}
 		}
diff --git a/ihex32/tokens.go b/ihex32/tokens.go
index 8cf284d..eca30b2 100644
--- a/ihex32/tokens.go
+++ b/ihex32/tokens.go
@@ -11,3 +11,6 @@ const dataRecordToken = "00"
 const extendedLinearAddressRecordToken = "04"
 
 //const startLinearAddressRecordToken = "05"
+
+//unsetOffset marks records whose address offset has not been determined yet.
+const unsetOffset = ""
-- 
2.43.0


From 60d4b37729d790cc9a5b9c0cc91f1d5ed11b45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:07 +0000
Subject: [PATCH 03/46] fix: ihex32 data records may run past a 64K border

---
 ihex32/record.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 8a2e9af..7969737 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -187,7 +187,7 @@ func (r *record) calcDataEntries() ([]dataByte, error) {
 	var err error
 	var bs []byte
 	var b byte
-	var lineAddress uint16
+	var lineAddress uint32
 
 	for i, s := range r.data {
 
@@ -196,26 +196,22 @@ func (r *record) calcDataEntries() ([]dataByte, error) {
 		if err != nil {
 			return d, err
 		}
-		//convert bytes to uint16, add index
-		lineAddress = binary.BigEndian.Uint16(bs)
-		lineAddress = lineAddress + uint16(i)
-		//create 2 byte buffer
-		lineAddressBytes := []byte{0, 0}
-		//fill byte slice buffer with thenew value of line address
-		binary.BigEndian.PutUint16(lineAddressBytes, lineAddress)
+		//convert bytes to uint32, add index. A record may run past a 64K border, so the carry has to go to the upper two bytes.
+		lineAddress = uint32(binary.BigEndian.Uint16(bs))
+		lineAddress = lineAddress + uint32(i)
 		//convert offset string to byte slice
 		bs, err = HexToByteSlice(r.offset)
 		if err != nil {
 			return d, err
 		}
 		//add the offset to the existing address
-		bs = append(bs, lineAddressBytes...)
+		lineAddress = lineAddress + uint32(binary.BigEndian.Uint16(bs))<<16
 		b, err = hexToByte(s)
 		if err != nil {
 			return d, err
 		}
 		//construct data with final uint32 address and a byte as value
-		d = append(d, dataByte{address: binary.BigEndian.Uint32(bs), value: b})
+		d = append(d, dataByte{address: lineAddress, value: b})
 	}
 	return d, nil
 }
-- 
2.43.0


From 164864d05252047640bcc44e44ebe97cc2309a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:08 +0000
Subject: [PATCH 04/46] fix: ihex32 rejects record types it cannot interpret

---
 ihex32/record.go | 7 ++++++-
 ihex32/tokens.go | 6 +++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 7969737..57e836e 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -50,8 +50,13 @@ func parseRecord(line string) (*record, error) {
 				err := errors.New("extended address record does not contain exactly two bytes")
 				return &r, err
 			}
-		} else {
+		} else if r.recordType == dataRecordToken || r.recordType == endOfFileToken ||
+			r.recordType == startSegmentAddressRecordToken || r.recordType == startLinearAddressRecordToken {
 			r.offset = unsetOffset
+		} else {
+			//e.g. extended segment addresses are not part of ihex32. Ignoring them would place data at wrong addresses.
+			err := errors.New("unsupported record type " + r.recordType)
+			return &r, err
 		}
 		r.checksum = line[len(line)-2:]
 		return &r, nil
diff --git a/ihex32/tokens.go b/ihex32/tokens.go
index eca30b2..0d64144 100644
--- a/ihex32/tokens.go
+++ b/ihex32/tokens.go
@@ -4,13 +4,13 @@ package ihex32
 const beginLineToken = ":"
 const dataRecordToken = "00"
 
-//const endOfFileToken = "01"
+const endOfFileToken = "01"
 
 //const extendedSegmentAddressRecordToken = "02"
-//const startSegmentAddressRecordToken = "03"
+const startSegmentAddressRecordToken = "03"
 const extendedLinearAddressRecordToken = "04"
 
-//const startLinearAddressRecordToken = "05"
+const startLinearAddressRecordToken = "05"
 
 //unsetOffset marks records whose address offset has not been determined yet.
 const unsetOffset = ""
-- 
2.43.0


From fe8de355f9dd146348e2c6d05cdf06be7463650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:44 +0000
Subject: [PATCH 05/46] fix: srec19 reads S1/S2/S3 data next to S0/S5-S9
 records and reports malformed records

---
 srec19/hex.go    | 17 +++++++++++++----
 srec19/record.go | 39 +++++++++++++++++++++++++++------------
 srec19/tokens.go | 14 ++++++++++++++
 3 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/srec19/hex.go b/srec19/hex.go
index 20a7a6b..51b5a1b 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//errRecord reports lines that are not valid records. Every goroutine sends at most one error.
+	errRecord := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, errRecord, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//a malformed record must not be dropped silently as the data would be incomplete
+	if len(errRecord) != 0 {
+		err = <-errRecord
+		return h, err
+	}
 
 	if validateChecksums {
 		//start validation of all checksums
@@ -227,14 +234,16 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+// in case a line is not a valid record an error is reported. Only blank lines (or a trailing DOS end-of-file character) are skipped.
+func parseRecordRoutine(c chan []*record, cErr chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		if strings.Trim(l, " \t\r\n\x1a") != "" {
 			r, err := parseRecord(l)
 			if err != nil {
-				log.Err(err)
+				log.Err(err).Msg("record could not be parsed")
+				cErr <- err
 				break forLoop
 			}
 			recs = append(recs, r)
diff --git a/srec19/record.go b/srec19/record.go
index 3d7a057..d0e8740 100644
--- a/srec19/record.go
+++ b/srec19/record.go
@@ -3,6 +3,7 @@ package srec19
 import (
 	"encoding/binary"
 	"errors"
+	"strings"
 	"sync"
 )
 
@@ -26,20 +27,34 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
-	r.recordType = line[1:2]
-	if line[0] == beginLineToken[0] && r.recordType == "3" && len(line) >= 12 {
-		r.byteCount = line[2:4]
-		r.addressField = line[4:12]
-		for i := 12; i < len(line)-3; i += 2 {
-			r.data = append(r.data, line[i:i+2])
-		}
-		r.checksum = line[len(line)-2:]
-		return &r, nil
-	} else {
+	if len(line) < 4 || line[0] != beginLineToken[0] {
 		err := errors.New("entry has no begin line symbol or is too short")
 		return &r, err
 	}
-
+	r.recordType = line[1:2]
+	r.byteCount = line[2:4]
+	addressLength, exists := addressLengths[r.recordType]
+	if !exists {
+		err := errors.New("unsupported record type " + r.recordType)
+		return &r, err
+	}
+	//the byte count comprises address, data and checksum
+	byteCount, err := hexToByte(r.byteCount)
+	if err != nil {
+		return &r, err
+	}
+	if len(line) != 4+2*int(byteCount) || int(byteCount) < addressLength+1 {
+		err := errors.New("length of record does not match its byte count")
+		return &r, err
+	}
+	endOfAddress := 4 + 2*addressLength
+	//shorter addresses are extended to 32Bit
+	r.addressField = strings.Repeat("0", 8-2*addressLength) + line[4:endOfAddress]
+	for i := endOfAddress; i < len(line)-3; i += 2 {
+		r.data = append(r.data, line[i:i+2])
+	}
+	r.checksum = line[len(line)-2:]
+	return &r, nil
 }
 
 // validateChecksumsRoutine calls the validateChecksum Method for each record
@@ -123,7 +138,7 @@ func calcDataRoutine(c chan []dataByte, recs []*record) {
 	var ds []dataByte
 	var err error
 	for _, r := range recs {
-		if r.recordType == dataRecordToken {
+		if isDataRecord(r.recordType) {
 			d, err = r.calcDataEntries()
 			if err != nil {
 				c <- []dataByte{}
diff --git a/srec19/tokens.go b/srec19/tokens.go
index 1e04b8d..98e7d67 100644
--- a/srec19/tokens.go
+++ b/srec19/tokens.go
@@ -3,3 +3,17 @@ package srec19
 //const emptyToken = ""
 const beginLineToken = "S"
 const dataRecordToken = "3"
+const data24RecordToken = "2"
+const data16RecordToken = "1"
+
+//addressLengths contains the number of address bytes for every record type.
+//S0 (header), S5/S6 (record count) and S7/S8/S9 (start address) do not contribute any data.
+var addressLengths = map[string]int{
+	"0": 2, data16RecordToken: 2, data24RecordToken: 3, dataRecordToken: 4,
+	"5": 2, "6": 3, "7": 4, "8": 3, "9": 2,
+}
+
+//isDataRecord tells whether a record of the given type contains data.
+func isDataRecord(recordType string) bool {
+	return recordType == data16RecordToken || recordType == data24RecordToken || recordType == dataRecordToken
+}
-- 
2.43.0


From 3eac7662ccf32b0410514810106e43219de2d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:41 +0000
Subject: [PATCH 06/46] fix: a2l comments, texts and /begin KEYWORD pairs may
 cross the borders of tokenizer goroutines

---
 a2l/token_generator.go | 62 ++++++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 220c0ce..61f3a92 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -11,6 +11,9 @@ import (
 
 const expectedNumberOfTokens = 3000000
 
+// errEndOfTokens signals that all tokens have been read, i.e. that there is no incomplete token left.
+var errEndOfTokens = errors.New("reached eof")
+
 var tokenList []string
 var moduleCount uint32
 
@@ -51,6 +54,8 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	var locTokens []chan []string
 	tokenList = make([]string, 0, expectedNumberOfTokens)
 	lines := strings.Split(str, "\n")
+	//errTokens reports that a goroutine could not build all of its tokens. Every goroutine sends at most one error.
+	errTokens := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -61,7 +66,7 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 		}
 		c := make(chan []string, 1)
 		locTokens = append(locTokens, c)
-		go tokenBuilderRoutine(lines[start:end], c)
+		go tokenBuilderRoutine(lines[start:end], c, errTokens)
 	}
 	//collect token lists from channels
 	for _, c := range locTokens {
@@ -69,9 +74,22 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 			tokenList = append(tokenList, t...)
 		}
 	}
-	tokenList = append(tokenList, emptyToken)
 	tg := tokenGenerator{}
 	tg.index = 0
+	if len(errTokens) != 0 {
+		//comments, texts and two worded keywords may span several lines, so a goroutine might have ended or started in the middle of one.
+		//in that case the tokens have to be built from the complete file.
+		log.Info().Msg("tokens cannot be built in parallel, building them sequentially")
+		moduleCount = 0
+		c := make(chan []string, 1)
+		errTokens = make(chan error, 1)
+		tokenBuilderRoutine(lines, c, errTokens)
+		tokenList = <-c
+		if len(errTokens) != 0 {
+			return tg, <-errTokens
+		}
+	}
+	tokenList = append(tokenList, emptyToken)
 	/*Set multithreading flag in accordance with the number of modules
 	Currently there is no support for parsing multi-module files with multithreading enabled due to complexity reasons
 	and minimal benefit due to overhead of detecting module borders and parser coordination / channel creation.*/
@@ -85,7 +103,7 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	return tg, nil
 }
 
-func tokenBuilderRoutine(lines []string, c chan []string) {
+func tokenBuilderRoutine(lines []string, c chan []string, cErr chan error) {
 	//initialize fields with the expected capacity of tokens it will have to hold in order to avoid reallocations
 	fields := make([][]string, 0, expectedNumberOfTokens/numProc)
 	for _, l := range lines {
@@ -93,11 +111,17 @@ func tokenBuilderRoutine(lines []string, c chan []string) {
 			fields = append(fields, strings.Fields(l))
 		}
 	}
-	c <- buildTokenList(fields)
+	tl, err := buildTokenList(fields)
+	if err != nil {
+		cErr <- err
+	}
+	c <- tl
 	close(c)
 }
 
-func buildTokenList(str [][]string) []string {
+// buildTokenList returns all tokens contained in str.
+// It fails if the last token is incomplete, e.g. because str ends within a comment or within a text in quotation marks.
+func buildTokenList(str [][]string) ([]string, error) {
 	var err error
 	tl := make([]string, 0, expectedNumberOfTokens/numProc)
 	currentOuterIndex := 0
@@ -108,8 +132,10 @@ func buildTokenList(str [][]string) []string {
 	for {
 		t, err = buildNextValidToken(&currentOuterIndex, &currentInnerIndex, str, firstRun)
 		firstRun = false
-		if err != nil {
-			return tl
+		if err == errEndOfTokens {
+			return tl, nil
+		} else if err != nil {
+			return tl, err
 		}
 		if t != emptyToken {
 			if strings.Contains(t, "*/") && !strings.Contains(t, "*/") {
@@ -128,7 +154,7 @@ func buildTokenList(str [][]string) []string {
 				tl = append(tl, t)
 			}
 		} else {
-			return tl
+			return tl, nil
 		}
 	}
 }
@@ -151,8 +177,8 @@ func buildNextValidToken(currentOuterIndex *int, currentInnerIndex *int, str [][
 				return emptyToken, err
 			}
 		} else {
-			err = errors.New("index out of bounds with outer index " + strconv.Itoa((*currentOuterIndex)) + " of " + strconv.Itoa(len(str)))
-			return emptyToken, err
+			//there are no lines at all
+			return emptyToken, errEndOfTokens
 		}
 	}
 start:
@@ -218,7 +244,7 @@ func skipLineComment(currentOuterIndex *int, currentInnerIndex *int, str [][]str
 			*currentInnerIndex = 0
 			return str[*currentOuterIndex][*currentInnerIndex], nil
 		} else {
-			return emptyToken, errors.New("reached eof")
+			return emptyToken, errEndOfTokens
 		}
 
 	} else {
@@ -236,7 +262,9 @@ func skipMultilineComment(currentOuterIndex *int, currentInnerIndex *int, str []
 		for {
 			t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 			//Until the delimiter of the multiline comment is found
-			if err != nil {
+			if err == errEndOfTokens {
+				return emptyToken, errors.New("unexpected end of file in multi line comment")
+			} else if err != nil {
 				return emptyToken, err
 			}
 			if strings.Contains(t, endMultilineCommentToken) {
@@ -271,7 +299,9 @@ func getTextInQuotationMarks(currentOuterIndex *int, currentInnerIndex *int, str
 		textInQuotationMarks := t
 		for {
 			t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
-			if err != nil {
+			if err == errEndOfTokens {
+				return emptyToken, errors.New("unexpected end of file in text with quotation marks")
+			} else if err != nil {
 				return emptyToken, err
 			}
 			textInQuotationMarks = textInQuotationMarks + spaceToken + t
@@ -303,7 +333,7 @@ func moveToNextRawValue(currentOuterIndex *int, currentInnerIndex *int, str [][]
 		str[*currentOuterIndex] = append(str[*currentOuterIndex], emptyToken)
 		*currentInnerIndex++
 		//reached EOF
-		return emptyToken, errors.New("reached eof")
+		return emptyToken, errEndOfTokens
 	} else if len(str[*currentOuterIndex])-1 == *currentInnerIndex && len(str)-1 > *currentOuterIndex {
 		//then go the next line and move to its first token
 		*currentOuterIndex++
@@ -336,7 +366,9 @@ func getTwoWordedToken(currentOuterIndex *int, currentInnerIndex *int, str [][]s
 	if strings.Contains(t, "/begin") || strings.Contains(t, "/end") {
 		twoWordedToken := t
 		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
-		if err != nil {
+		if err == errEndOfTokens {
+			return emptyToken, errors.New("unexpected end of file after " + twoWordedToken)
+		} else if err != nil {
 			return emptyToken, err
 		}
 		twoWordedToken = twoWordedToken + spaceToken + t
-- 
2.43.0


From 527874f20d0a7558f92f1e3ef1a3f3127b6cfa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:43 +0000
Subject: [PATCH 07/46] fix: a2l values containing a slash no longer end
 tokenization silently

---
 a2l/token_generator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 61f3a92..19bc14a 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -374,9 +374,13 @@ func getTwoWordedToken(currentOuterIndex *int, currentInnerIndex *int, str [][]s
 		twoWordedToken = twoWordedToken + spaceToken + t
 		return twoWordedToken, nil
 
-	} else {
-		err = errors.New("no /begin or /end token found")
+	} else if strings.HasPrefix(t, "/include") {
+		//the content of the included file would be missing
+		err = errors.New("/include is not supported")
 		return emptyToken, err
+	} else {
+		//any other value that happens to contain a slash
+		return t, nil
 	}
 }
 
-- 
2.43.0


From 3924f843ccfef35d450b598ddda4e525ed69c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:04 +0000
Subject: [PATCH 08/46] fix: a2l module objects are neither lost nor parsed
 partially at the borders of parser goroutines

---
 a2l/module.go | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/a2l/module.go b/a2l/module.go
index 06f00e1..f815369 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -3,6 +3,7 @@ package a2l
 import (
 	"errors"
 	"fmt"
+	"strings"
 	"sync"
 
 	"github.com/rs/zerolog/log"
@@ -417,13 +418,11 @@ forLoop:
 		return myModule, err
 	}
 	log.Info().Int("endIndex", endIndex).Msg("MODULE ends at index")
+	borders := moduleBorders(startIndex, endIndex)
 	for i := 0; i < numProc; i++ {
 		//Starte parser Threads
-		minIndex := startIndex + ((endIndex-startIndex)/numProc)*i
-		maxIndex := minIndex + ((endIndex - startIndex) / numProc) - 1
-		if i+1 == numProc {
-			maxIndex = endIndex
-		}
+		minIndex := borders[i]
+		maxIndex := borders[i+1]
 		log.Info().Msg(("goroutine " + fmt.Sprint(i) + " starting index: " + fmt.Sprint(minIndex) + " until end at index: " + fmt.Sprint(maxIndex) + " of " + fmt.Sprint(endIndex)))
 		go parseModuleMainLoop(wgParsers, minIndex, maxIndex, cA2ml, cAxisPts, cBlob, cCharacteristic, cCompuMethod,
 			cCompuTab, cCompuVtab, cCompuVtabRange, cFrame, cFunction, cGroup, cIfData, cMeasurement, cModCommon,
@@ -449,6 +448,37 @@ forLoop:
 	return myModule, err
 }
 
+// moduleBorders splits up the tokens of a module among numProc goroutines.
+// the goroutine i has to parse everything after index borders[i] up to and including index borders[i+1].
+// borders always lie between two objects of the module, so no object is parsed twice, partially or not at all.
+func moduleBorders(startIndex int, endIndex int) []int {
+	borders := make([]int, 1, numProc+1)
+	borders[0] = startIndex
+	depth := 0
+	for i := startIndex + 1; i < endIndex; i++ {
+		if strings.HasPrefix(tokenList[i], "/begin ") {
+			//start the next goroutine at this object once the previous ones have got their share
+			for depth == 0 && len(borders) < numProc && i > startIndex+((endIndex-startIndex)/numProc)*len(borders) {
+				borders = append(borders, i-1)
+			}
+			depth++
+		} else if strings.HasPrefix(tokenList[i], "/end ") {
+			depth--
+			if depth < 0 {
+				break
+			}
+		}
+	}
+	if depth != 0 {
+		//objects are not nested properly (e.g. within interface data), so their borders are only known to the parser itself
+		borders = borders[:1]
+	}
+	for len(borders) <= numProc {
+		borders = append(borders, endIndex)
+	}
+	return borders
+}
+
 // collectChannelsMultithreaded uses anonymous function to collect the data sent by the goroutines running the moduleMainLoop.
 // usually the Select Collector is to be prefered as it is mostly faster and always easier on memory
 // as the additional goroutines spun up in collectChannelsMultithreaded seem to block the GC a lot
@@ -997,6 +1027,11 @@ forLoop:
 				break forLoop
 			} else if tg.current() == endModuleToken {
 				break forLoop
+			} else if isKeyword(tg.current()) {
+				err = errors.New("unexpected token " + tg.current())
+				log.Err(err).Msg("module could not be parsed")
+				cError <- err
+				break forLoop
 			} else if tg.index >= maxIndex {
 				break forLoop
 			}
-- 
2.43.0


From 0bd4dbe9657c67a3450b0f28abb57f08df5e4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:31 +0000
Subject: [PATCH 09/46] fix: the hex parser is chosen by the extension of the
 file, not by the names of its folders

---
 calib_data.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index d061669..f5e05c5 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -12,6 +12,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"sync"
@@ -122,7 +123,7 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 	//probably improve this by putting the determination logic into a single unified hex parsing package
 
 	//intel hex
-	if strings.Contains(strings.ToLower(hexFilePath), ".hex") {
+	if strings.ToLower(filepath.Ext(hexFilePath)) == ".hex" {
 		h, err := ihex32.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
@@ -134,7 +135,7 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 			log.Info().Msg("parsed hex file")
 		}
 		//Motorola S19
-	} else if strings.Contains(strings.ToLower(hexFilePath), ".s19") {
+	} else if strings.ToLower(filepath.Ext(hexFilePath)) == ".s19" {
 		h, err := srec19.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
-- 
2.43.0


From 9a0225917f248a66cc74a44464bcbef9a885ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:34 +0000
Subject: [PATCH 10/46] fix: files can be parsed concurrently

---
 a2l/a2l.go    | 6 ++++++
 calib_data.go | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/a2l/a2l.go b/a2l/a2l.go
index d64034c..da61e72 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 	"time"
 	"unicode"
 
@@ -23,6 +24,8 @@ var (
 	//numProc = runtime.NumCPU() * 1 has proven to be reliably fast for different cpu models.
 	//factors above 4 will generally lead to severe performance degredation due to channel and locking overhead.
 	numProc = runtime.NumCPU() * 2
+	//parserMutex protects the tokens and the settings above, which belong to one file at a time.
+	parserMutex sync.Mutex
 )
 
 // A2L is the main struct returned by the a2l package.
@@ -58,6 +61,9 @@ func ParseFromFile(filepath string) (A2L, error) {
 	var tg tokenGenerator
 	var a A2L
 
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	startTime := time.Now()
 	//read a2l file from a text file
 	text, err = readFileToString(filepath)
diff --git a/calib_data.go b/calib_data.go
index f5e05c5..86d6b8a 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -41,11 +41,18 @@ type CalibrationData struct {
 	Hex map[uint32]byte
 }
 
+// readCalibrationMutex protects the global logger and its log-file that are set up by every call of ReadCalibration
+var readCalibrationMutex sync.Mutex
+
 // ReadCalibration takes filepaths to the a2l file and the hex file,
 // parses them in parallel and returns a CalibrationData struct
 func ReadCalibration(a2lFilePath string, hexFilePath string) (CalibrationData, error) {
 	var err error
 	var cd CalibrationData
+
+	readCalibrationMutex.Lock()
+	defer readCalibrationMutex.Unlock()
+
 	//set ModuleIndex to zero as default as it covers 99% of use cases.
 	cd.ModuleIndex = 0
 
-- 
2.43.0


From 9b0d728f2d0b715e1d59768013ccbc47884db0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:33 +0000
Subject: [PATCH 11/46] fix: word and long datatypes comprise 16 and 32 bits

---
 a2l/enums.go      | 22 +++++++++++-----------
 record_manager.go | 16 ++++++++--------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/a2l/enums.go b/a2l/enums.go
index bff99f0..5ab7837 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -39,15 +39,15 @@ const (
 	undefinedDatatype DataTypeEnum = emptyToken
 	//UBYTE is defined as an unsigned 8 bit integer
 	UBYTE DataTypeEnum = ubyteToken
-	//SBYTE is defined as an unsigned 8 bit integer
+	//SBYTE is defined as a signed 8 bit integer
 	SBYTE DataTypeEnum = sbyteToken
-	//UWORD seems to be statically defined as a 32 bit unsigned integer
+	//UWORD is defined as a 16 bit unsigned integer
 	UWORD DataTypeEnum = uwordToken
-	//SWORD seems to be statically defined as a 32 bit signed integer
+	//SWORD is defined as a 16 bit signed integer
 	SWORD DataTypeEnum = swordToken
-	//ULONG is defined as a 64 bit unsigned integer
+	//ULONG is defined as a 32 bit unsigned integer
 	ULONG DataTypeEnum = ulongToken
-	//SLONG is defined as a 64 bit signed integer
+	//SLONG is defined as a 32 bit signed integer
 	SLONG DataTypeEnum = slongToken
 	//AUint64 is defined as a 64 bit unsigned integer
 	AUint64 DataTypeEnum = aUint64Token
@@ -104,10 +104,10 @@ func (dte *DataTypeEnum) GetType() interface{} {
 		var t int8
 		return t
 	case UWORD:
-		var t uint32
+		var t uint16
 		return t
 	case SWORD:
-		var t int32
+		var t int16
 		return t
 	case ULONG:
 		var t uint32
@@ -142,9 +142,9 @@ func (dte *DataTypeEnum) GetDatatypeLength() uint16 {
 	case SBYTE:
 		return 8
 	case UWORD:
-		return 32
+		return 16
 	case SWORD:
-		return 32
+		return 16
 	case ULONG:
 		return 32
 	case SLONG:
@@ -211,9 +211,9 @@ func (dse *DataSizeEnum) GetDataSizeLength() uint16 {
 	case BYTE:
 		return 8
 	case WORD:
-		return 32
+		return 16
 	case LONG:
-		return 64
+		return 32
 	default:
 		return 0
 	}
diff --git a/record_manager.go b/record_manager.go
index 9385892..0759ad7 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -157,16 +157,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.BigEndian.Uint32(byteSlice)
+			val := binary.BigEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.BigEndian.Uint32(byteSlice))
+			val := int16(binary.BigEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.BigEndian.Uint64(byteSlice)
+			val := binary.BigEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.BigEndian.Uint64(byteSlice))
+			val := int32(binary.BigEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.BigEndian.Uint64(byteSlice)
@@ -195,16 +195,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.LittleEndian.Uint32(byteSlice)
+			val := binary.LittleEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.LittleEndian.Uint32(byteSlice))
+			val := int16(binary.LittleEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.LittleEndian.Uint64(byteSlice)
+			val := binary.LittleEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.LittleEndian.Uint64(byteSlice))
+			val := int32(binary.LittleEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.LittleEndian.Uint64(byteSlice)
-- 
2.43.0


From c6afc8589a92a5c4bd9917bdb9270cc56a86807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:34 +0000
Subject: [PATCH 12/46] fix: float16 values are converted by value instead of
 by their bit pattern

---
 record_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index 0759ad7..d0d2cdf 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -176,7 +176,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			return float64(val), nil
 		case a2l.Float16Ieee:
 			val := float16.Frombits(binary.BigEndian.Uint16(byteSlice))
-			return float64(val), nil
+			return float64(val.Float32()), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.BigEndian.Uint32(byteSlice))
 			return float64(val), nil
@@ -214,7 +214,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			return float64(val), nil
 		case a2l.Float16Ieee:
 			val := float16.Frombits(binary.LittleEndian.Uint16(byteSlice))
-			return float64(val), nil
+			return float64(val.Float32()), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.LittleEndian.Uint32(byteSlice))
 			return float64(val), nil
-- 
2.43.0


From 61d3f59e0388af60898a9f50b1d2b16090ff700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:35 +0000
Subject: [PATCH 13/46] fix: reading bytes from the hex data no longer panics

---
 calib_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calib_data.go b/calib_data.go
index 86d6b8a..456d197 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -489,7 +489,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 // if the address cannot be found an error is returned
 func (cd *CalibrationData) getBytes(address uint32, length uint32) ([]byte, error) {
 	nBytes := length / 8
-	bytes := make([]byte, nBytes, 0)
+	bytes := make([]byte, 0, nBytes)
 	if length%8 != 0 {
 		err := errors.New("unexpected number of bits " + strconv.Itoa(int(length)) + ". Expected a multiple of 8.")
 		log.Error().Err(err).Msg("invalid length")
-- 
2.43.0


From 6001285d745bc18f056da1eb3090e3599ffb3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:36 +0000
Subject: [PATCH 14/46] fix: unaligned addresses are moved to the next
 alignment border

---
 calib_data.go | 66 +++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index 456d197..8047bc3 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -209,7 +209,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentByte.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -218,14 +218,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(1)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(1) - modulo
 			} else {
 				return address
 			}
@@ -234,7 +234,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentByte.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -243,14 +243,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(1)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(1) - modulo
 			} else {
 				return address
 			}
@@ -259,7 +259,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentWord.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -268,14 +268,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -284,7 +284,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentWord.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -293,14 +293,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -309,7 +309,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentLong.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -318,14 +318,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -334,7 +334,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentLong.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -343,14 +343,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -359,7 +359,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentInt64.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -368,14 +368,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
@@ -384,7 +384,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentInt64.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -393,14 +393,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
@@ -409,7 +409,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat16Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat16Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat16Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -418,14 +418,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -434,7 +434,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat32Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat32Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat32Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -443,14 +443,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -459,7 +459,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat64Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat64Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat64Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -468,14 +468,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
-- 
2.43.0


From f08f6e563961350a5f2ebec1bc351bc9802b44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:37 +0000
Subject: [PATCH 15/46] fix: the position within a deposit structure is
 advanced by bytes including alignment gaps

---
 axis_pts.go       | 10 +++++-----
 calib_data.go     |  4 +++-
 distOp.go         | 10 +++++-----
 fnc_values.go     |  4 ++--
 identification.go |  2 +-
 no_axis_pts.go    | 10 +++++-----
 no_rescale_x.go   |  2 +-
 offsetOp.go       | 10 +++++-----
 reserved.go       |  2 +-
 shiftOp.go        | 10 +++++-----
 10 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/axis_pts.go b/axis_pts.go
index e5a19b9..ecc7db7 100644
--- a/axis_pts.go
+++ b/axis_pts.go
@@ -45,7 +45,7 @@ func (cv *CharacteristicValues) getAxisPointsX(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -84,7 +84,7 @@ func (cv *CharacteristicValues) getAxisPointsY(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsY.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsY.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -123,7 +123,7 @@ func (cv *CharacteristicValues) getAxisPointsZ(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsZ.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsZ.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -162,7 +162,7 @@ func (cv *CharacteristicValues) getAxisPoints4(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts4.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPts4.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -201,7 +201,7 @@ func (cv *CharacteristicValues) getAxisPoints5(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts5.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPts5.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
diff --git a/calib_data.go b/calib_data.go
index 8047bc3..675ea99 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -715,7 +715,9 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 }
 
 func (cd *CalibrationData) getValue(curPos *uint32, dte a2l.DataTypeEnum, rl *a2l.RecordLayout) ([]byte, error) {
-	bytes, err := cd.getBytes(cd.getNextAlignedAddress(*curPos, dte, rl), uint32(dte.GetDatatypeLength()))
+	//skip the alignment gap, so the caller only has to add the length of the value itself
+	*curPos = cd.getNextAlignedAddress(*curPos, dte, rl)
+	bytes, err := cd.getBytes(*curPos, uint32(dte.GetDatatypeLength()))
 	if err != nil {
 		log.Err(err).Msg("could not retrieve value as byteSlice")
 		return nil, err
diff --git a/distOp.go b/distOp.go
index b71553a..48443fc 100644
--- a/distOp.go
+++ b/distOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getDistOpX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getDistOpY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getDistOpZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getDistOp4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOp4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getDistOp5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOp5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/fnc_values.go b/fnc_values.go
index dad7048..5c99d00 100644
--- a/fnc_values.go
+++ b/fnc_values.go
@@ -23,7 +23,7 @@ func (cv *CharacteristicValues) getFncValues1D(cd *CalibrationData, rl *a2l.Reco
 		log.Err(err).Msg("could not retrieve FncValues values")
 		return 0.0, bufByte, err
 	}
-	*curPos += uint32(rl.FncValues.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.FncValues.Datatype.GetDatatypeLength()) / 8
 	return bufFloat, bufByte, err
 }
 
@@ -61,7 +61,7 @@ func (cv *CharacteristicValues) getFncValues2D(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
diff --git a/identification.go b/identification.go
index 5e90e66..143aa0f 100644
--- a/identification.go
+++ b/identification.go
@@ -20,6 +20,6 @@ func (cd *CalibrationData) getIdentification(rl *a2l.RecordLayout, curPos *uint3
 		log.Err(err).Msg("could not retrieve identification value")
 		return nil, err
 	}
-	*curPos += uint32(rl.Identification.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Identification.Datatype.GetDatatypeLength()) / 8
 	return val, err
 }
diff --git a/no_axis_pts.go b/no_axis_pts.go
index 766b01f..a225c7e 100644
--- a/no_axis_pts.go
+++ b/no_axis_pts.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getNoAxisPtsX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getNoAxisPtsY(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getNoAxisPtsZ(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getNoAxisPts4(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPts4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getNoAxisPts5(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPts5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/no_rescale_x.go b/no_rescale_x.go
index a90ae17..8a1138f 100644
--- a/no_rescale_x.go
+++ b/no_rescale_x.go
@@ -24,6 +24,6 @@ func (cd *CalibrationData) getNoRescaleX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noRescaleX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoRescaleX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoRescaleX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/offsetOp.go b/offsetOp.go
index f5a194d..22e531f 100644
--- a/offsetOp.go
+++ b/offsetOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getOffsetX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getOffsetY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getOffsetZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getOffset4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Offset4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getOffset5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Offset5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/reserved.go b/reserved.go
index 6602641..e9a5889 100644
--- a/reserved.go
+++ b/reserved.go
@@ -16,6 +16,6 @@ func (cd *CalibrationData) getReserved(rl *a2l.RecordLayout, curPos *uint32) err
 		return err
 	}
 	//Value of reserved is not relevant. Only its datasize and the resulting offset for other datastructres are necessary
-	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength())
+	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength()) / 8
 	return nil
 }
diff --git a/shiftOp.go b/shiftOp.go
index 256ee1b..49b7950 100644
--- a/shiftOp.go
+++ b/shiftOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getShiftOpX(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getShiftOpY(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getShiftOpZ(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getShiftOp4(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOp4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getShiftOp5(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOp5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
-- 
2.43.0


From e6186303e3ede2e56486701df15b0e5aab4c5858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:51 +0000
Subject: [PATCH 16/46] fix: looking up an object in a module that does not
 exist returns no objects instead of panicking

---
 record_manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/record_manager.go b/record_manager.go
index d0d2cdf..e215697 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -47,6 +47,10 @@ func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {
 	var buf interface{}
 	var exists bool
 
+	if int(cd.ModuleIndex) >= len(cd.A2l.Project.Modules) {
+		//there is no such module, so it cannot contain any object
+		return calibrationObjects
+	}
 	m := cd.A2l.Project.Modules[cd.ModuleIndex]
 
 	buf, exists = m.AxisPts[ident]
-- 
2.43.0


From 83d70cbc19c0ba881199e426f2e922d609387722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:52 +0000
Subject: [PATCH 17/46] fix: the value of a system constant is returned

---
 record_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/record_manager.go b/record_manager.go
index e215697..e5f9830 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -37,6 +37,7 @@ func (cd *CalibrationData) getSystemConstantValue(ident string) (string, error)
 		log.Err(err).Msg("could not get value of system constant")
 		return "", err
 	}
+	val = sc.Value
 	return val, nil
 }
 
-- 
2.43.0


From 11f3b6c556269420750c69865fbde0a1f49903a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:14 +0000
Subject: [PATCH 18/46] fix: addresses do not depend on the byte order of the
 ecu

---
 record_manager.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index e5f9830..4f2e085 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -116,24 +116,13 @@ func hexToByteSlice(hexVal string) ([]byte, error) {
 
 // convertStringToUint32Address is used to convert the adresses in string format in the characteristics to a uint32
 func (cd *CalibrationData) convertStringToUint32Address(str string) (uint32, error) {
-	var val uint32
-	byteSlice, err := hexToByteSlice(strings.ReplaceAll(str, "0x", ""))
+	//the address is a number, so it depends neither on the byte order of the ecu nor on the number of digits
+	val, err := strconv.ParseUint(strings.ReplaceAll(strings.ToLower(str), "0x", ""), 16, 32)
 	if err != nil {
 		log.Err(err).Msg("string '" + str + "' could not be parsed")
-		return val, err
+		return 0, err
 	}
-	modCom := &cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon
-	if modCom.ByteOrder.ByteOrder == a2l.MsbFirstMswLast || modCom.ByteOrder.ByteOrder == a2l.MsbLastMswFirst {
-		err = errors.New("unexpected byte order")
-		log.Err(err).Msg("byte order " + modCom.ByteOrder.ByteOrder.String() + "not implemented")
-		return val, err
-	}
-	if !modCom.ByteOrder.ByteOrderSet || modCom.ByteOrder.ByteOrder == a2l.BigEndian || modCom.ByteOrder.ByteOrder == a2l.MsbFirst {
-		val = binary.BigEndian.Uint32(byteSlice)
-	} else {
-		val = binary.LittleEndian.Uint32(byteSlice)
-	}
-	return val, nil
+	return uint32(val), nil
 }
 
 // converts a byteSlice into a a2l.DatatypeEnum datatype.
-- 
2.43.0


From aeeefe5a899ef60acee58982314d8ddb5b7043a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:15 +0000
Subject: [PATCH 19/46] fix: value ranges of verbal conversion tables are
 compared with their upper limit

---
 compu_methods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compu_methods.go b/compu_methods.go
index eebbb44..8b20e82 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -68,7 +68,7 @@ func calcTabVerbRange(dec float64, cvr *a2l.CompuVTabRange, cd *CalibrationData)
 	if tabRange.NumberValueTriplesSet {
 		var i uint16
 		for i = 0; i < tabRange.NumberValueTriples; i++ {
-			if tabRange.InValMin[i] <= dec && dec < tabRange.InValMin[i] {
+			if tabRange.InValMin[i] <= dec && (dec < tabRange.InValMax[i] || dec == tabRange.InValMin[i]) {
 				return tabRange.OutVal[i], err
 			}
 		}
-- 
2.43.0


From aa9d8553042456267f92e29c7491679026190f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:16 +0000
Subject: [PATCH 20/46] fix: interpolated conversion tables report that they
 are not implemented instead of returning zero

---
 compu_methods.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compu_methods.go b/compu_methods.go
index 8b20e82..7a4acdc 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -38,6 +38,9 @@ func convDecToPhy(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float6
 		}
 		return phy, err
 	case a2l.TabIntp:
+		//implement if found in prod data.
+		err = errors.New("conversion method 'TabIntp' not implemented for compuMethod " + cm.Name)
+		log.Err(err).Msg("decimal value could not be converted")
 		return 0, err
 	case a2l.TabNointp:
 		phy, err := calcTabNoIntp(dec, cm, cd)
-- 
2.43.0


From 566e52eba3e548ce96aa101de22939053b5325ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:17 +0000
Subject: [PATCH 21/46] fix: rational conversion functions are inverted
 correctly

---
 compu_methods.go | 49 ++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index 7a4acdc..9b0b20f 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -132,36 +132,37 @@ func calcRatFunc(dec float64, cm *a2l.CompuMethod) (float64, error) {
 	//y = (e dec - b)/(2 (a - d dec)) ± sqrt((e dec - b)^2 - 4 (d dec - a) (f dec - c))/(2 (a - d dec))
 	firstDivisor := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec))
 	if firstDivisor == 0 {
-		err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
+		//there is no quadratic term left: y = (f dec - c)/(b - e dec)
+		linearDivisor := cm.Coeffs.B - cm.Coeffs.E*dec
+		if linearDivisor == 0 {
+			err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
+			log.Err(err).Msg("decimal value could not be converted")
+			return 0, err
+		}
+		return (cm.Coeffs.F*dec - cm.Coeffs.C) / linearDivisor, err
+	}
+	radicand := math.Pow((cm.Coeffs.E*dec-cm.Coeffs.B), 2) - 4*(cm.Coeffs.D*dec-cm.Coeffs.A)*(cm.Coeffs.F*dec-cm.Coeffs.C)
+	if radicand < 0 {
+		err = errors.New("rationality function cannot be computed(no real solution) for compuMethod: " + cm.Name)
 		log.Err(err).Msg("decimal value could not be converted")
 		return 0, err
 	}
-	secondDivisorPositive := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec)) +
-		math.Sqrt(math.Pow((cm.Coeffs.E*dec-cm.Coeffs.B), 2)-4*(cm.Coeffs.D*dec-cm.Coeffs.A)*(cm.Coeffs.F*dec-cm.Coeffs.C))/firstDivisor
-	secondDivisorNegative := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec)) -
-		math.Sqrt(math.Pow((cm.Coeffs.E*dec-cm.Coeffs.B), 2)-4*(cm.Coeffs.D*dec-cm.Coeffs.A)*(cm.Coeffs.F*dec-cm.Coeffs.C))/firstDivisor
-
-	if secondDivisorPositive != 0 && secondDivisorNegative != 0 {
-		plusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorPositive
-		minusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorNegative
-		testVal := (cm.Coeffs.A*plusVal*plusVal + cm.Coeffs.B*plusVal + cm.Coeffs.C) / (cm.Coeffs.D*plusVal*plusVal + cm.Coeffs.E*plusVal + cm.Coeffs.F)
-		if testVal == dec {
-			return plusVal, err
-		} else {
-			return minusVal, err
-		}
-	} else if secondDivisorPositive != 0 {
-		plusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorPositive
+	plusVal := (cm.Coeffs.E*dec - cm.Coeffs.B + math.Sqrt(radicand)) / firstDivisor
+	minusVal := (cm.Coeffs.E*dec - cm.Coeffs.B - math.Sqrt(radicand)) / firstDivisor
+	//choose the solution that yields the decimal value with the smaller error
+	if ratFuncError(plusVal, dec, cm) <= ratFuncError(minusVal, dec, cm) {
 		return plusVal, err
-	} else if secondDivisorNegative != 0 {
-		minusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorNegative
-		return minusVal, err
-	} else {
-		err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
-		log.Err(err).Msg("decimal value could not be converted")
-		return 0, err
 	}
+	return minusVal, err
+}
 
+// ratFuncError computes how far f(Physical) is away from the decimal value.
+func ratFuncError(phy float64, dec float64, cm *a2l.CompuMethod) float64 {
+	e := math.Abs((cm.Coeffs.A*phy*phy+cm.Coeffs.B*phy+cm.Coeffs.C)/(cm.Coeffs.D*phy*phy+cm.Coeffs.E*phy+cm.Coeffs.F) - dec)
+	if math.IsNaN(e) {
+		return math.Inf(1)
+	}
+	return e
 }
 
 func calcTabNoIntp(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float64, error) {
-- 
2.43.0


From febf5ac7013cab1b1da3c4ebe394baf7e5121945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:00 +0000
Subject: [PATCH 22/46] fix: all dimensions of MATRIX_DIM are read

---
 a2l/matrix_dim.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 47af7a8..6586f1d 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -37,7 +37,7 @@ forLoop:
 			err = errors.New("unexpected end of file")
 			log.Err(err).Msg("matrixDim could not be parsed")
 			break forLoop
-		} else if isKeyword(tok.current()) {
+		} else if isKeyword(tok.current()) || tok.current() == readOnlyToken || tok.current() == readWriteToken {
 			//see above comment
 			log.Info().Str("current token", tok.current()).Msg("matrixDim detected keyword:")
 			tok.previous()
@@ -61,6 +61,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimY = uint16(buf)
+			md.DimYSet = true
 			log.Info().Msg("matrixDim yDim successfully parsed")
 		} else if !md.DimZSet {
 			var buf uint64
@@ -70,6 +71,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimZ = uint16(buf)
+			md.DimZSet = true
 			log.Info().Msg("matrixDim zDim successfully parsed")
 		} else if !md.Dim4Set {
 			var buf uint64
@@ -79,6 +81,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim4 = uint16(buf)
+			md.Dim4Set = true
 			log.Info().Msg("matrixDim 4Dim successfully parsed")
 		} else if !md.Dim5Set {
 			var buf uint64
@@ -88,6 +91,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim5 = uint16(buf)
+			md.Dim5Set = true
 			log.Info().Msg("matrixDim 5Dim successfully parsed")
 			break forLoop
 		}
-- 
2.43.0


From 671ff4ebed0a89c944b83826fa2fafbde6e77aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:02 +0000
Subject: [PATCH 23/46] fix: all attributes of FRAME are read

---
 a2l/frame.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/a2l/frame.go b/a2l/frame.go
index b2620df..f0a457a 100644
--- a/a2l/frame.go
+++ b/a2l/frame.go
@@ -42,6 +42,8 @@ forLoop:
 			log.Info().Msg("frame ifData successfully parsed")
 		default:
 			if tok.current() == emptyToken {
+				err = errors.New("unexpected end of file")
+				log.Err(err).Msg("frame could not be parsed")
 				break forLoop
 			} else if tok.current() == endFrameToken {
 				break forLoop
@@ -51,8 +53,10 @@ forLoop:
 				break forLoop
 			} else if !f.nameSet {
 				f.name = tok.current()
+				f.nameSet = true
 			} else if !f.longIdentifierSet {
 				f.longIdentifier = tok.current()
+				f.longIdentifierSet = true
 			} else if !f.scalingUnitSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
@@ -61,6 +65,7 @@ forLoop:
 					break forLoop
 				}
 				f.scalingUnit = uint16(buf)
+				f.scalingUnitSet = true
 			} else if !f.rateSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 32)
@@ -69,6 +74,7 @@ forLoop:
 					break forLoop
 				}
 				f.rate = uint32(buf)
+				f.rateSet = true
 			}
 		}
 	}
-- 
2.43.0


From 283ed2a2761e986f6ddd0e949b8572527174e277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:05 +0000
Subject: [PATCH 24/46] fix: resolution, accuracy and limits of measurements
 are read

---
 a2l/measurement.go          | 1 +
 a2l/type_def_measurement.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/a2l/measurement.go b/a2l/measurement.go
index 199dfbe..9072b43 100644
--- a/a2l/measurement.go
+++ b/a2l/measurement.go
@@ -243,6 +243,7 @@ forLoop:
 				log.Info().Msg("measurement datatype successfully parsed")
 			} else if !m.conversionSet {
 				m.conversion = tok.current()
+				m.conversionSet = true
 			} else if !m.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
diff --git a/a2l/type_def_measurement.go b/a2l/type_def_measurement.go
index d644333..2d7bd6a 100644
--- a/a2l/type_def_measurement.go
+++ b/a2l/type_def_measurement.go
@@ -135,6 +135,7 @@ forLoop:
 				log.Info().Msg("typeDefMeasurement datatype successfully parsed")
 			} else if !tdm.conversionSet {
 				tdm.conversion = tok.current()
+				tdm.conversionSet = true
 			} else if !tdm.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
-- 
2.43.0


From 5d31194a104b3bf8826304d7ba2bd4351df4eed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 25/46] fix: all offsets of MEMORY_SEGMENT are read

---
 a2l/memory_segment.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/a2l/memory_segment.go b/a2l/memory_segment.go
index 69e6b1c..d653fd3 100644
--- a/a2l/memory_segment.go
+++ b/a2l/memory_segment.go
@@ -92,6 +92,14 @@ forLoop:
 				ms.sizeSet = true
 			} else if !ms.offsetSet {
 				for i := 0; i < 5; i++ {
+					if i > 0 {
+						tok.next()
+					}
+					if tok.current() == emptyToken || isKeyword(tok.current()) {
+						err = errors.New("unexpected token " + tok.current())
+						log.Err(err).Msg("memorySegment offset could not be parsed")
+						break forLoop
+					}
 					ms.offset[i] = tok.current()
 				}
 				ms.offsetSet = true
-- 
2.43.0


From 3a2e6624e088bcfaf23965bd2def27b0e994ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:11 +0000
Subject: [PATCH 26/46] fix: the datatype of NO_RESCALE_X is read

---
 a2l/no_rescale_x.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/no_rescale_x.go b/a2l/no_rescale_x.go
index abe4759..c115ea5 100644
--- a/a2l/no_rescale_x.go
+++ b/a2l/no_rescale_x.go
@@ -39,7 +39,6 @@ forLoop:
 			nrx.Position = uint16(buf)
 			nrx.PositionSet = true
 			log.Info().Msg("noRescalex position successfully parsed")
-			break forLoop
 		} else if !nrx.DatatypeSet {
 			nrx.Datatype, err = parseDataTypeEnum(tok)
 			if err != nil {
@@ -48,6 +47,7 @@ forLoop:
 			}
 			nrx.DatatypeSet = true
 			log.Info().Msg("noRescalex datatype successfully parsed")
+			break forLoop
 		}
 	}
 	return nrx, err
-- 
2.43.0


From 13b7d0d35a6214bc46e990eddcdf40173133b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:14 +0000
Subject: [PATCH 27/46] fix: display and type of UNIT are read

---
 a2l/unit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a2l/unit.go b/a2l/unit.go
index 83e700c..cb11507 100644
--- a/a2l/unit.go
+++ b/a2l/unit.go
@@ -64,8 +64,8 @@ forLoop:
 				log.Info().Msg("unit name successfully parsed")
 			} else if !u.longIdentifierSet {
 				u.longIdentifier = tok.current()
-				u.nameSet = true
-				log.Info().Msg("unit name successfully parsed")
+				u.longIdentifierSet = true
+				log.Info().Msg("unit longIdentifier successfully parsed")
 			} else if !u.displaySet {
 				u.display = tok.current()
 				u.displaySet = true
-- 
2.43.0


From 0bd39f3f6782da52a281c461ac34b2d26ff1458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:37 +0000
Subject: [PATCH 28/46] fix: conversion and input quantity of OVERWRITE are
 read

---
 a2l/overwrite.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/a2l/overwrite.go b/a2l/overwrite.go
index 2ead1da..d60b047 100644
--- a/a2l/overwrite.go
+++ b/a2l/overwrite.go
@@ -28,7 +28,12 @@ forLoop:
 	for {
 		switch tok.next() {
 		case conversionToken:
-			o.conversion = tok.current()
+			o.conversion = tok.next()
+			if o.conversion == emptyToken || isKeyword(o.conversion) {
+				err = errors.New("unexpected token " + o.conversion)
+				log.Err(err).Msg("overwrite conversion could not be parsed")
+				break forLoop
+			}
 			log.Info().Msg("overwrite conversion successfully parsed")
 		case extendedLimitsToken:
 			o.extendedLimits, err = parseExtendedLimits(tok)
@@ -45,7 +50,12 @@ forLoop:
 			}
 			log.Info().Msg("overwrite format successfully parsed")
 		case inputQuantityToken:
-			o.inputQuantity = tok.current()
+			o.inputQuantity = tok.next()
+			if o.inputQuantity == emptyToken || isKeyword(o.inputQuantity) {
+				err = errors.New("unexpected token " + o.inputQuantity)
+				log.Err(err).Msg("overwrite inputQuantity could not be parsed")
+				break forLoop
+			}
 			log.Info().Msg("overwrite inputQuantity successfully parsed")
 		case limitsToken:
 			o.limits, err = parseLimits(tok)
-- 
2.43.0


From bfc19fb16fc5089490960d0e6dd47420d59d2a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:39 +0000
Subject: [PATCH 29/46] fix: the value of ADDRESS_TYPE is read

---
 a2l/blob.go                | 1 +
 a2l/enums.go               | 2 ++
 a2l/instance.go            | 1 +
 a2l/structure_component.go | 1 +
 a2l/type_def_blob.go       | 1 +
 a2l/type_def_structure.go  | 1 +
 6 files changed, 7 insertions(+)

diff --git a/a2l/blob.go b/a2l/blob.go
index 13c4a97..5c53d57 100644
--- a/a2l/blob.go
+++ b/a2l/blob.go
@@ -46,6 +46,7 @@ forLoop:
 			b.annotation = append(b.annotation, buf)
 			log.Info().Msg("blob annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			b.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("blob addressType could not be parsed")
diff --git a/a2l/enums.go b/a2l/enums.go
index 5ab7837..7d21d54 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -262,6 +262,8 @@ func parseAddrTypeEnum(tok *tokenGenerator) (AddrTypeEnum, error) {
 		a = PWORD
 	case plongToken:
 		a = PLONG
+	case plonLongToken:
+		a = PLONGLONG
 	case directToken:
 		a = DIRECT
 	default:
diff --git a/a2l/instance.go b/a2l/instance.go
index fd7529b..d5f8c08 100644
--- a/a2l/instance.go
+++ b/a2l/instance.go
@@ -45,6 +45,7 @@ forLoop:
 			i.annotation = append(i.annotation, buf)
 			log.Info().Msg("instance annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			i.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("instance addressType could not be parsed")
diff --git a/a2l/structure_component.go b/a2l/structure_component.go
index 19884c9..777af78 100644
--- a/a2l/structure_component.go
+++ b/a2l/structure_component.go
@@ -26,6 +26,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			sc.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("structureComponent addressType could not be parsed")
diff --git a/a2l/type_def_blob.go b/a2l/type_def_blob.go
index bcdaa5d..2440b49 100644
--- a/a2l/type_def_blob.go
+++ b/a2l/type_def_blob.go
@@ -24,6 +24,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tdb.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefBlob addressType could not be parsed")
diff --git a/a2l/type_def_structure.go b/a2l/type_def_structure.go
index 5c5942d..15faef4 100644
--- a/a2l/type_def_structure.go
+++ b/a2l/type_def_structure.go
@@ -27,6 +27,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tds.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefStructure addressType could not be parsed")
-- 
2.43.0


From 9246eee16fc27ca8d3d565abb7e8d6b1ebb986e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:42 +0000
Subject: [PATCH 30/46] fix: the value of ENCODING is read

---
 a2l/characteristic.go          | 1 +
 a2l/type_def_characteristic.go | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/a2l/characteristic.go b/a2l/characteristic.go
index d7a882b..e3e8508 100644
--- a/a2l/characteristic.go
+++ b/a2l/characteristic.go
@@ -134,6 +134,7 @@ forLoop:
 			}
 			log.Info().Msg("characteristic displayIdentifier successfully parsed")
 		case encodingToken:
+			tok.next()
 			c.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("characteristic encoding could not be parsed")
diff --git a/a2l/type_def_characteristic.go b/a2l/type_def_characteristic.go
index e1f7cf6..02817d7 100644
--- a/a2l/type_def_characteristic.go
+++ b/a2l/type_def_characteristic.go
@@ -73,13 +73,14 @@ forLoop:
 				break forLoop
 			}
 			log.Info().Msg("typeDefCharacteristic discrete successfully parsed")
-		case displayIdentifierToken:
+		case encodingToken:
+			tok.next()
 			tdc.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefCharacteristic encoding could not be parsed")
 				break forLoop
 			}
-			log.Info().Msg("typeDefCharacteristic displayIdentifier successfully parsed")
+			log.Info().Msg("typeDefCharacteristic encoding successfully parsed")
 		case extendedLimitsToken:
 			tdc.extendedLimits, err = parseExtendedLimits(tok)
 			if err != nil {
-- 
2.43.0


From 545277155ae783e137bb5cc93f4b9f621f4c9bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:45 +0000
Subject: [PATCH 31/46] fix: ALTERNATE_CURVES, ALTERNATE_WITH_X and
 ALTERNATE_WITH_Y are accepted as index modes

---
 a2l/tokens.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/a2l/tokens.go b/a2l/tokens.go
index 35dac5a..64cd0db 100644
--- a/a2l/tokens.go
+++ b/a2l/tokens.go
@@ -368,9 +368,6 @@ var keywordMap = map[string]uint8{
 	"ALIGNMENT_INT64":                 0,
 	"ALIGNMENT_LONG":                  0,
 	"ALIGNMENT_WORD":                  0,
-	"ALTERNATE_CURVES":                0,
-	"ALTERNATE_WITH_X":                0,
-	"ALTERNATE_WITH_Y":                0,
 	"ANNOTATION_LABEL":                0,
 	"ANNOTATION_ORIGIN":               0,
 	"AR_PROTOTYPE_OF":                 0,
-- 
2.43.0


From 553cfd77a457d6eb431c16b29b89c534bde3a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:48 +0000
Subject: [PATCH 32/46] fix: unexpected keywords in BIT_OPERATION are reported

---
 a2l/bit_operation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/a2l/bit_operation.go b/a2l/bit_operation.go
index ea65548..dfec724 100644
--- a/a2l/bit_operation.go
+++ b/a2l/bit_operation.go
@@ -56,6 +56,7 @@ forLoop:
 			} else if isKeyword(tok.current()) {
 				err = errors.New("unexpected token " + tok.current())
 				log.Err(err).Msg("bitOperation could not be parsed")
+				break forLoop
 			}
 		}
 	}
-- 
2.43.0


From e190c91df51d977c623140a8538d7982966c95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:50 +0000
Subject: [PATCH 33/46] fix: files without a project are reported as incomplete

---
 a2l/a2l.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/a2l/a2l.go b/a2l/a2l.go
index da61e72..2893db3 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -96,6 +96,7 @@ func ParseFromFile(filepath string) (A2L, error) {
 func parseA2l(tok *tokenGenerator) (A2L, error) {
 	a2l := A2L{}
 	var err error
+	projectFound := false
 forLoop:
 	for {
 		switch tok.current() {
@@ -120,9 +121,14 @@ forLoop:
 				log.Err(err).Msg("a2l project could not be parsed")
 				break forLoop
 			}
+			projectFound = true
 			log.Info().Msg("a2l project successfully parsed")
 		default:
-			if tok.current() == emptyToken {
+			if tok.current() == emptyToken && !projectFound {
+				err = errors.New("no project found")
+				log.Err(err).Msg("a2l could not be parsed")
+				break forLoop
+			} else if tok.current() == emptyToken {
 				log.Info().Msg("a2l parsed")
 				break forLoop
 			} else if isKeyword(tok.current()) {
-- 
2.43.0


From d064651fdd526d5f84d089ef5a368626108ef445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:16 +0000
Subject: [PATCH 34/46] fix: nothing is logged after the result of a module has
 been delivered

---
 a2l/module.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a2l/module.go b/a2l/module.go
index f815369..2797377 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -704,6 +704,8 @@ func closeChannelsAfterParsing(wg *sync.WaitGroup, cA2ml chan a2ml, cAxisPts cha
 	cUnit chan unit, cUserRights chan userRights, cVariantCoding chan variantCoding, cError chan error) {
 	log.Info().Msg("waiting for the parsers to finish")
 	wg.Wait()
+	//nothing may follow the closing of the channels as it is not waited for
+	log.Info().Msg("parsers finished, closing all channels")
 	close(cError)
 	close(cA2ml)
 	close(cAxisPts)
@@ -731,7 +733,6 @@ func closeChannelsAfterParsing(wg *sync.WaitGroup, cA2ml chan a2ml, cAxisPts cha
 	close(cUnit)
 	close(cUserRights)
 	close(cVariantCoding)
-	log.Info().Msg("parsers finished, closed all channels")
 }
 
 // parseModuleMainLoop is used by the parseModuleMultithreaded function to run the module parser in individual goroutines
-- 
2.43.0


From 508ccc55c58d6cec7dca6cbe3bcdbf0f6a0bf79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:17 +0000
Subject: [PATCH 35/46] fix: comment marks are told apart by which of them
 comes first

A multiline comment whose first word contained // (/*http://x) was skipped as line comment, so
what followed on its last line was lost or its remaining lines were read as tokens; a line comment
like //*"x was read as multiline comment; and /*/ was taken for a complete comment.
---
 a2l/token_generator.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 19bc14a..7775e81 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -188,7 +188,7 @@ start:
 		qtp := strings.Index(t, quotationMarkToken)
 		lcp := strings.Index(t, beginLineCommentToken)
 		mlcp := strings.Index(t, beginMultilineCommentToken)
-		if mlcp != -1 && mlcp < qtp {
+		if mlcp != -1 && mlcp < qtp && (lcp == -1 || mlcp < lcp) {
 			//if the beginning of a multiline comment is present and its position is before the quotation mark, then skip the comment
 			t, err = skipMultilineComment(currentOuterIndex, currentInnerIndex, str)
 			if err != nil {
@@ -212,7 +212,7 @@ start:
 			}
 			return textInQuotationMarks, nil
 		}
-	} else if strings.Contains(t, beginLineCommentToken) {
+	} else if startsWithLineComment(t) {
 		t, err = skipLineComment(currentOuterIndex, currentInnerIndex, str)
 		if err != nil {
 			return emptyToken, err
@@ -235,6 +235,19 @@ start:
 	}
 }
 
+// startsWithLineComment tells whether t contains the beginning of a line comment that is not part of a multiline comment, e.g. "/*http://".
+func startsWithLineComment(t string) bool {
+	lcp := strings.Index(t, beginLineCommentToken)
+	mlcp := strings.Index(t, beginMultilineCommentToken)
+	return lcp != -1 && (mlcp == -1 || lcp < mlcp)
+}
+
+// closesMultilineComment tells whether the multiline comment that starts in t also ends in t, which is not the case for "/*/".
+func closesMultilineComment(t string) bool {
+	mlcp := strings.Index(t, beginMultilineCommentToken)
+	return mlcp != -1 && strings.Contains(t[mlcp+len(beginMultilineCommentToken):], endMultilineCommentToken)
+}
+
 // skipLineComment if a "//" is detected the token generator moves to the next line (currentOuterIndex++)
 func skipLineComment(currentOuterIndex *int, currentInnerIndex *int, str [][]string) (string, error) {
 	if strings.Contains(str[*currentOuterIndex][*currentInnerIndex], beginLineCommentToken) {
@@ -257,7 +270,7 @@ func skipLineComment(currentOuterIndex *int, currentInnerIndex *int, str [][]str
 func skipMultilineComment(currentOuterIndex *int, currentInnerIndex *int, str [][]string) (string, error) {
 	var err error
 	t := str[*currentOuterIndex][*currentInnerIndex]
-	if strings.Contains(t, beginMultilineCommentToken) && !strings.Contains(t, endMultilineCommentToken) {
+	if strings.Contains(t, beginMultilineCommentToken) && !closesMultilineComment(t) {
 		//Get the next token in a Loop
 		for {
 			t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
@@ -277,7 +290,7 @@ func skipMultilineComment(currentOuterIndex *int, currentInnerIndex *int, str []
 			}
 
 		}
-	} else if strings.Contains(t, beginMultilineCommentToken) && strings.Contains(t, endMultilineCommentToken) {
+	} else if closesMultilineComment(t) {
 		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 		return t, err
 	} else {
-- 
2.43.0


From 886226cb6d4aba9056267140d732a807540591f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 36/46] fix: the objects of a module are only split up where
 its blocks are nested properly

moduleBorders only counted /begin and /end, so if a block was closed as another one within interface data, where to
split depended on the number of goroutines and objects were delivered or not depending on it.
---
 a2l/module.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/a2l/module.go b/a2l/module.go
index 2797377..463acf8 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -454,22 +454,24 @@ forLoop:
 func moduleBorders(startIndex int, endIndex int) []int {
 	borders := make([]int, 1, numProc+1)
 	borders[0] = startIndex
-	depth := 0
-	for i := startIndex + 1; i < endIndex; i++ {
+	//nested holds the keywords of the blocks that have not ended yet
+	nested := make([]string, 0, 10)
+	split := true
+	for i := startIndex + 1; i < endIndex && split; i++ {
 		if strings.HasPrefix(tokenList[i], "/begin ") {
 			//start the next goroutine at this object once the previous ones have got their share
-			for depth == 0 && len(borders) < numProc && i > startIndex+((endIndex-startIndex)/numProc)*len(borders) {
+			for len(nested) == 0 && len(borders) < numProc && i > startIndex+((endIndex-startIndex)/numProc)*len(borders) {
 				borders = append(borders, i-1)
 			}
-			depth++
+			nested = append(nested, strings.TrimPrefix(tokenList[i], "/begin "))
 		} else if strings.HasPrefix(tokenList[i], "/end ") {
-			depth--
-			if depth < 0 {
-				break
+			split = len(nested) > 0 && nested[len(nested)-1] == strings.TrimPrefix(tokenList[i], "/end ")
+			if split {
+				nested = nested[:len(nested)-1]
 			}
 		}
 	}
-	if depth != 0 {
+	if !split || len(nested) != 0 {
 		//objects are not nested properly (e.g. within interface data), so their borders are only known to the parser itself
 		borders = borders[:1]
 	}
-- 
2.43.0


From a8d25042640b8e538a75d5ad39a1c5ff5edda65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:47 +0000
Subject: [PATCH 37/46] fix: keywords are not taken for texts of verbal tables
 or values of forbidden combinations

---
 a2l/compu_vtab.go         | 6 +++++-
 a2l/compu_vtab_range.go   | 6 +++++-
 a2l/var_forbidden_comb.go | 9 +++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/a2l/compu_vtab.go b/a2l/compu_vtab.go
index 4bb0a5a..00d7efa 100644
--- a/a2l/compu_vtab.go
+++ b/a2l/compu_vtab.go
@@ -85,7 +85,11 @@ forLoop:
 					cvt.InValSet = true
 					log.Info().Msg("compuVtab inVal successfully parsed")
 				}
-				tok.next()
+				if isKeyword(tok.next()) {
+					err = errors.New("unexpected token " + tok.current())
+					log.Err(err).Msg("compuVTab outVal could not be parsed")
+					break forLoop
+				}
 				cvt.OutVal = append(cvt.OutVal, tok.current())
 				log.Info().Msg("compuVtab outVal successfully parsed")
 				if uint16(len(cvt.OutVal)) == cvt.NumberValuePairs {
diff --git a/a2l/compu_vtab_range.go b/a2l/compu_vtab_range.go
index 9996d86..a5c4733 100644
--- a/a2l/compu_vtab_range.go
+++ b/a2l/compu_vtab_range.go
@@ -90,7 +90,11 @@ forLoop:
 					cvr.InValMaxSet = true
 					log.Info().Msg("compuVtabRange inValMax successfully parsed")
 				}
-				tok.next()
+				if isKeyword(tok.next()) {
+					err = errors.New("unexpected token " + tok.current())
+					log.Err(err).Msg("compuVtabRange outVal could not be parsed")
+					break forLoop
+				}
 				cvr.OutVal = append(cvr.OutVal, tok.current())
 				log.Info().Msg("compuVtabRange outVal successfully parsed")
 				if uint16(len(cvr.OutVal)) == cvr.NumberValueTriples {
diff --git a/a2l/var_forbidden_comb.go b/a2l/var_forbidden_comb.go
index b1dcae9..7da2b0e 100644
--- a/a2l/var_forbidden_comb.go
+++ b/a2l/var_forbidden_comb.go
@@ -35,8 +35,13 @@ forLoop:
 			break forLoop
 		} else if !vfc.criterionNameSet || !vfc.criterionValueSet {
 			vfc.criterionName = append(vfc.criterionName, tok.current())
-			if tok.next() != emptyToken {
-				vfc.criterionValue = append(vfc.criterionValue, tok.current()) //token is upated in the if condition above
+			tok.next()
+			if isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("varForbiddenComb could not be parsed")
+				break forLoop
+			} else if tok.current() != emptyToken {
+				vfc.criterionValue = append(vfc.criterionValue, tok.current())
 			} else {
 				err = errors.New("unexpected end of file")
 				log.Err(err).Msg("varForbiddenComb could not be parsed")
-- 
2.43.0


From ad9b2e8293f335920dcea3b8e19b9d905723ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:13 +0000
Subject: [PATCH 38/46] fix: which of several objects of the same name is
 delivered does not depend on the schedule

They were parsed by different goroutines, so either could be the last one to be stored in the map of its kind.
---
 a2l/module.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/a2l/module.go b/a2l/module.go
index 463acf8..2abc8bc 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -456,6 +456,8 @@ func moduleBorders(startIndex int, endIndex int) []int {
 	borders[0] = startIndex
 	//nested holds the keywords of the blocks that have not ended yet
 	nested := make([]string, 0, 10)
+	//objects holds the keyword and name of all objects found so far
+	objects := make(map[[2]string]bool, 10000)
 	split := true
 	for i := startIndex + 1; i < endIndex && split; i++ {
 		if strings.HasPrefix(tokenList[i], "/begin ") {
@@ -463,6 +465,17 @@ func moduleBorders(startIndex int, endIndex int) []int {
 			for len(nested) == 0 && len(borders) < numProc && i > startIndex+((endIndex-startIndex)/numProc)*len(borders) {
 				borders = append(borders, i-1)
 			}
+			if len(nested) == 0 {
+				object := [2]string{tokenList[i], tokenList[i+1]}
+				switch tokenList[i] {
+				case beginA2mlToken, beginFrameToken, beginModCommonToken, beginModParToken, beginVariantCodingToken:
+					//there is only one of these in a module, whatever its name
+					object[1] = emptyToken
+				}
+				//an object that is defined again replaces the previous one, so they have to be parsed in the order of the file
+				split = !objects[object]
+				objects[object] = true
+			}
 			nested = append(nested, strings.TrimPrefix(tokenList[i], "/begin "))
 		} else if strings.HasPrefix(tokenList[i], "/end ") {
 			split = len(nested) > 0 && nested[len(nested)-1] == strings.TrimPrefix(tokenList[i], "/end ")
@@ -472,7 +485,8 @@ func moduleBorders(startIndex int, endIndex int) []int {
 		}
 	}
 	if !split || len(nested) != 0 {
-		//objects are not nested properly (e.g. within interface data), so their borders are only known to the parser itself
+		//objects are not nested properly (e.g. within interface data), so their borders are only known to the parser itself,
+		//or they are defined more than once.
 		borders = borders[:1]
 	}
 	for len(borders) <= numProc {
-- 
2.43.0


From a3d89de14cca10361d2009314af447c6b154b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:54 +0000
Subject: [PATCH 39/46] fix: the fields of a record are read in the order of
 their positions

---
 calib_data.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/calib_data.go b/calib_data.go
index 675ea99..e5e5cf6 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -13,6 +13,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -530,7 +531,15 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 		log.Err(err).Msg("could not convert address of characteristic '" + cv.characteristic.Name + "'")
 	}
 
-	for _, field := range cv.recordLayout.RelativePositions {
+	//a map has no order, so the fields are read in the order of their sorted positions
+	positions := make([]int, 0, len(rl.RelativePositions))
+	for pos := range rl.RelativePositions {
+		positions = append(positions, int(pos))
+	}
+	sort.Ints(positions)
+
+	for _, pos := range positions {
+		field := rl.RelativePositions[uint16(pos)]
 		switch field {
 		case "AxisPtsX":
 			cv.AxisXValues, err = cv.getAxisPointsX(cd, rl, &curPos)
-- 
2.43.0


From 9ee46ab362c9c3517025a1d1e1ab639582e3729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:20 +0000
Subject: [PATCH 40/46] fix: bytes with one upper and one lower case digit are
 read

---
 ihex32/hex.go | 4 ++++
 srec19/hex.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 6b7cad4..ebbe160 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -270,6 +270,10 @@ func hexToByte(str string) (byte, error) {
 	var b byte
 	var exists bool
 	b, exists = hexBytes[str]
+	if !exists {
+		//the digits of a byte may also be written in different cases
+		b, exists = hexBytes[strings.ToUpper(str)]
+	}
 	if !exists {
 		err = errors.New("could not convert " + str + " from hex to byte")
 		log.Err(err)
diff --git a/srec19/hex.go b/srec19/hex.go
index 51b5a1b..4e353fb 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -259,6 +259,10 @@ func hexToByte(str string) (byte, error) {
 	var b byte
 	var exists bool
 	b, exists = hexBytes[str]
+	if !exists {
+		//the digits of a byte may also be written in different cases
+		b, exists = hexBytes[strings.ToUpper(str)]
+	}
 	if !exists {
 		err = errors.New("could not convert " + str + " from hex to byte")
 		log.Err(err)
-- 
2.43.0


From 0d41f4712fd186f62669704d3eb9e6eeeeb37b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:06 +0000
Subject: [PATCH 41/46] fix: a record without layout, positions or address is
 not read

---
 calib_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/calib_data.go b/calib_data.go
index e5e5cf6..589c431 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -513,12 +513,14 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 	rl, err := cd.getRecordLayout(cv.characteristic)
 	if err != nil {
 		log.Err(err).Msg("record layout for identifier '" + cv.characteristic.Deposit + "' not found")
+		return
 	}
 
 	//determine relative positions of each field of the record layout struct
 	relPos, err := rl.GetRecordLayoutRelativePositions()
 	if err != nil {
 		log.Err(err).Msg("could not retrieve positions for record layout '" + cv.characteristic.Deposit + "'")
+		return
 	}
 	rl.RelativePositions = relPos
 
@@ -529,6 +531,7 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 	curPos, err = cd.convertStringToUint32Address(cv.characteristic.Address)
 	if err != nil {
 		log.Err(err).Msg("could not convert address of characteristic '" + cv.characteristic.Name + "'")
+		return
 	}
 
 	//a map has no order, so the fields are read in the order of their sorted positions
-- 
2.43.0


From 164c0d9ab1a177b58cb14bd0cb33c2fb90401572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:07 +0000
Subject: [PATCH 42/46] fix: fields behind an unreadable field of a record are
 not read from a wrong place

---
 calib_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calib_data.go b/calib_data.go
index 589c431..c915899 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -723,6 +723,10 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 				log.Err(err).Msg("unexpected case '" + field + "' in characteristic '" + cv.characteristic.Name + "'")
 			}
 		}
+		if err != nil {
+			//the fields behind one that could not be read have no known place
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 8cb33d215e47b3f77fbaedc1817088b80dfaa870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:09 +0000
Subject: [PATCH 43/46] fix: record layouts and system constants of a missing
 module are reported as an error

---
 calib_data.go     | 5 +++++
 record_manager.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/calib_data.go b/calib_data.go
index c915899..a5bceb9 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -190,6 +190,11 @@ func (cd *CalibrationData) getRecordLayout(c *a2l.Characteristic) (*a2l.RecordLa
 		log.Err(err).Msg("record layout not found")
 		return nil, err
 	}
+	if int(cd.ModuleIndex) >= len(cd.A2l.Project.Modules) {
+		err := errors.New("no module selected that could contain the record layout of characteristic " + c.Name)
+		log.Err(err).Msg("record layout not found")
+		return nil, err
+	}
 	module := cd.A2l.Project.Modules[cd.ModuleIndex]
 	rl, exists := module.RecordLayouts[c.Deposit]
 	if !exists {
diff --git a/record_manager.go b/record_manager.go
index 4f2e085..513c019 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -15,6 +15,11 @@ import (
 )
 
 func (cd *CalibrationData) getSystemConstant(ident string) (a2l.SystemConstant, error) {
+	if int(cd.ModuleIndex) >= len(cd.A2l.Project.Modules) {
+		err := errors.New("no module selected that could contain the system constant " + ident)
+		log.Err(err).Msg("system constant not found")
+		return a2l.SystemConstant{}, err
+	}
 	modPar := cd.A2l.Project.Modules[cd.ModuleIndex].ModPar
 	s, exists := modPar.SystemConstants[ident]
 	if !exists {
-- 
2.43.0


From 0b929be2f1f0d11c6395bb6fe6277dfef46148f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:51 +0000
Subject: [PATCH 44/46] fix: comments between /begin or /end and the keyword of
 the block

---
 a2l/token_generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 7775e81..e9d760d 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -378,7 +378,8 @@ func getTwoWordedToken(currentOuterIndex *int, currentInnerIndex *int, str [][]s
 	t := str[*currentOuterIndex][*currentInnerIndex]
 	if strings.Contains(t, "/begin") || strings.Contains(t, "/end") {
 		twoWordedToken := t
-		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
+		//there may be comments between the two words
+		t, err = buildNextValidToken(currentOuterIndex, currentInnerIndex, str, false)
 		if err == errEndOfTokens {
 			return emptyToken, errors.New("unexpected end of file after " + twoWordedToken)
 		} else if err != nil {
-- 
2.43.0


From e9c94cf645a8e1e54d13baf5cc4b7ca655fde201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:48 +0000
Subject: [PATCH 45/46] fix: addresses with 0x in the middle are no addresses

---
 record_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/record_manager.go b/record_manager.go
index 513c019..58ac2a2 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -122,7 +122,7 @@ func hexToByteSlice(hexVal string) ([]byte, error) {
 // convertStringToUint32Address is used to convert the adresses in string format in the characteristics to a uint32
 func (cd *CalibrationData) convertStringToUint32Address(str string) (uint32, error) {
 	//the address is a number, so it depends neither on the byte order of the ecu nor on the number of digits
-	val, err := strconv.ParseUint(strings.ReplaceAll(strings.ToLower(str), "0x", ""), 16, 32)
+	val, err := strconv.ParseUint(strings.TrimPrefix(strings.ToLower(str), "0x"), 16, 32)
 	if err != nil {
 		log.Err(err).Msg("string '" + str + "' could not be parsed")
 		return 0, err
-- 
2.43.0


From 9bed7264f41e3c0a33db13367922025dc9acb1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:48 +0000
Subject: [PATCH 46/46] fix: crash converting with a range table of less
 entries than announced

---
 compu_methods.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index 9b0b20f..6f92f53 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -69,8 +69,8 @@ func calcTabVerbRange(dec float64, cvr *a2l.CompuVTabRange, cd *CalibrationData)
 		return "", err
 	}
 	if tabRange.NumberValueTriplesSet {
-		var i uint16
-		for i = 0; i < tabRange.NumberValueTriples; i++ {
+		//the table might contain less entries than it announces
+		for i := range tabRange.OutVal {
 			if tabRange.InValMin[i] <= dec && (dec < tabRange.InValMax[i] || dec == tabRange.InValMin[i]) {
 				return tabRange.OutVal[i], err
 			}
-- 
2.43.0

