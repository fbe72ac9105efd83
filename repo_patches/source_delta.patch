From 7fb48ba39b9bcd965ebc38209074d59bb464ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:24 +0000
Subject: [PATCH 01/47] fix: merging several datasets no longer aliases or
 modifies the sources' components

---
 dataset.go | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/dataset.go b/dataset.go
index b33a799..7e9497a 100644
--- a/dataset.go
+++ b/dataset.go
@@ -370,18 +370,16 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		}
 
 		if ds.Commit == nil && d.Commit != nil {
-			ds.Commit = d.Commit
-		} else if ds.Commit != nil {
-			ds.Commit.Assign(d.Commit)
+			ds.Commit = &Commit{}
 		}
+		ds.Commit.Assign(d.Commit)
 		if ds.ID == "" && d.ID != "" {
 			ds.ID = d.ID
 		}
 		if ds.Meta == nil && d.Meta != nil {
-			ds.Meta = d.Meta
-		} else if ds.Meta != nil {
-			ds.Meta.Assign(d.Meta)
+			ds.Meta = &Meta{}
 		}
+		ds.Meta.Assign(d.Meta)
 		if d.Name != "" {
 			ds.Name = d.Name
 		}
@@ -398,33 +396,25 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 			ds.ProfileID = d.ProfileID
 		}
 		if ds.Stats == nil && d.Stats != nil {
-			ds.Stats = d.Stats
-		} else if ds.Stats != nil {
-			ds.Stats.Assign(d.Stats)
+			ds.Stats = &Stats{}
 		}
+		ds.Stats.Assign(d.Stats)
 		if ds.Structure == nil && d.Structure != nil {
-			ds.Structure = d.Structure
-		} else if ds.Structure != nil {
-			ds.Structure.Assign(d.Structure)
+			ds.Structure = &Structure{}
 		}
+		ds.Structure.Assign(d.Structure)
 		if ds.Transform == nil && d.Transform != nil {
-			ds.Transform = d.Transform
-		} else if ds.Transform != nil {
-			ds.Transform.Assign(d.Transform)
+			ds.Transform = &Transform{}
 		}
+		ds.Transform.Assign(d.Transform)
 		if ds.Viz == nil && d.Viz != nil {
-			ds.Viz = d.Viz
-		} else if ds.Viz != nil {
-			ds.Viz.Assign(d.Viz)
+			ds.Viz = &Viz{}
 		}
+		ds.Viz.Assign(d.Viz)
 		if ds.Readme == nil && d.Readme != nil {
-			ds.Readme = d.Readme
-		} else if ds.Readme != nil {
-			ds.Readme.Assign(d.Readme)
+			ds.Readme = &Readme{}
 		}
-
-		// TODO - wut dis?
-		ds.Commit.Assign(d.Commit)
+		ds.Readme.Assign(d.Readme)
 	}
 }
 
-- 
2.43.0


From 4eb4b40b193bcf10cfb805caf7ffba7527e7ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:11 +0000
Subject: [PATCH 02/47] fix: merge a dataset's qri and version count, and a
 viz/readme's rendered file

---
 dataset.go | 6 ++++++
 readme.go  | 3 +++
 viz.go     | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/dataset.go b/dataset.go
index 7e9497a..2ea9f98 100644
--- a/dataset.go
+++ b/dataset.go
@@ -383,6 +383,9 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		if d.Name != "" {
 			ds.Name = d.Name
 		}
+		if d.NumVersions != 0 {
+			ds.NumVersions = d.NumVersions
+		}
 		if d.Path != "" {
 			ds.Path = d.Path
 		}
@@ -395,6 +398,9 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		if d.ProfileID != "" {
 			ds.ProfileID = d.ProfileID
 		}
+		if d.Qri != "" {
+			ds.Qri = d.Qri
+		}
 		if ds.Stats == nil && d.Stats != nil {
 			ds.Stats = &Stats{}
 		}
diff --git a/readme.go b/readme.go
index e8a4685..c0080a4 100644
--- a/readme.go
+++ b/readme.go
@@ -187,6 +187,9 @@ func (r *Readme) Assign(readmeConfigs ...*Readme) {
 		if rs.RenderedPath != "" {
 			r.RenderedPath = rs.RenderedPath
 		}
+		if rs.renderedFile != nil {
+			r.renderedFile = rs.renderedFile
+		}
 	}
 }
 
diff --git a/viz.go b/viz.go
index 13d34d1..e288bbf 100644
--- a/viz.go
+++ b/viz.go
@@ -187,6 +187,9 @@ func (v *Viz) Assign(visConfigs ...*Viz) {
 		if vs.RenderedPath != "" {
 			v.RenderedPath = vs.RenderedPath
 		}
+		if vs.renderedFile != nil {
+			v.renderedFile = vs.renderedFile
+		}
 	}
 }
 
-- 
2.43.0


From 67366517185b26095f4989bd44681c5a5cb6095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:08 +0000
Subject: [PATCH 03/47] fix: a structure with set fields is no longer encoded
 as a bare path reference

---
 structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure.go b/structure.go
index f441ebf..257695a 100644
--- a/structure.go
+++ b/structure.go
@@ -189,7 +189,7 @@ type _structure Structure
 
 // MarshalJSON satisfies the json.Marshaler interface
 func (s Structure) MarshalJSON() (data []byte, err error) {
-	if s.Path != "" && s.Encoding == "" && s.Schema == nil {
+	if s.Path != "" && s.IsEmpty() {
 		return json.Marshal(s.Path)
 	}
 
-- 
2.43.0


From f952bb6ff8c6823348d37c2a2608f2f8dfb3b9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:11 +0000
Subject: [PATCH 04/47] fix: custom metadata and version count make a document
 non-empty, so encoding keeps them

---
 dataset.go | 1 +
 meta.go    | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataset.go b/dataset.go
index 2ea9f98..39b3856 100644
--- a/dataset.go
+++ b/dataset.go
@@ -102,6 +102,7 @@ func (ds *Dataset) IsEmpty() bool {
 		ds.ID == "" &&
 		ds.Meta == nil &&
 		ds.Name == "" &&
+		ds.NumVersions == 0 &&
 		ds.Peername == "" &&
 		ds.PreviousPath == "" &&
 		ds.ProfileID == "" &&
diff --git a/meta.go b/meta.go
index e648efc..1aae811 100644
--- a/meta.go
+++ b/meta.go
@@ -91,7 +91,8 @@ func (md *Meta) IsEmpty() bool {
 		md.ReadmeURL == "" &&
 		md.Title == "" &&
 		md.Theme == nil &&
-		md.Version == ""
+		md.Version == "" &&
+		len(md.meta) == 0
 }
 
 // NewMetaRef creates a Meta pointer with the internal
-- 
2.43.0


From f2b9582388ff783cb1db98266f87295533bc5508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:14 +0000
Subject: [PATCH 05/47] fix: decoding meta no longer duplicates keywords into
 the custom metadata

---
 meta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta.go b/meta.go
index 1aae811..d950459 100644
--- a/meta.go
+++ b/meta.go
@@ -406,7 +406,7 @@ func (md *Meta) UnmarshalJSON(data []byte) error {
 		"homeURL",
 		"identifier",
 		"image",
-		"keyword",
+		"keywords",
 		"path",
 		"qri",
 		"language",
-- 
2.43.0


From 6acb499e3ae956e0cc89e8a184094bbf2f706259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:36 +0000
Subject: [PATCH 06/47] fix: encoding a dataset, viz, readme or meta as JSON no
 longer modifies it

---
 dataset.go |  7 ++++---
 meta.go    |  3 ---
 readme.go  | 10 +++++-----
 viz.go     | 10 +++++-----
 4 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/dataset.go b/dataset.go
index 39b3856..c1cae6d 100644
--- a/dataset.go
+++ b/dataset.go
@@ -433,11 +433,12 @@ func (ds *Dataset) MarshalJSON() ([]byte, error) {
 	if ds.Path != "" && ds.IsEmpty() {
 		return json.Marshal(ds.Path)
 	}
-	if ds.Qri == "" {
-		ds.Qri = KindDataset.String()
+	d := _dataset(*ds)
+	if d.Qri == "" {
+		d.Qri = KindDataset.String()
 	}
 
-	return json.Marshal(_dataset(*ds))
+	return json.Marshal(d)
 }
 
 // internal struct for json unmarshaling
diff --git a/meta.go b/meta.go
index d950459..3890768 100644
--- a/meta.go
+++ b/meta.go
@@ -103,9 +103,6 @@ func NewMetaRef(path string) *Meta {
 
 // Meta gives access to additional metadata not covered by dataset metadata
 func (md *Meta) Meta() map[string]interface{} {
-	if md.meta == nil {
-		md.meta = map[string]interface{}{}
-	}
 	shallowCopy := map[string]interface{}{}
 	for key, val := range md.meta {
 		shallowCopy[key] = val
diff --git a/readme.go b/readme.go
index c0080a4..2365cc6 100644
--- a/readme.go
+++ b/readme.go
@@ -200,10 +200,6 @@ func (r *Readme) MarshalJSON() ([]byte, error) {
 	if r.Path != "" && r.IsEmpty() {
 		return json.Marshal(r.Path)
 	}
-	if r.Qri == "" {
-		r.Qri = KindReadme.String()
-	}
-
 	return r.MarshalJSONObject()
 }
 
@@ -249,8 +245,12 @@ func UnmarshalReadme(v interface{}) (*Readme, error) {
 // MarshalJSONObject always marshals to a json Object, even if Readme is empty or
 // a reference
 func (r *Readme) MarshalJSONObject() ([]byte, error) {
+	kind := r.Qri
+	if kind == "" {
+		kind = KindReadme.String()
+	}
 	data := map[string]interface{}{
-		"qri": r.Qri,
+		"qri": kind,
 	}
 
 	if r.Format != "" {
diff --git a/viz.go b/viz.go
index e288bbf..09e6cf9 100644
--- a/viz.go
+++ b/viz.go
@@ -203,10 +203,6 @@ func (v *Viz) MarshalJSON() ([]byte, error) {
 	if v.Path != "" && v.IsEmpty() {
 		return json.Marshal(v.Path)
 	}
-	if v.Qri == "" {
-		v.Qri = KindViz.String()
-	}
-
 	return v.MarshalJSONObject()
 }
 
@@ -251,8 +247,12 @@ func UnmarshalViz(v interface{}) (*Viz, error) {
 // MarshalJSONObject always marshals to a json Object, even if Viz is empty or
 // a reference
 func (v *Viz) MarshalJSONObject() ([]byte, error) {
+	kind := v.Qri
+	if kind == "" {
+		kind = KindViz.String()
+	}
 	data := map[string]interface{}{
-		"qri": v.Qri,
+		"qri": kind,
 	}
 
 	if v.Format != "" {
-- 
2.43.0


From b0d172c6bf9e84a01d12eb3e1b8cee89cae8a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:12 +0000
Subject: [PATCH 07/47] fix: ConvertFile returns the error that stopped the
 conversion instead of truncated data

---
 dsio/dsio.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsio/dsio.go b/dsio/dsio.go
index 6c72e9a..18b38e7 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -220,7 +220,9 @@ func ConvertFile(file qfs.File, in, out *dataset.Structure, limit, offset int, a
 			Offset: offset,
 		}
 	}
-	err = Copy(rr, w)
+	if err = Copy(rr, w); err != nil {
+		return nil, err
+	}
 
 	if err := w.Close(); err != nil {
 		return nil, fmt.Errorf("error closing row buffer: %s", err.Error())
-- 
2.43.0


From 7865f08512d1bef00679710e7faab6c44b854bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:16 +0000
Subject: [PATCH 08/47] fix: CSVWriter reports header and flush failures

---
 dsio/csv.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 9573504..ddf8bbe 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -220,7 +220,9 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 
 	if opts != nil {
 		if opts.HeaderRow {
-			writer.Write(cols.Titles())
+			if err := writer.Write(cols.Titles()); err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -286,6 +288,9 @@ func encode(vs []interface{}) ([]string, error) {
 // will be written
 func (w *CSVWriter) Close() error {
 	w.w.Flush()
+	if err := w.w.Error(); err != nil {
+		return err
+	}
 	if w.close != nil {
 		return w.close()
 	}
-- 
2.43.0


From 163f4dc9395d111b271f09d8c1309bca44357180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:19 +0000
Subject: [PATCH 09/47] fix: JSONWriter.Close and stepfile.Write report failed
 separator writes

---
 dsio/json.go         | 5 ++++-
 stepfile/stepfile.go | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index e31f1d6..bd92495 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -652,7 +652,10 @@ func (w *JSONWriter) Close() error {
 
 	// If pretty, newline
 	if w.indent != "" {
-		w.wr.Write([]byte{'\n'})
+		if _, err := w.wr.Write([]byte{'\n'}); err != nil {
+			log.Debug(err.Error())
+			return fmt.Errorf("error closing writer: %s", err.Error())
+		}
 	}
 
 	cloze := []byte{']'}
diff --git a/stepfile/stepfile.go b/stepfile/stepfile.go
index c0261dc..9a1711f 100644
--- a/stepfile/stepfile.go
+++ b/stepfile/stepfile.go
@@ -55,7 +55,9 @@ func Write(steps []*dataset.TransformStep, w io.Writer) error {
 			return err
 		}
 		if i != len(steps)-1 {
-			w.Write([]byte("\n---\n"))
+			if _, err := w.Write([]byte("\n---\n")); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From fa8e387c9f0f46e9e42898bbbcb5ff84944c8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 10/47] fix: dsgen reports failures to write its output

---
 generate/dsgen/main.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/generate/dsgen/main.go b/generate/dsgen/main.go
index 1f1c1b4..310d0b9 100644
--- a/generate/dsgen/main.go
+++ b/generate/dsgen/main.go
@@ -75,17 +75,22 @@ func generateFile(structurePath string, lines int) error {
 		if err != nil {
 			return err
 		}
-		w.WriteEntry(ent)
+		if err := w.WriteEntry(ent); err != nil {
+			return err
+		}
+	}
+	if err := w.Close(); err != nil {
+		return err
 	}
-	w.Close()
-	gen.Close()
-	return nil
+	return gen.Close()
 }
 
 func writeFixedFile(lines, diffStart int) error {
 	filler := strings.Repeat("0", 908)
 	w := csv.NewWriter(os.Stdout)
-	w.Write([]string{"uuid", "ingest", "occurred", "raw_data"})
+	if err := w.Write([]string{"uuid", "ingest", "occurred", "raw_data"}); err != nil {
+		return err
+	}
 	var uuid, ingest, occurred, rawData string
 	for i := 0; i < lines; i++ {
 		if diffStart > 0 && i > diffStart {
@@ -101,9 +106,11 @@ func writeFixedFile(lines, diffStart int) error {
 			occurred = fmt.Sprintf("2000-%d-01 00:00:02.000 UTC", i)
 			rawData = fmt.Sprintf("%d%s", i, filler)
 		}
-		w.Write([]string{uuid, ingest, occurred, rawData})
+		if err := w.Write([]string{uuid, ingest, occurred, rawData}); err != nil {
+			return err
+		}
 	}
 
 	w.Flush()
-	return nil
+	return w.Error()
 }
-- 
2.43.0


From f685996d19c9d8d1a0483a2c9297ded66858f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:50 +0000
Subject: [PATCH 11/47] fix: writing a CSV row rejects values it cannot
 represent instead of writing empty cells

---
 dsio/csv.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index ddf8bbe..d6f6892 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -263,13 +263,17 @@ func encode(vs []interface{}) ([]string, error) {
 		case float64:
 			strings[i] = strconv.FormatFloat(t, 'f', -1, 64)
 		case []interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case map[string]interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case bool:
 			if t {
 				strings[i] = "true"
@@ -278,6 +282,8 @@ func encode(vs []interface{}) ([]string, error) {
 			}
 		case nil:
 			strings[i] = ""
+		default:
+			return nil, fmt.Errorf("unrecognized encoding type: %#v", v)
 		}
 	}
 
-- 
2.43.0


From cdae9c0ed46bdc2ceafc55f08f3fb84a0402c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:53 +0000
Subject: [PATCH 12/47] fix: NDJSONReader reads a last line that has no newline

---
 dsio/ndjson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsio/ndjson.go b/dsio/ndjson.go
index 90252e1..a1c56df 100644
--- a/dsio/ndjson.go
+++ b/dsio/ndjson.go
@@ -57,7 +57,7 @@ func (r *NDJSONReader) Structure() *dataset.Structure {
 // ReadEntry reads one JSON record from the reader
 func (r *NDJSONReader) ReadEntry() (Entry, error) {
 	line, err := r.buf.ReadBytes('\n')
-	if err != nil {
+	if err != nil && !(err == io.EOF && len(line) > 0) {
 		return Entry{}, err
 	}
 
-- 
2.43.0


From bbab4a2d58a1759ccf35eb6670a79d44b1628d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:12 +0000
Subject: [PATCH 13/47] fix: IdentityReader ends reliably after the last entry,
 without a data race

---
 dsio/identity.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dsio/identity.go b/dsio/identity.go
index f3c5fe6..233093a 100644
--- a/dsio/identity.go
+++ b/dsio/identity.go
@@ -26,7 +26,6 @@ func NewIdentityReader(st *dataset.Structure, data interface{}) (*IdentityReader
 // IdentityReader is a dsio.EntryReader that works with native go types
 type IdentityReader struct {
 	st      *dataset.Structure
-	done    bool
 	entries chan Entry
 }
 
@@ -39,20 +38,18 @@ func (r *IdentityReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one row of structured data from the reader
 func (r *IdentityReader) ReadEntry() (Entry, error) {
-	if r.done {
+	ent, ok := <-r.entries
+	if !ok {
 		return Entry{}, io.EOF
 	}
 
-	return <-r.entries, nil
+	return ent, nil
 }
 
 // Close finalizes the reader
 func (r *IdentityReader) Close() error {
-	if !r.done {
-		// drain channel to prevent leaking goroutine
-		for !r.done {
-			<-r.entries
-		}
+	// drain channel to prevent leaking goroutine
+	for range r.entries {
 	}
 	return nil
 }
@@ -64,7 +61,7 @@ func (r *IdentityReader) iterateMap(data map[string]interface{}) chan Entry {
 		for key, val := range data {
 			res <- Entry{Key: key, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
@@ -77,7 +74,7 @@ func (r *IdentityReader) iterateSlice(data []interface{}) chan Entry {
 		for i, val := range data {
 			res <- Entry{Index: i, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
-- 
2.43.0


From a964e58fd425aa4c64e3d4be830cab5f6ead2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:29 +0000
Subject: [PATCH 14/47] fix: an entry rejected by JSONWriter leaves no trace in
 the output

---
 dsio/json.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index bd92495..4f74f0e 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -548,6 +548,12 @@ func (w *JSONWriter) Structure() *dataset.Structure {
 
 // WriteEntry writes one JSON record to the writer
 func (w *JSONWriter) WriteEntry(ent Entry) error {
+	data, err := w.valBytes(ent)
+	if err != nil {
+		log.Debug(err.Error())
+		return err
+	}
+
 	defer func() {
 		w.rowsWritten++
 	}()
@@ -562,12 +568,6 @@ func (w *JSONWriter) WriteEntry(ent Entry) error {
 		}
 	}
 
-	data, err := w.valBytes(ent)
-	if err != nil {
-		log.Debug(err.Error())
-		return err
-	}
-
 	// If between elems, put a comma. If pretty, newline as well.
 	enc := []byte{','}
 	if w.rowsWritten == 0 {
@@ -599,7 +599,6 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		log.Debugf(`key already written: "%s"`, ent.Key)
 		return nil, fmt.Errorf(`key already written: "%s"`, ent.Key)
 	}
-	w.keysWritten[ent.Key] = true
 
 	// Write the key
 	if w.indent != "" {
@@ -627,6 +626,7 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		return data, err
 	}
 	data = append(data, val...)
+	w.keysWritten[ent.Key] = true
 	return data, nil
 }
 
-- 
2.43.0


From 8cc32eef6919ba4d5ae345e8a1eae10558c6f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:39 +0000
Subject: [PATCH 15/47] fix: CBORReader copies strings and byte strings out of
 its read buffer, whatever their length

---
 dsio/cbor.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index b5d918a..4fde19f 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -430,15 +430,12 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
-	buff, err := r.rdr.Peek(num)
-	if err != nil {
+	// copy out of the reader's buffer, growing only as data actually arrives
+	buff := &bytes.Buffer{}
+	if _, err := io.CopyN(buff, r.rdr, int64(num)); err != nil {
 		return nil, err
 	}
-	_, err = r.rdr.Discard(num)
-	if err != nil {
-		return nil, err
-	}
-	return buff, nil
+	return buff.Bytes(), nil
 }
 
 // CBORWriter implements the RowWriter interface for
-- 
2.43.0


From 68635a418de1ced61620ab48be55bc3d42c8a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 16/47] fix: CBORReader rejects integers and lengths beyond
 int64, and doesn't allocate for a claimed length

---
 dsio/cbor.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 4fde19f..a8c746b 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -341,12 +341,8 @@ func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
 
 // readArray reads an array of the given length
 func (r *CBORReader) readArray(length int) ([]interface{}, error) {
-	var array []interface{}
-	if length > 0 {
-		array = make([]interface{}, 0, length)
-	} else {
-		array = make([]interface{}, 0)
-	}
+	// length comes from the input, don't allocate for it up front
+	array := make([]interface{}, 0)
 	for {
 		if length == 0 || (length == indefiniteLength && r.readIndefiniteSequenceBreak()) {
 			break
@@ -413,7 +409,11 @@ func (r *CBORReader) readIntBytes(num int) (int64, error) {
 	if num < 8 {
 		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
 	}
-	return int64(binary.BigEndian.Uint64(data)), nil
+	u := binary.BigEndian.Uint64(data)
+	if u > math.MaxInt64 {
+		return 0, fmt.Errorf("integer overflows int64: %d", u)
+	}
+	return int64(u), nil
 }
 
 // readFloatBytes returns a float by reading num bytes from the input stream
-- 
2.43.0


From 3769e389b8bd93fcefc7e97b4d1690023be12341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:47 +0000
Subject: [PATCH 17/47] fix: CBORReader decodes negative integers, short floats
 and tagged values instead of failing or misreading them

---
 dsio/cbor.go | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index a8c746b..e6b2b68 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -208,7 +208,7 @@ func (r *CBORReader) readValue() (interface{}, error) {
 	}
 
 	switch b {
-	case cborBdNil:
+	case cborBdNil, cborBdUndefined:
 		return nil, nil
 	case cborBdFalse:
 		return false, nil
@@ -291,6 +291,12 @@ func (r *CBORReader) readValue() (interface{}, error) {
 				return nil, err
 			}
 			return array, nil
+		case cborBaseNegInt:
+			num, err := r.getVarLenInt(b)
+			if err != nil {
+				return nil, err
+			}
+			return -1 - num, nil
 		case cborBaseMap:
 			length, err := r.getVarLenInt(b)
 			if err != nil {
@@ -302,11 +308,11 @@ func (r *CBORReader) readValue() (interface{}, error) {
 			}
 			return assoc, nil
 		case cborBaseTag:
-			// TODO: Implement me
-			return nil, nil
-		case cborBaseSimple:
-			// TODO: Implement me
-			return nil, nil
+			// tags qualify the value that follows, drop the tag & keep the value
+			if _, err := r.getVarLenInt(b); err != nil {
+				return nil, err
+			}
+			return r.readValue()
 		default:
 			return nil, fmt.Errorf("unknown cbor tag: %v", b)
 		}
@@ -422,10 +428,35 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	if num < 8 {
-		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
+	switch num {
+	case 2:
+		return float16(binary.BigEndian.Uint16(data)), nil
+	case 4:
+		return float64(math.Float32frombits(binary.BigEndian.Uint32(data))), nil
+	default:
+		return math.Float64frombits(binary.BigEndian.Uint64(data)), nil
+	}
+}
+
+// float16 expands an IEEE 754 half-precision value
+func float16(h uint16) float64 {
+	exp, mant := int(h>>10)&0x1f, float64(h&0x3ff)
+	var v float64
+	switch exp {
+	case 0:
+		v = math.Ldexp(mant, -24)
+	case 0x1f:
+		v = math.Inf(1)
+		if mant != 0 {
+			v = math.NaN()
+		}
+	default:
+		v = math.Ldexp(mant+1024, exp-25)
+	}
+	if h&0x8000 != 0 {
+		v = -v
 	}
-	return math.Float64frombits(binary.BigEndian.Uint64(data)), nil
+	return v
 }
 
 // readBytes reads a number of bytes from the input stream
-- 
2.43.0


From ee6eb3ac299250a86fb0efc166ae96fcf2e26948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:25 +0000
Subject: [PATCH 18/47] fix: CBORReader reports truncated input as an error and
 stops at a declared length

---
 dsio/cbor.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index e6b2b68..f794b3a 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -76,11 +76,14 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 		if top != r.topLevel {
 			return ent, fmt.Errorf("Top-level type did not match")
 		}
-		// TODO(dustmop): Length is not used right now, except for handling indefinite length
-		// streams. In the future, it should be used to check that max(r.rowsRead) == r.length
 		r.length = length
 	}
 
+	// a container with a declared length ends there
+	if r.length > 0 && r.rowsRead >= r.length {
+		return ent, io.EOF
+	}
+
 	if r.length == indefiniteLength && r.readIndefiniteSequenceBreak() {
 		return ent, io.EOF
 	}
@@ -88,7 +91,7 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 	if r.topLevel == cborBaseMap {
 		ent.Key, err = r.readStringKey()
 		if err != nil {
-			return
+			return ent, r.truncated(err)
 		}
 	} else {
 		ent.Index = r.rowsRead
@@ -96,13 +99,22 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 
 	ent.Value, err = r.readValue()
 	if err != nil {
-		return
+		return ent, r.truncated(err)
 	}
 
 	r.rowsRead++
 	return
 }
 
+// truncated replaces an end of input within a container that still has entries
+// to come, which must not be mistaken for the end of the data
+func (r *CBORReader) truncated(err error) error {
+	if err == io.EOF && r.length != 0 {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 // Close finalizes the reader
 func (r *CBORReader) Close() error {
 	if r.close != nil {
@@ -163,7 +175,9 @@ func (r *CBORReader) readTopLevel() (byte, int, error) {
 	}
 
 	length, err := r.getVarLenInt(b)
-	if err != nil {
+	if err == io.EOF {
+		return 0, 0, io.ErrUnexpectedEOF
+	} else if err != nil {
 		return 0, 0, err
 	}
 
-- 
2.43.0


From 63f6f3d5b14f4547440adc8c33fd7112dc949327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:29 +0000
Subject: [PATCH 19/47] fix: JSONReader reports an invalid first element of an
 array instead of dropping it

---
 dsio/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index 4f74f0e..2f4794a 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -452,7 +452,7 @@ func (r *JSONReader) readArray() ([]interface{}, error) {
 	// Read first element.
 	val, err := r.readValue()
 	if err != nil {
-		return array, nil
+		return array, err
 	}
 	array = append(array, val)
 	// Read the rest of the elements.
-- 
2.43.0


From 1a27286f3130b5e67bec72504994fc5ac082c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 20/47] fix: JSONReader doesn't panic on escape sequences cut
 short

---
 dsio/json.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 2f4794a..654c75b 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -273,10 +273,10 @@ func unquoteJSONString(srcBuff []byte) string {
 	d := 0
 	limit := len(srcBuff)
 	// If the string stars or ends with a quote, remove it
-	if srcBuff[0] == '"' {
+	if limit > 0 && srcBuff[0] == '"' {
 		s++
 	}
-	if srcBuff[len(srcBuff)-1] == '"' {
+	if limit > 0 && srcBuff[limit-1] == '"' {
 		limit--
 	}
 	for s < limit {
@@ -302,6 +302,11 @@ func unquoteJSONString(srcBuff []byte) string {
 				// Technically this is out of spec, but we handle it
 				// because some apps incorrectly output json with
 				// \xAA character sequences
+				if s+3 > limit {
+					dstBuff[d] = '?'
+					d++
+					break
+				}
 				hexChars := srcBuff[s+1 : s+3]
 				s += 3
 				bs, err := hex.DecodeString(string(hexChars))
@@ -314,6 +319,11 @@ func unquoteJSONString(srcBuff []byte) string {
 				continue
 			} else if ch == 'u' {
 				// A unicode code-point escape sequence
+				if s+5 > limit {
+					dstBuff[d] = '?'
+					d++
+					break
+				}
 				hexChars := srcBuff[s+1 : s+5]
 				s += 5
 				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
@@ -352,11 +362,11 @@ func (r *JSONReader) readString() (string, error) {
 	}
 
 	for {
-		if i >= len(buff) {
+		for i >= len(buff) {
 			var more bool
 			buff, more = r.extendBuffer(buff)
 			if !more {
-				break
+				return "", fmt.Errorf("Expected: closing '\"' for string")
 			}
 		}
 		if buff[i] == '\\' {
@@ -372,7 +382,6 @@ func (r *JSONReader) readString() (string, error) {
 		}
 		i++
 	}
-	return "", fmt.Errorf("Expected: closing '\"' for string")
 }
 
 func (r *JSONReader) readNumber() (interface{}, error) {
-- 
2.43.0


From c53191eaecd3052d1909f2d80390fd670c20cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:36 +0000
Subject: [PATCH 21/47] fix: deeply nested JSON and CBOR is an error instead of
 a stack overflow

---
 dsio/cbor.go |  7 +++++++
 dsio/json.go | 13 +++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index f794b3a..e3c77aa 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -20,6 +20,7 @@ type CBORReader struct {
 	st       *dataset.Structure
 	topLevel byte
 	length   int
+	depth    int // current nesting of the value being read
 }
 
 var _ EntryReader = (*CBORReader)(nil)
@@ -210,6 +211,12 @@ func (r *CBORReader) readStringKey() (string, error) {
 
 // readValue reads a value of any type from the input stream
 func (r *CBORReader) readValue() (interface{}, error) {
+	if r.depth >= maxNestingDepth {
+		return nil, errNestingDepth
+	}
+	r.depth++
+	defer func() { r.depth-- }()
+
 	b, err := r.rdr.ReadByte()
 	if err != nil {
 		return nil, err
diff --git a/dsio/json.go b/dsio/json.go
index 654c75b..8cd130e 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -22,10 +22,17 @@ type JSONReader struct {
 	reader      *bufio.Reader
 	close       func() error // close func from wrapped reader
 	prevSize    int          // when buffer is extended, remember how much of the old buffer to discard
+	depth       int          // current nesting of the value being read
 }
 
 var _ EntryReader = (*JSONReader)(nil)
 
+// maxNestingDepth limits how deep values may nest, going deeper is an error
+// instead of exhausting the stack
+const maxNestingDepth = 10000
+
+var errNestingDepth = fmt.Errorf("exceeded maximum nesting depth of %d", maxNestingDepth)
+
 // NewJSONReader creates a reader from a structure and read source
 func NewJSONReader(st *dataset.Structure, r io.Reader) (*JSONReader, error) {
 	// Huge buffer (a quarter of a MB) to speed up string reads.
@@ -174,6 +181,12 @@ func (r *JSONReader) peekNextChar() byte {
 }
 
 func (r *JSONReader) readValue() (interface{}, error) {
+	if r.depth >= maxNestingDepth {
+		return nil, errNestingDepth
+	}
+	r.depth++
+	defer func() { r.depth-- }()
+
 	b := r.peekNextChar()
 	switch b {
 	case 'n':
-- 
2.43.0


From 5bc1f51bd891e3ba6978b822f30fd54d4565e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:00 +0000
Subject: [PATCH 22/47] fix: a column with an empty type list no longer crashes
 readers and writers

---
 tabular/tabular.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index f25ea4e..47baa96 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -186,7 +186,11 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 							types = append(types, t)
 						}
 					}
-					cols[i].Type = &types
+					// a list without type names leaves the default in place
+					setType = len(types) > 0
+					if setType {
+						cols[i].Type = &types
+					}
 				}
 			case "description":
 				if d, ok := val.(string); ok {
-- 
2.43.0


From 640ba217cbe619c053960e36321442b905a1d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:04 +0000
Subject: [PATCH 23/47] fix: CSVOptions.Map gives the separator in the form
 NewCSVOptions accepts

---
 data_format_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_format_config.go b/data_format_config.go
index 0256bc6..ae265ef 100644
--- a/data_format_config.go
+++ b/data_format_config.go
@@ -111,7 +111,7 @@ func (o *CSVOptions) Map() map[string]interface{} {
 		opt["variadicFields"] = o.VariadicFields
 	}
 	if o.Separator != rune(0) {
-		opt["separator"] = o.Separator
+		opt["separator"] = string(o.Separator)
 	}
 	return opt
 }
-- 
2.43.0


From b6024b81c28194c8a7d2b278319d50398ef20c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 24/47] fix: a failed preview no longer crashes or loses body
 and readme data

---
 preview/preview.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/preview/preview.go b/preview/preview.go
index 328ba45..b26431f 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -64,6 +64,7 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		tr := io.TeeReader(f, buf)
 
 		content, err := ioutil.ReadAll(io.LimitReader(tr, MaxReadmePreviewBytes))
+		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 		if err != nil {
 			log.Debugw("Reading Readme", "err", err.Error())
 			return nil, err
@@ -72,11 +73,13 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 			content = append(content, []byte("...")...)
 		}
 		ds.Readme.Text = string(content)
-
-		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 	}
 
 	if ds.BodyFile() != nil {
+		if ds.Structure == nil {
+			log.Debug("Create: body without a structure")
+			return nil, fmt.Errorf("dataset has a body but no structure component")
+		}
 		st := &dataset.Structure{
 			Format: "json",
 			Schema: ds.Structure.Schema,
@@ -92,13 +95,14 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		}
 
 		data, err := dsio.ConvertFile(teedFile, ds.Structure, st, MaxNumDatasetRowsInPreview, 0, false)
+		// glue whatever was read back onto the body, even if converting failed
+		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 		if err != nil {
 			log.Debugw("converting body file", "err", err.Error())
 			return nil, err
 		}
 
 		ds.Body = json.RawMessage(data)
-		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 	}
 
 	// Note: stats can get arbitrarily large, potentially bloating the size
-- 
2.43.0


From 26c13f818e8ef21de7529af1c7fdc8c0decf7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:42 +0000
Subject: [PATCH 25/47] fix: rendering a viz keeps all body and script data,
 also on failure, and doesn't crash without them

---
 dsviz/render.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index 8a37a70..dfc5a90 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -37,19 +37,21 @@ var PredefinedHTMLTemplates map[string]string
 
 func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	script := ds.Viz.ScriptFile()
+	if script == nil {
+		return nil, fmt.Errorf("viz component has no script file")
+	}
 	// tee the viz file to avoid losing script data
 	vizScriptBuf := &bytes.Buffer{}
 	tr := io.TeeReader(script, vizScriptBuf)
 	teedVizScriptFile := qfs.NewMemfileReader(script.FileName(), tr)
 
 	tmplBytes, err := ioutil.ReadAll(teedVizScriptFile)
+	// restore consumed script file
+	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), io.MultiReader(vizScriptBuf, script)))
 	if err != nil {
 		return nil, fmt.Errorf("reading template data: %s", err.Error())
 	}
 
-	// restore consumed script file
-	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), vizScriptBuf))
-
 	vizDs, err := vizDataset(ds)
 	if err != nil {
 		return nil, err
@@ -161,8 +163,16 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 
 	// load all body data
 	bodyFile := ds.BodyFile()
+	if bodyFile == nil {
+		return nil, dataset.ErrNoBody
+	}
 	bodyBytesBuf := &bytes.Buffer{}
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
+	defer func() {
+		// restore body file
+		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), io.MultiReader(bodyBytesBuf, bodyFile)))
+	}()
+
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
 	if err != nil {
 		return nil, fmt.Errorf("error allocating data reader: %s", err)
@@ -181,11 +191,6 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 		return nil, err
 	}
 
-	defer func() {
-		// restore body file
-		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), bodyBytesBuf))
-	}()
-
 	return bodyEntries, nil
 }
 
-- 
2.43.0


From 5304912dcbed38ce2f4ac4b8185219270b9fd3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:11 +0000
Subject: [PATCH 26/47] fix: detected schemas are no longer shared between
 datasets

---
 detect/cbor.go |  4 ++--
 detect/json.go | 16 +++++++++++++---
 detect/xlsx.go |  2 +-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/detect/cbor.go b/detect/cbor.go
index 278cab5..8e2ddca 100644
--- a/detect/cbor.go
+++ b/detect/cbor.go
@@ -29,9 +29,9 @@ func CBORSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 	switch {
 	case bd >= cborBaseArray && bd < cborBaseMap, bd == cborBdIndefiniteArray:
-		return dataset.BaseSchemaArray, n, nil
+		return arraySchema(), n, nil
 	case bd >= cborBaseMap && bd < cborBaseTag, bd == cborBdIndefiniteMap:
-		return dataset.BaseSchemaObject, n, nil
+		return objectSchema(), n, nil
 	default:
 		err = fmt.Errorf("invalid top-level type for CBOR data. cbor datasets must begin with either an array or map")
 		log.Debugf(err.Error())
diff --git a/detect/json.go b/detect/json.go
index e94d5e9..14b851d 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -40,9 +40,9 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 		for _, b := range buf {
 			switch b {
 			case '[':
-				return dataset.BaseSchemaArray, n, nil
+				return arraySchema(), n, nil
 			case '{':
-				return dataset.BaseSchemaObject, n, nil
+				return objectSchema(), n, nil
 			case ' ', '\t', '\n', '\r':
 				continue
 			default:
@@ -55,5 +55,15 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 // NDJSONSchema returns an array identity schema
 func NDJSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return arraySchema(), 0, nil
+}
+
+// detected schemas belong to the caller, the base schemas must not be shared
+
+func arraySchema() map[string]interface{} {
+	return map[string]interface{}{"type": "array"}
+}
+
+func objectSchema() map[string]interface{} {
+	return map[string]interface{}{"type": "object"}
 }
diff --git a/detect/xlsx.go b/detect/xlsx.go
index 3c0310a..5218660 100644
--- a/detect/xlsx.go
+++ b/detect/xlsx.go
@@ -9,5 +9,5 @@ import (
 // XLSXSchema determines any schema information for an excel spreadsheet
 // TODO (b5): currently unimplemented
 func XLSXSchema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return arraySchema(), 0, nil
 }
-- 
2.43.0


From ee66d904d009ad92026b4fd1b61eb4c368388855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:14 +0000
Subject: [PATCH 27/47] fix: JSON schema detection only looks at bytes that
 were read

---
 detect/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detect/json.go b/detect/json.go
index 14b851d..f7db2e4 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -37,7 +37,7 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 			}
 		}
 
-		for _, b := range buf {
+		for _, b := range buf[:count] {
 			switch b {
 			case '[':
 				return arraySchema(), n, nil
-- 
2.43.0


From 92c94dd3b14163ec9e91e5c8bb74cadf912356f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:17 +0000
Subject: [PATCH 28/47] fix: a failed structure detection no longer loses the
 start of the body

---
 detect/detect.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/detect/detect.go b/detect/detect.go
index 77deb4f..ef0a511 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -55,6 +55,15 @@ func Structure(ds *dataset.Dataset) error {
 	}
 
 	guessedStructure, _, err := FromReader(df, comp, tr)
+
+	// glue whatever we just read back onto the reader
+	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
+	// we should consider a method on qfs.File that allows this non-destructive read pattern
+	size := int64(-1)
+	if sizef, ok := body.(qfs.SizeFile); ok {
+		size = sizef.Size()
+	}
+	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
 	if err != nil {
 		log.Debug(err.Error())
 		return fmt.Errorf("determining dataset structure: %w", err)
@@ -76,15 +85,6 @@ func Structure(ds *dataset.Dataset) error {
 	if ds.Structure.Schema == nil {
 		ds.Structure.Schema = guessedStructure.Schema
 	}
-
-	// glue whatever we just read back onto the reader
-	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
-	// we should consider a method on qfs.File that allows this non-destructive read pattern
-	size := int64(-1)
-	if sizef, ok := body.(qfs.SizeFile); ok {
-		size = sizef.Size()
-	}
-	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
 	return nil
 }
 
-- 
2.43.0


From d608f0bc3a6b221ce8e2b9d8564616a25a664c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:21 +0000
Subject: [PATCH 29/47] fix: Kind.Type and Kind.Version don't panic on strings
 too short to be a kind

---
 kind.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kind.go b/kind.go
index 570a966..e4a2e1a 100644
--- a/kind.go
+++ b/kind.go
@@ -52,11 +52,17 @@ func (k Kind) Valid() error {
 
 // Type returns the type identifier
 func (k Kind) Type() string {
+	if len(k) < 2 {
+		return ""
+	}
 	return k.String()[:2]
 }
 
 // Version returns the version portion of the kind identifier
 func (k Kind) Version() string {
+	if len(k) < 3 {
+		return ""
+	}
 	return k.String()[3:]
 }
 
-- 
2.43.0


From 5d00ae8e7be54ab63858d73341a266e12bbcbb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:08 +0000
Subject: [PATCH 30/47] fix: merging metadata copies the custom entries instead
 of sharing them, as Set modifies them in place

---
 meta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta.go b/meta.go
index 3890768..6858bd5 100644
--- a/meta.go
+++ b/meta.go
@@ -242,7 +242,7 @@ func (md *Meta) Assign(metas ...*Meta) {
 		}
 
 		if m.meta != nil {
-			md.meta = m.meta
+			md.meta = m.Meta() // a copy, as Set modifies it in place
 		}
 
 		if m.AccessURL != "" {
-- 
2.43.0


From 42edf2f42a62d11c25ee7b97ff4a16d184636de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:24 +0000
Subject: [PATCH 31/47] fix: JSONReader keeps reporting the end of the data
 after the container was closed

---
 dsio/json.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dsio/json.go b/dsio/json.go
index 8cd130e..deff734 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -16,6 +16,7 @@ import (
 type JSONReader struct {
 	entriesRead int
 	initialized bool
+	done        bool // the container has been closed, no entries follow
 	tlt         string
 	st          *dataset.Structure
 	objKey      string
@@ -77,6 +78,10 @@ const blockSize = 4096
 func (r *JSONReader) ReadEntry() (Entry, error) {
 	ent := Entry{}
 
+	if r.done {
+		return ent, io.EOF
+	}
+
 	// Fill up buffer.
 	_, _ = r.reader.Peek(blockSize)
 
@@ -96,10 +101,12 @@ func (r *JSONReader) ReadEntry() (Entry, error) {
 	// Close JSON container if it is complete, signaling EOF.
 	if r.tlt == "object" {
 		if r.readTokenChar('}') {
+			r.done = true
 			return ent, io.EOF
 		}
 	} else {
 		if r.readTokenChar(']') {
+			r.done = true
 			return ent, io.EOF
 		}
 	}
-- 
2.43.0


From e4dd2de0bd35f3b4bd79c067f4f21386237efc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:00 +0000
Subject: [PATCH 32/47] fix: CBORReader reports empty input as truncated, reads
 the top-level header only once and keeps reporting the end

---
 dsio/cbor.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index e3c77aa..962f73c 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -15,6 +15,8 @@ import (
 // CBORReader implements the RowReader interface for the CBOR data format
 type CBORReader struct {
 	rowsRead int
+	opened   bool // the top-level container's header has been read
+	done     bool // the top-level container is complete, no entries follow
 	rdr      *bufio.Reader
 	close    func() error // close func from wrapped reader
 	st       *dataset.Structure
@@ -69,7 +71,11 @@ func (r *CBORReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one CBOR record from the reader
 func (r *CBORReader) ReadEntry() (ent Entry, err error) {
-	if r.rowsRead == 0 {
+	if r.done {
+		return ent, io.EOF
+	}
+
+	if !r.opened {
 		top, length, err := r.readTopLevel()
 		if err != nil {
 			return ent, err
@@ -78,21 +84,31 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 			return ent, fmt.Errorf("Top-level type did not match")
 		}
 		r.length = length
+		r.opened = true
 	}
 
 	// a container with a declared length ends there
 	if r.length > 0 && r.rowsRead >= r.length {
+		r.done = true
 		return ent, io.EOF
 	}
 
 	if r.length == indefiniteLength && r.readIndefiniteSequenceBreak() {
+		r.done = true
 		return ent, io.EOF
 	}
 
+	// entries following a declared length of zero are read until the data ends
+	if r.length == 0 {
+		if _, err := r.rdr.Peek(1); err != nil {
+			return ent, err
+		}
+	}
+
 	if r.topLevel == cborBaseMap {
 		ent.Key, err = r.readStringKey()
 		if err != nil {
-			return ent, r.truncated(err)
+			return ent, truncated(err)
 		}
 	} else {
 		ent.Index = r.rowsRead
@@ -100,17 +116,17 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 
 	ent.Value, err = r.readValue()
 	if err != nil {
-		return ent, r.truncated(err)
+		return ent, truncated(err)
 	}
 
 	r.rowsRead++
 	return
 }
 
-// truncated replaces an end of input within a container that still has entries
-// to come, which must not be mistaken for the end of the data
-func (r *CBORReader) truncated(err error) error {
-	if err == io.EOF && r.length != 0 {
+// truncated replaces an end of input within an entry, or within a container that
+// still has entries to come, which must not be mistaken for the end of the data
+func truncated(err error) error {
+	if err == io.EOF {
 		return io.ErrUnexpectedEOF
 	}
 	return err
@@ -162,7 +178,7 @@ const cborTypeMask byte = 0xe0
 func (r *CBORReader) readTopLevel() (byte, int, error) {
 	b, err := r.rdr.ReadByte()
 	if err != nil {
-		return 0, 0, err
+		return 0, 0, truncated(err)
 	}
 
 	t := b & cborTypeMask
@@ -176,10 +192,8 @@ func (r *CBORReader) readTopLevel() (byte, int, error) {
 	}
 
 	length, err := r.getVarLenInt(b)
-	if err == io.EOF {
-		return 0, 0, io.ErrUnexpectedEOF
-	} else if err != nil {
-		return 0, 0, err
+	if err != nil {
+		return 0, 0, truncated(err)
 	}
 
 	return t, int(length), nil
-- 
2.43.0


From c060b7f418a8c38803ce2e306d46cd8d6a9e0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:02 +0000
Subject: [PATCH 33/47] fix: JSON strings keep characters that are written as a
 surrogate pair

---
 dsio/json.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dsio/json.go b/dsio/json.go
index deff734..e09ca36 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -8,6 +8,8 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/qri-io/dataset"
 )
@@ -347,6 +349,13 @@ func unquoteJSONString(srcBuff []byte) string {
 				hexChars := srcBuff[s+1 : s+5]
 				s += 5
 				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
+				if err != nil {
+					// Characters beyond the basic plane are written as two escape sequences
+					if pair, ok := unquoteSurrogatePair(hexChars, srcBuff[s:limit]); ok {
+						res, err = pair, nil
+						s += 6
+					}
+				}
 				if err == nil {
 					for _, b := range []byte(res) {
 						dstBuff[d] = b
@@ -372,6 +381,24 @@ func unquoteJSONString(srcBuff []byte) string {
 	return string(dstBuff[:d])
 }
 
+// unquoteSurrogatePair decodes a character that is written as a pair of unicode
+// escape sequences, given the hex digits of the first & the text that follows it
+func unquoteSurrogatePair(hexChars, rest []byte) (string, bool) {
+	if len(rest) < 6 || rest[0] != '\\' || rest[1] != 'u' {
+		return "", false
+	}
+	hi, err := strconv.ParseUint(string(hexChars), 16, 16)
+	if err != nil {
+		return "", false
+	}
+	lo, err := strconv.ParseUint(string(rest[2:6]), 16, 16)
+	if err != nil {
+		return "", false
+	}
+	ch := utf16.DecodeRune(rune(hi), rune(lo))
+	return string(ch), ch != utf8.RuneError
+}
+
 func (r *JSONReader) readString() (string, error) {
 	buff := r.currentBuffer()
 	i := 0
-- 
2.43.0


From ffc89a446f062346474b7116718c3112786eda71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 34/47] fix: statistics report the smallest and greatest number
 of a column whose numbers are all beyond the range of int64

---
 dsstats/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index f774c78..c3ab674 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -3,6 +3,7 @@ package dsstats
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/axiomhq/hyperloglog"
@@ -313,8 +314,8 @@ var _ accumulator = (*numericAcc)(nil)
 func newNumericAcc(typ string) *numericAcc {
 	return &numericAcc{
 		typ:    typ,
-		max:    float64(minInt),
-		min:    float64(maxInt),
+		max:    math.Inf(-1),
+		min:    math.Inf(1),
 		median: maxFloat,
 		// use histogram to accumulate values
 		histogram: []float64{},
-- 
2.43.0


From 6a5fea425da99baa7a9e2aa06b828b7153f3e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:28 +0000
Subject: [PATCH 35/47] fix: a carriage return at the end of a read buffer gets
 its line feed

A lone carriage return that ended up in the last byte of the buffer given to
Read was passed on without a line feed, so a row of CSV data with such line
ends was merged with the next one.
---
 dsio/replacecr/replace_cr.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/dsio/replacecr/replace_cr.go b/dsio/replacecr/replace_cr.go
index b7b301c..17d92e5 100644
--- a/dsio/replacecr/replace_cr.go
+++ b/dsio/replacecr/replace_cr.go
@@ -17,14 +17,14 @@ import (
 // if read from directly. This can cause issues with checksums and byte counts.
 // Use with caution.
 func Reader(data io.Reader) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReader(data),
 	}
 }
 
 // ReaderWithSize instaties a reader with a given buffer size
 func ReaderWithSize(data io.Reader, size int) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReaderSize(data, size),
 	}
 }
@@ -32,10 +32,12 @@ func ReaderWithSize(data io.Reader, size int) io.Reader {
 // crlfReplaceReader wraps a reader
 type crlfReplaceReader struct {
 	rdr *bufio.Reader
+	// a \r that needs a \n has been returned, the \n has not
+	addLF bool
 }
 
 // Read implements io.Reader for crlfReplaceReader
-func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
+func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 	lenP := len(p)
 	if lenP == 0 {
 		return
@@ -46,17 +48,24 @@ func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		if c.addLF {
+			p[n] = '\n'
+			c.addLF = false
+			n++
+			continue
+		}
+
 		p[n], err = c.rdr.ReadByte()
 		if err != nil {
 			return
 		}
 
-		// any time we encounter \r & still have space, check to see if \n follows
-		// ff next char is not \n, add it in manually
-		if p[n] == '\r' && n < lenP-1 {
+		// any time we encounter \r, check to see if \n follows
+		// if next char is not \n, add it in manually. there may be no space left
+		// for it in p, so it's up to the next iteration or the next call of Read
+		if p[n] == '\r' {
 			if pk, err := c.rdr.Peek(1); (err == nil && pk[0] != '\n') || (err != nil && err.Error() == "EOF") {
-				n++
-				p[n] = '\n'
+				c.addLF = true
 			}
 		}
 
-- 
2.43.0


From fc9fd1345fe8c5436bab6c96c18ab4bed348cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:09 +0000
Subject: [PATCH 36/47] fix: numbers beyond the range of a float32 are numbers

---
 vals/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vals/type.go b/vals/type.go
index 8b7fbee..efeadef 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -71,7 +71,7 @@ func ParseType(value []byte) Type {
 		case '"':
 			return TypeString
 		case '-', '1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'e':
-			if _, e := strconv.ParseFloat(string(value), 32); e != nil {
+			if _, e := strconv.ParseFloat(string(value), 64); e != nil {
 				return TypeString
 			}
 			if IsInteger(value) {
-- 
2.43.0


From a90cb5c1625486156c46562a9dc753c87e38248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:09 +0000
Subject: [PATCH 37/47] fix: the text of a parsed integer, which is an int64

---
 vals/type.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vals/type.go b/vals/type.go
index efeadef..870c632 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -167,12 +167,15 @@ func (dt Type) ValueToString(value interface{}) (str string, err error) {
 		}
 		str = s
 	case TypeInteger:
-		num, ok := value.(int)
-		if !ok {
+		switch num := value.(type) {
+		case int:
+			str = strconv.FormatInt(int64(num), 10)
+		case int64:
+			str = strconv.FormatInt(num, 10)
+		default:
 			err = fmt.Errorf("%v is not an %s value", value, dt.String())
 			return
 		}
-		str = strconv.FormatInt(int64(num), 10)
 	case TypeNumber:
 		num, ok := value.(float64)
 		if !ok {
-- 
2.43.0


From 3705050a8a0a1a4fd63d8c5f7bf0192babdf0c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:10 +0000
Subject: [PATCH 38/47] fix: an unsigned integer that does not fit is an error,
 not a negative number

---
 vals/coding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index cda5509..110e49f 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -3,6 +3,7 @@ package vals
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 )
 
 // ConvertDecoded converts an interface that has been decoded into standard go types to a Value
@@ -19,6 +20,9 @@ func ConvertDecoded(d interface{}) (Value, error) {
 	case uint32:
 		return Integer(v), nil
 	case uint64:
+		if v > math.MaxInt64 {
+			return nil, fmt.Errorf("%d is too large for an integer", v)
+		}
 		return Integer(v), nil
 	case float64:
 		return Number(v), nil
-- 
2.43.0


From 2ccd07803b4742f17c27ed66f855640d95018780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:10 +0000
Subject: [PATCH 39/47] fix: JSON values with white space around them decode to
 their own type

---
 vals/coding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index 110e49f..c588153 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -1,6 +1,7 @@
 package vals
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"math"
@@ -74,6 +75,8 @@ func ConvertDecoded(d interface{}) (Value, error) {
 
 // UnmarshalJSON turns a slice of JSON bytes into a Value
 func UnmarshalJSON(data []byte) (v Value, err error) {
+	// white space around a JSON value has no bearing on its type
+	data = bytes.Trim(data, " \t\r\n")
 	switch ParseType(data) {
 	case TypeObject:
 		return unmarshalObject(data)
-- 
2.43.0


From f40ffdc462898f47c1edc578c429dc6c7a6a81bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:01 +0000
Subject: [PATCH 40/47] fix: the schema of a compressed body is detected in its
 data

---
 detect/detect.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/detect/detect.go b/detect/detect.go
index ef0a511..5b4e2b1 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -133,6 +133,15 @@ func FromReader(format dataset.DataFormat, comp compression.Format, data io.Read
 		Format:      format.String(),
 		Compression: comp.String(),
 	}
+	if comp != compression.FmtNone {
+		// the schema describes the data, not its compressed bytes
+		var rdr io.ReadCloser
+		if rdr, err = compression.Decompressor(comp.String(), data); err != nil {
+			return st, 0, err
+		}
+		defer rdr.Close()
+		data = rdr
+	}
 	st.Schema, n, err = Schema(st, data)
 	return
 }
-- 
2.43.0


From e91efab81cdb987ddbf9f5285f2d22deca509524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:27 +0000
Subject: [PATCH 41/47] fix: a diff that compared nothing can be summarized and
 encoded

---
 dsdiff/dsdiff.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsdiff/dsdiff.go b/dsdiff/dsdiff.go
index 8acbe3f..45b3a8e 100644
--- a/dsdiff/dsdiff.go
+++ b/dsdiff/dsdiff.go
@@ -19,6 +19,10 @@ type SubDiff struct {
 
 // MarshalJSON marshals the slice of diffs from the SubDiff
 func (d *SubDiff) MarshalJSON() ([]byte, error) {
+	if d.Diff == nil {
+		// nothing was compared, there are no deltas
+		return []byte("[]"), nil
+	}
 	return json.Marshal(d.Diff.Deltas())
 }
 
@@ -29,6 +33,10 @@ func (d *SubDiff) MarshalJSON() ([]byte, error) {
 // - plusMinusColor (git-style plus/minus printout)
 // - plusMinus (same as plusMinusColor without color)
 func (d *SubDiff) SummarizeToString(how string) (string, error) {
+	if d == nil || d.Diff == nil {
+		// nothing was compared, there is nothing to summarize
+		return "", nil
+	}
 	color := false
 	if strings.Contains(how, "Color") {
 		color = true
-- 
2.43.0


From 6e14bc93956a1ff307a01e9186c5adb7013e46af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:44 +0000
Subject: [PATCH 42/47] fix: OptDropTransientValues drops the transient values
 of both sides

---
 dstest/compare.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dstest/compare.go b/dstest/compare.go
index 4ff1529..3401c7d 100644
--- a/dstest/compare.go
+++ b/dstest/compare.go
@@ -27,7 +27,7 @@ func CompareDatasets(expect, got *dataset.Dataset, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -75,7 +75,7 @@ func CompareCommits(expect, got *dataset.Commit, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -98,7 +98,7 @@ func CompareMetas(expect, got *dataset.Meta, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -121,7 +121,7 @@ func CompareStructures(expect, got *dataset.Structure, opts ...CompareOpts) stri
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
-- 
2.43.0


From f5a096b4092e3697d162642a00874002dece82b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:48 +0000
Subject: [PATCH 43/47] fix: generate false as well as true, and empty texts
 when no length is allowed

---
 generate/value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generate/value.go b/generate/value.go
index 33df384..ad507e0 100644
--- a/generate/value.go
+++ b/generate/value.go
@@ -56,6 +56,9 @@ var alphaNumericRunes = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUV
 
 // String yields a random string
 func (g *ValueGenerator) String() string {
+	if g.MaxStringLength <= 0 {
+		return ""
+	}
 	runes := make([]rune, g.Rand.Intn(g.MaxStringLength))
 	for i := range runes {
 		runes[i] = alphaNumericRunes[g.Rand.Intn(len(alphaNumericRunes))]
@@ -75,7 +78,7 @@ func (g *ValueGenerator) Int() int {
 
 // Bool yields a random coin flip
 func (g *ValueGenerator) Bool() bool {
-	return g.Rand.Intn(1)%2 == 0
+	return g.Rand.Intn(2) == 0
 }
 
 // Object creates an empty object
-- 
2.43.0


From 07229e415a0e140fda8d581275112b1e060d1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:51 +0000
Subject: [PATCH 44/47] fix: AssignUseRandomType has an effect on the rows that
 are generated

---
 generate/tabular.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generate/tabular.go b/generate/tabular.go
index f384fb3..50281fa 100644
--- a/generate/tabular.go
+++ b/generate/tabular.go
@@ -51,6 +51,8 @@ type TabularGenerator struct {
 	count int
 	// only two possible structures for now are "array" or "object"
 	schemaIsArray bool
+	// generate values of random types instead of column types
+	useRandomType bool
 }
 
 // assert at compile time that Generator is a dsio.EntryReader
@@ -79,6 +81,7 @@ func NewTabularGenerator(st *dataset.Structure, options ...func(*Config)) (*Tabu
 		cols:          cols,
 		gen:           gen,
 		schemaIsArray: true,
+		useRandomType: cfg.useRandomType,
 	}, nil
 }
 
@@ -86,6 +89,10 @@ func NewTabularGenerator(st *dataset.Structure, options ...func(*Config)) (*Tabu
 func (g *TabularGenerator) ReadEntry() (dsio.Entry, error) {
 	row := make([]interface{}, len(g.cols))
 	for i, col := range g.cols {
+		if g.useRandomType {
+			row[i] = g.gen.Value()
+			continue
+		}
 		row[i] = g.gen.Type([]string(*col.Type)[0])
 	}
 	index := g.count
-- 
2.43.0


From 1ce80a2151e5ecfa65f0f42affc7e8631252ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:41 +0000
Subject: [PATCH 45/47] fix: decoding a sketch with merged centroids gives the
 count that was encoded

---
 dsstats/histosketch/histosketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 260fb0c..84f5def 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -272,7 +272,7 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 			return err
 		}
 		h.cs = append(h.cs, c)
-		h.count += c.m
+		h.count += math.Abs(c.m)
 	}
 	// Read min and max.
 	_, err = fmt.Fscanln(b, &h.min, &h.max)
-- 
2.43.0


From c07b5824eefff9606ee6df083bcd380b081aefb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:41 +0000
Subject: [PATCH 46/47] fix: frequencies of merged bins are not negative

---
 dsstats/histosketch/histosketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 84f5def..5780509 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -403,7 +403,7 @@ func (h *Sketch) Read() ([]float64, []float64) {
 	histogram := make([]float64, len(h.cs))
 	for i := 0; i < len(h.cs); i++ {
 		bins[i] = h.cs[i].p
-		histogram[i] = h.cs[i].m
+		histogram[i] = math.Abs(h.cs[i].m)
 	}
 	bins[len(h.cs)] = h.max + 1
 	return bins, histogram
-- 
2.43.0


From ce90fb4cb72e786df55929595f9a75bedf19f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:41 +0000
Subject: [PATCH 47/47] fix: merging a sketch takes its extremes over

---
 dsstats/histosketch/histosketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 5780509..887a318 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -141,6 +141,9 @@ func (h *Sketch) Merge(x Sketch) {
 	for _, c := range x.cs {
 		h.AddMany(c.p, int64(math.Abs(c.m)))
 	}
+	// merged centroids lie inside the range of the values they stand for
+	h.min = math.Min(h.min, x.min)
+	h.max = math.Max(h.max, x.max)
 }
 
 // Gets the (i-1)-st and ith centroids. If i is 0, fake out the (i-1)-st with
-- 
2.43.0

