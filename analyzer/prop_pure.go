package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C10: what is handed over is not modified ---------------------------------------------

// pureRoots: the exported operations the property is stated over, per package.
// Operations that appear later are not judged until listed: whether they may
// modify an argument is a decision about their interface.
var pureRoots = strings.Fields(`
(*dataset.CSVOptions).Format (*dataset.CSVOptions).Map (*dataset.Citation).Decode (*dataset.Commit).Assign (*dataset.Commit).DropDerivedValues
(*dataset.Commit).DropTransientValues (*dataset.Commit).IsEmpty (*dataset.Commit).MarshalJSON (*dataset.Commit).MarshalJSONObject
(*dataset.Commit).UnmarshalJSON (*dataset.DataFormat).UnmarshalJSON (*dataset.Dataset).Assign (*dataset.Dataset).BodyFile
(*dataset.Dataset).DropDerivedValues (*dataset.Dataset).DropTransientValues (*dataset.Dataset).IsEmpty (*dataset.Dataset).MarshalJSON
(*dataset.Dataset).OpenBodyFile (*dataset.Dataset).PathMap (*dataset.Dataset).SetBodyFile (*dataset.Dataset).SignableBytes
(*dataset.Dataset).SigningBytes (*dataset.Dataset).UnmarshalJSON (*dataset.JSONOptions).Format (*dataset.JSONOptions).Map
(*dataset.Kind).UnmarshalJSON (*dataset.License).Decode (*dataset.Meta).Assign (*dataset.Meta).DropDerivedValues (*dataset.Meta).DropTransientValues
(*dataset.Meta).IsEmpty (*dataset.Meta).MarshalJSON (*dataset.Meta).MarshalJSONObject (*dataset.Meta).Meta (*dataset.Meta).Set
(*dataset.Meta).SetArbitrary (*dataset.Meta).UnmarshalJSON (*dataset.Readme).Assign (*dataset.Readme).DropDerivedValues
(*dataset.Readme).DropTransientValues (*dataset.Readme).InlineScriptFile (*dataset.Readme).IsEmpty (*dataset.Readme).MarshalJSON
(*dataset.Readme).MarshalJSONObject (*dataset.Readme).OpenRenderedFile (*dataset.Readme).OpenScriptFile (*dataset.Readme).RenderedFile
(*dataset.Readme).ScriptFile (*dataset.Readme).SetRenderedFile (*dataset.Readme).SetScriptFile (*dataset.Readme).ShallowCompare
(*dataset.Readme).UnmarshalJSON (*dataset.Stats).Assign (*dataset.Stats).DropDerivedValues (*dataset.Stats).IsEmpty (*dataset.Stats).UnmarshalJSON
(*dataset.Structure).Abstract (*dataset.Structure).AddFileFormatExtensions (*dataset.Structure).Assign (*dataset.Structure).BodyFilename
(*dataset.Structure).DataFormat (*dataset.Structure).DropDerivedValues (*dataset.Structure).DropTransientValues (*dataset.Structure).Hash
(*dataset.Structure).IsEmpty (*dataset.Structure).JSONSchema (*dataset.Structure).RequiresTabularSchema (*dataset.Structure).UnmarshalJSON
(*dataset.Transform).Assign (*dataset.Transform).DropDerivedValues (*dataset.Transform).DropTransientValues (*dataset.Transform).InlineScriptFile
(*dataset.Transform).IsEmpty (*dataset.Transform).OpenScriptFile (*dataset.Transform).ScriptFile (*dataset.Transform).SetScriptFile
(*dataset.Transform).ShallowCompare (*dataset.Transform).UnmarshalJSON (*dataset.TransformResource).UnmarshalJSON (*dataset.User).Decode
(*dataset.Viz).Assign (*dataset.Viz).DropDerivedValues (*dataset.Viz).DropTransientValues (*dataset.Viz).InlineScriptFile (*dataset.Viz).IsEmpty
(*dataset.Viz).MarshalJSON (*dataset.Viz).MarshalJSONObject (*dataset.Viz).OpenRenderedFile (*dataset.Viz).OpenScriptFile (*dataset.Viz).RenderedFile
(*dataset.Viz).ScriptFile (*dataset.Viz).SetRenderedFile (*dataset.Viz).SetScriptFile (*dataset.Viz).ShallowCompare (*dataset.Viz).UnmarshalJSON
(*dataset.XLSXOptions).Format (*dataset.XLSXOptions).Map (*dsdiff.SubDiff).MarshalJSON (*dsdiff.SubDiff).SummarizeToString (*dsio.CBORReader).Close
(*dsio.CBORReader).ReadEntry (*dsio.CBORReader).Structure (*dsio.CBORWriter).Close (*dsio.CBORWriter).Structure (*dsio.CBORWriter).WriteEntry
(*dsio.CSVReader).Close (*dsio.CSVReader).ReadEntry (*dsio.CSVReader).Structure (*dsio.CSVWriter).Close (*dsio.CSVWriter).Structure
(*dsio.CSVWriter).WriteEntry (*dsio.EntryBuffer).Bytes (*dsio.EntryBuffer).Close (*dsio.EntryBuffer).ReadEntry (*dsio.EntryBuffer).Structure
(*dsio.EntryBuffer).WriteEntry (*dsio.IdentityReader).Close (*dsio.IdentityReader).ReadEntry (*dsio.IdentityReader).Structure
(*dsio.IdentityWriter).Close (*dsio.IdentityWriter).Structure (*dsio.IdentityWriter).WriteEntry (*dsio.JSONReader).Close (*dsio.JSONReader).ReadEntry
(*dsio.JSONReader).Structure (*dsio.JSONWriter).Close (*dsio.JSONWriter).Structure (*dsio.JSONWriter).WriteEntry (*dsio.NDJSONReader).Close
(*dsio.NDJSONReader).ReadEntry (*dsio.NDJSONReader).Structure (*dsio.NDJSONWriter).Close (*dsio.NDJSONWriter).Structure
(*dsio.NDJSONWriter).WriteEntry (*dsio.PagedReader).Close (*dsio.PagedReader).ReadEntry (*dsio.PagedReader).Structure (*dsio.TrackedReader).BytesRead
(*dsio.TrackedReader).Close (*dsio.TrackedReader).Read (*dsio.XLSXReader).Close (*dsio.XLSXReader).ReadEntry (*dsio.XLSXReader).Structure
(*dsio.XLSXWriter).Close (*dsio.XLSXWriter).Structure (*dsio.XLSXWriter).WriteEntry (*dsstats.Accumulator).Close (*dsstats.Accumulator).Stats
(*dsstats.Accumulator).Structure (*dsstats.Accumulator).WriteEntry (*dsstats.arrayAcc).Close (*dsstats.arrayAcc).Map (*dsstats.arrayAcc).Stats
(*dsstats.arrayAcc).Type (*dsstats.arrayAcc).Write (*dsstats.boolAcc).Close (*dsstats.boolAcc).Map (*dsstats.boolAcc).Type (*dsstats.boolAcc).Write
(*dsstats.nullAcc).Close (*dsstats.nullAcc).Map (*dsstats.nullAcc).Type (*dsstats.nullAcc).Write (*dsstats.numericAcc).Close (*dsstats.numericAcc).Map
(*dsstats.numericAcc).Type (*dsstats.numericAcc).Write (*dsstats.objectAcc).Close (*dsstats.objectAcc).Map (*dsstats.objectAcc).Stats
(*dsstats.objectAcc).Type (*dsstats.objectAcc).Write (*dsstats.stringAcc).Close (*dsstats.stringAcc).Map (*dsstats.stringAcc).Type
(*dsstats.stringAcc).Write (*generate.TabularGenerator).ReadEntry (*generate.ValueGenerator).Array (*generate.ValueGenerator).Bool
(*generate.ValueGenerator).Float (*generate.ValueGenerator).Int (*generate.ValueGenerator).Object (*generate.ValueGenerator).String
(*generate.ValueGenerator).Type (*generate.ValueGenerator).Value (*tabular.ColType).UnmarshalJSON (*vals.Type).UnmarshalJSON (*vals.ValueError).Error
(dataset.DataFormat).MarshalJSON (dataset.DataFormat).String (dataset.Kind).String (dataset.Kind).Type (dataset.Kind).Valid (dataset.Kind).Version
(dataset.Stats).MarshalJSON (dataset.Stats).MarshalJSONObject (dataset.Structure).MarshalJSON (dataset.Structure).MarshalJSONObject
(dataset.Transform).MarshalJSON (dataset.Transform).MarshalJSONObject (compression.Format).String (compression.zstdReadCloserShim).Close
(dsio/replacecr.crlfReplaceReader).Read (dsstats.keyedStat).Map (generate.TabularGenerator).Close (generate.TabularGenerator).Structure
(tabular.ColType).HasType (tabular.ColType).MarshalJSON (tabular.Columns).Titles (tabular.Columns).ValidMachineTitles (vals.Array).Boolean
(vals.Array).Index (vals.Array).Integer (vals.Array).IsNull (vals.Array).Keys (vals.Array).Len (vals.Array).MapIndex (vals.Array).Number
(vals.Array).String (vals.Array).Type (vals.Boolean).Boolean (vals.Boolean).Index (vals.Boolean).Integer (vals.Boolean).IsNull (vals.Boolean).Keys
(vals.Boolean).Len (vals.Boolean).MapIndex (vals.Boolean).Number (vals.Boolean).String (vals.Boolean).Type (vals.Integer).Boolean (vals.Integer).Index
(vals.Integer).Integer (vals.Integer).IsNull (vals.Integer).Keys (vals.Integer).Len (vals.Integer).MapIndex (vals.Integer).Number
(vals.Integer).String (vals.Integer).Type (vals.Null).Boolean (vals.Null).Index (vals.Null).Integer (vals.Null).IsNull (vals.Null).Keys
(vals.Null).Len (vals.Null).MapIndex (vals.Null).MarshalJSON (vals.Null).Number (vals.Null).String (vals.Null).Type (vals.Number).Boolean
(vals.Number).Index (vals.Number).Integer (vals.Number).IsNull (vals.Number).Keys (vals.Number).Len (vals.Number).MapIndex (vals.Number).Number
(vals.Number).String (vals.Number).Type (vals.Object).Boolean (vals.Object).Index (vals.Object).Integer (vals.Object).IsNull (vals.Object).Keys
(vals.Object).Len (vals.Object).MapIndex (vals.Object).Number (vals.Object).String (vals.Object).Type (vals.String).Boolean (vals.String).Index
(vals.String).Integer (vals.String).IsNull (vals.String).Keys (vals.String).Len (vals.String).MapIndex (vals.String).Number (vals.String).String
(vals.String).Type (vals.Type).MarshalJSON (vals.Type).Parse (vals.Type).String (vals.Type).ValueToBytes (vals.Type).ValueToString
dataset.AbstractColumnName dataset.AccuralDuration dataset.ComponentTypePrefix dataset.HashBytes dataset.JSONHash dataset.NewCSVOptions
dataset.NewCommitRef dataset.NewDatasetRef dataset.NewJSONOptions dataset.NewMetaRef dataset.NewReadmeRef dataset.NewStatsRef dataset.NewStructureRef
dataset.NewTransformRef dataset.NewVizRef dataset.NewXLSXOptions dataset.ParseDataFormatString dataset.ParseFormatConfigMap
dataset.SupportedDataFormats dataset.UnmarshalCommit dataset.UnmarshalDataset dataset.UnmarshalReadme dataset.UnmarshalStructure
dataset.UnmarshalTransform dataset.UnmarshalViz compression.Compressor compression.Decompressor compression.ParseFormat detect.CBORSchema
detect.CSVSchema detect.FormatFromFilename detect.FromFile detect.FromReader detect.JSONSchema detect.NDJSONSchema detect.Schema detect.Structure
detect.TabularSchemaFromTabularData detect.XLSXSchema dsdiff.DiffData dsdiff.DiffDatasets dsdiff.DiffJSON dsdiff.DiffMeta dsdiff.DiffStructure
dsdiff.DiffTransform dsdiff.DiffViz dsdiff.MapDiffsToString dsio.ColIndexToLetters dsio.ConvertFile dsio.Copy dsio.EachEntry dsio.GetTopLevelType
dsio.HasHeaderRow dsio.NewCBORReader dsio.NewCBORWriter dsio.NewCSVReader dsio.NewCSVReaderSize dsio.NewCSVWriter dsio.NewEntryBuffer
dsio.NewEntryReader dsio.NewEntryWriter dsio.NewIdentityReader dsio.NewJSONPrettyWriter dsio.NewJSONReader dsio.NewJSONReaderSize dsio.NewJSONWriter
dsio.NewNDJSONReader dsio.NewNDJSONWriter dsio.NewTrackedReader dsio.NewXLSXReader dsio.NewXLSXWriter dsio.ReadAll dsio.ReadAllArray
dsio.ReadAllObject dsio/replacecr.Reader dsio/replacecr.ReaderWithSize dsstats.Calculate dsstats.CalculateFromEntryReader dsstats.NewAccumulator
dsstats.ToMap dsviz.Render generate.DefaultConfig generate.NewTabularGenerator preview.Create stepfile.Read stepfile.ReadFile stepfile.Write
tabular.ColumnsFromJSONSchema validate.CheckCsvRowLengths validate.Commit validate.Dataset validate.EntryReader validate.Schema validate.Structure
validate.ValidName vals.CompareIntegerBytes vals.CompareNumberBytes vals.CompareTypeBytes vals.ConvertDecoded vals.Equal vals.IsBoolean vals.IsFloat
vals.IsInteger vals.JSONArrayOrObject vals.NewObjectValue vals.ParseBoolean vals.ParseInteger vals.ParseJSON vals.ParseNumber vals.ParseString
vals.ParseType vals.TypeFromString vals.UnmarshalJSON
`)

// mutators are the operations whose purpose is to change their receiver.
var mutators = regexp.MustCompile(`^(Assign|Set|SetArbitrary|Set[A-Z]\w*File|Drop\w+|Open\w+|Inline\w+|UnmarshalJSON|Decode)$`)

// allowed lists the places an operation may write by its purpose.
var allowedWrites = map[string]*regexp.Regexp{
	"detect.Structure":        regexp.MustCompile(`^#0\|\.(Structure|bodyFile)$|^#0\.Structure\|\.(Format|FormatConfig|Schema|Compression)$`),
	"detect.Schema":           regexp.MustCompile(`^#0\|\.FormatConfig$`),
	"detect.CSVSchema":        regexp.MustCompile(`^#0\|\.FormatConfig$`),
	"preview.Create":          regexp.MustCompile(`^#1\|\.(Body|bodyFile)$|^#1\.(Readme|Stats)\|`),
	"dsviz.Render":            regexp.MustCompile(`^#0\|\.bodyFile$|^#0\.Viz\|\.(scriptFile|renderedFile)$`),
	"dsstats.Calculate":       regexp.MustCompile(`^#0\|\.bodyFile$`),
	"dsstats.ToMap":           regexp.MustCompile(`\.Map\(\)#0`),
	"(dsstats.keyedStat).Map": regexp.MustCompile(`\.Map\(\)#0`),
}

// docType: a document or component of the dataset package.
func docType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

// dataType: a plain value, as opposed to a stream, a file or a worker.
func dataType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return u.Empty() || strings.HasSuffix(t.String(), "json.Marshaler") || strings.HasSuffix(t.String(), "vals.Value")
	case *types.Map, *types.Basic:
		return true
	case *types.Slice:
		if docType(u.Elem()) {
			return true
		}
		return dataType(u.Elem())
	case *types.Struct:
		n, ok := t.(*types.Named)
		return docType(t) || ok && (n.Obj().Name() == "Entry" || n.Obj().Name() == "Column")
	case *types.Pointer:
		if docType(t) {
			return true
		}
		n, ok := u.Elem().(*types.Named)
		if !ok {
			return dataType(u.Elem())
		}
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/vals" {
			return true
		}
		return n.Obj().Name() == "SubDiff" || n.Obj().Name() == "ColType"
	}
	return false
}

type rootRun struct {
	fn    *ssa.Function
	f     *effects
	c     *ectx
	names []string
}

// field names the struct field through which an object existing before the call
// was reached: "Meta.meta".
func (f *effects) field(o *eobj) string {
	return o.via
}

func checkPure(p *Program) *Report {
	r := newReport("C10")
	r.Rule = "interprocedural, field-sensitive points-to and effect analysis of every listed operation: no store, map update, element write or in-place library call reaches memory that belongs to an argument or to a package variable; no operation leaves an argument's memory where another operation modifies in place; no entry read shares memory with reader state that is written later"
	r.Assume = []string{"arguments do not overlap each other", "implementations of the caller's interfaces (readers, writers, files, resolvers) keep the same rules", "library functions write only to the arguments listed for them (sort, Unmarshal, Decode, Read, ReadFull, Put)"}
	var runs []*rootRun
	missing := 0
	for _, name := range pureRoots {
		fn := p.fn(name)
		if fn == nil {
			missing++
			continue
		}
		runs = append(runs, &rootRun{fn: fn})
	}
	var jobs []func(r *Report)
	for _, x := range runs {
		x := x
		jobs = append(jobs, func(r *Report) {
			x.f = newEffects(p)
			for i := range x.fn.Params {
				x.names = append(x.names, fmt.Sprintf("#%d", i))
			}
			x.c = x.f.root(x.fn, x.names)
			if x.c == nil {
				r.bad("pure:"+shortName(x.fn), p.fpos(x.fn), "the effect analysis of %s does not settle", shortName(x.fn))
				return
			}
			for _, c := range x.f.order {
				r.Funcs[shortName(c.fn)] = true
			}
			x.judge(p, r)
		})
	}
	r.run(jobs)
	r.Counters["operations analysed"] = len(runs)
	r.atLeast(len(runs), len(pureRoots)*9/10, "listed operations")
	// places written in place by some operation
	inPlace := map[string]string{}
	for _, x := range runs {
		if x.c == nil {
			continue
		}
		for _, w := range x.f.writes {
			o := w.at.obj
			if o != nil && o.in && o.via != "" {
				if _, ok := inPlace[o.via]; !ok {
					inPlace[o.via] = shortName(x.fn) + " at " + w.site
				}
			}
		}
	}
	r.Counters["fields modified in place by some operation"] = len(inPlace)
	for _, x := range runs {
		if x.c != nil {
			x.retained(p, r, inPlace)
		}
	}
	return r
}

func (x *rootRun) root(id string) int {
	for i := range x.fn.Params {
		pre := fmt.Sprintf("#%d", i)
		if strings.HasPrefix(id, pre) && (len(id) == len(pre) || !(id[len(pre)] >= '0' && id[len(pre)] <= '9')) {
			return i
		}
	}
	return -1
}

// isDoc: the object belongs to a document.
func (x *rootRun) isDoc(o *eobj) bool {
	for ; o != nil; o = o.parent {
		if o.typ != nil && docType(o.typ) {
			return true
		}
	}
	return false
}

func (x *rootRun) judge(p *Program, r *Report) {
	name := shortName(x.fn)
	allow := allowedWrites[name]
	recv := x.fn.Signature.Recv() != nil
	bad := map[int]bool{}
	for _, k := range sortedWrites(x.f.writes) {
		w := x.f.writes[k]
		o := w.at.obj
		if o == nil || !o.in {
			continue
		}
		if allow != nil && allow.MatchString(w.at.obj.id+"|"+w.at.path) {
			continue
		}
		i := x.root(o.id)
		why := ""
		switch {
		case i < 0 && strings.HasPrefix(o.id, "global "):
			if o.depth == 0 {
				continue // reassigning a variable is not a write to shared data
			}
			why = "data shared by all callers through a package variable"
		case i < 0:
			continue
		case recv && i == 0:
			t := x.fn.Params[0].Type()
			if mutators.MatchString(x.fn.Name()) {
				continue
			}
			if !dataType(t) && !x.isDoc(o) {
				continue // the state of a reader, writer or accumulator
			}
			why = "its receiver"
		case dataType(x.fn.Params[i].Type()):
			if recv && x.fn.Name() == "Read" {
				continue // the caller's buffer
			}
			why = "its argument " + x.fn.Params[i].Name()
		case x.isDoc(o):
			why = "a document reached through its argument " + x.fn.Params[i].Name()
		case strings.Contains(o.id, ".ReadEntry()#"):
			why = "an entry it was given"
		default:
			continue
		}
		bad[i] = true
		r.bad(fmt.Sprintf("pure:%s:%s%s", name, o.id, w.at.path), w.site, "%s modifies %s: %s%s is %s in %s", name, why, x.pretty(o.id), w.at.path, w.how, w.fn)
	}
	for i := range x.fn.Params {
		if !bad[i] {
			r.ok(fmt.Sprintf("%s leaves parameter %d (%s) alone", name, i, x.fn.Params[i].Name()))
		}
	}
}

func (x *rootRun) pretty(id string) string {
	if i := x.root(id); i >= 0 {
		return x.fn.Params[i].Name() + strings.TrimPrefix(id, fmt.Sprintf("#%d", i))
	}
	return id
}

func sortedWrites(m map[loc]write) []loc {
	s := pset{}
	for k := range m {
		s[k] = true
	}
	return sortedLocs(s)
}

// retained: memory handed in, or handed out as an entry, must not end up where
// some operation writes in place.
func (x *rootRun) retained(p *Program, r *Report, inPlace map[string]string) {
	name := shortName(x.fn)
	f := x.f
	decode := x.fn.Name() == "UnmarshalJSON"
	entry := x.fn.Name() == "ReadEntry"
	given := map[*eobj]bool{}
	if entry {
		given = f.reach(x.c.res[0])
		bad := false
		for o := range given {
			if o != nil && o.volatile != "" {
				bad = true
				r.bad("entry:"+name+":volatile", o.site, "an entry returned by %s points into memory that %s reuses", name, o.volatile)
			}
			if o != nil && o.in && o.via != "" && inPlace[o.via] != "" && x.root(o.id) == 0 && !x.isDoc(o) {
				bad = true
				r.bad("entry:"+name+":"+o.via, p.fpos(x.fn), "an entry returned by %s shares %s, which %s modifies", name, o.via, inPlace[o.via])
			}
		}
		if !bad {
			r.ok(name + ": entries share no state that changes")
		}
	}
	ids := make([]string, 0, len(f.objs))
	for id := range f.objs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	bad := map[string]bool{}
	for _, id := range ids {
		o := f.objs[id]
		if !o.in || o.typ == nil {
			continue
		}
		owner := x.root(o.id)
		for path, s := range o.content {
			via := viaName(o.typ, path)
			for l := range s {
				t := l.obj
				if t == nil {
					continue
				}
				if t.in && x.root(t.id) >= 0 && x.root(t.id) != owner && owner >= 0 && via != "" && inPlace[via] != "" && t.typ != nil && !opaqueState(t.typ) {
					k := "share:" + name + ":" + via
					if !bad[k] {
						bad[k] = true
						r.bad(k, p.fpos(x.fn), "%s leaves %s of its argument in %s, which %s modifies in place: a later operation on one document would change the other", name, x.pretty(t.id), via, inPlace[via])
					}
				}
				if entry && !t.in && given[t] && via != "" && inPlace[via] != "" && x.root(o.id) == 0 {
					k := "entry:" + name + ":" + via
					if !bad[k] {
						bad[k] = true
						r.bad(k, p.fpos(x.fn), "%s keeps the memory of the entry it returns in %s, which %s modifies", name, via, inPlace[via])
					}
				}
				if decode && len(x.fn.Params) == 2 && owner == 0 && x.root(t.id) == 1 {
					k := "decode:" + name
					if !bad[k] {
						bad[k] = true
						r.bad(k, p.fpos(x.fn), "%s keeps the caller's bytes in %s, which the caller may reuse", name, x.pretty(o.id)+path)
					}
				}
			}
		}
	}
	// tables of the package must not be handed out where they can be modified
	out := map[*eobj]bool{}
	for _, v := range x.c.res {
		for o := range f.reach(v) {
			out[o] = true
		}
	}
	for _, id := range ids {
		if o := f.objs[id]; o.in && x.root(o.id) >= 0 {
			for _, s := range o.stored {
				for l := range s {
					for t := range f.reach(eval{"": pset{l: true}}) {
						out[t] = true
					}
				}
			}
		}
	}
	for _, id := range ids {
		o := f.objs[id]
		if !out[o] || !o.in || o.depth == 0 || !strings.HasPrefix(o.id, "global ") || o.typ == nil {
			continue
		}
		switch u := o.typ.Underlying().(type) {
		case *types.Map, *types.Slice:
		case *types.Interface:
			if !u.Empty() {
				continue
			}
		default:
			if !docType(o.typ) {
				continue
			}
		}
		k := "global:" + name + ":" + o.id
		bad[k] = true
		r.bad(k, p.fpos(x.fn), "%s hands out %s, which belongs to a package variable: a caller modifying its result would change it for everyone", name, o.id)
	}
	if len(bad) == 0 {
		r.ok(name + ": nothing handed over is kept where it is modified")
	}
}

// opaqueState: workers and streams are meant to be shared.
func opaqueState(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return false
	case *types.Pointer:
		return !docType(t)
	case *types.Interface:
		return !u.Empty()
	}
	return true
}

// viaName: "Meta.meta" for the field .meta of an object holding a Meta.
func viaName(t types.Type, path string) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || path == "" || !strings.HasPrefix(path, ".") {
		return ""
	}
	return n.Obj().Name() + path
}
