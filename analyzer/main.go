package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

var checks = map[string]func(p *Program) *Report{
	"C01": checkMerge,
	"C02": checkEncode,
	"C03": checkDecode,
	"C04": checkReference,
	"C05": checkEmpty,
	"C06": checkDrop,
	"C07": checkCompare,
	"C08": checkSigning,
	"C09": checkPathMap,
	"C13": checkOpen,
	"C20": checkRegistry,
	"C46": checkValidate,
	"C47": checkMetaSet,
	"C16": checkFormatConfig,
	"C30": checkFraming,
	"C31": checkTableReaders,
	"C32": checkFlow,
	"C29": checkKeys,
	"C27": checkCells,
	"C23": checkCompression,
	"C25": checkJSONValues,
	"C26": checkCborItems,
	"C22": checkTruncation,
	"C21": checkWriteFaults,
	"C48": checkColumns,
	"C10": checkPure,
	"C11": checkOrder,
	"C12": checkHashes,
	"C14": checkExtract,
	"C15": checkKeep,
	"C45": checkBodyValidation,
	"C34": checkWrappers,
	"C33": checkVals,
	"C35": checkDetect,
	"C44": checkDiff, "C24": checkCrash, "C37": checkCompareDocs, "C40": checkStats,
	"C36": checkStepFiles, "C38": checkGenerate, "C41": checkSketch,
}

func main() {
	prop := flag.String("prop", "", "property id(s), comma separated, or all")
	repo := flag.String("repo", "/repo", "repository under analysis")
	verif := flag.String("verif", "/verif", "verification directory (evidence, known findings)")
	flag.Parse()
	debug.SetGCPercent(400)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if pf := os.Getenv("VERIF_PROFILE"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(40 * time.Second); pprof.StopCPUProfile(); f.Close(); os.Exit(9) }()
	}
	go watch(12<<30, 780*time.Second)
	start := time.Now()
	p, err := loadProgram(*repo)
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sortStrings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	code := 0
	for _, id := range ids {
		var r *Report
		if err != nil {
			r = newReport(id)
			r.Rule = "the repository could not be loaded"
			r.bad("load", "", "cannot load the repository: %v", err)
		} else {
			r = guarded(id, p)
		}
		if c := r.finish(*verif, start, tier, seed); c > code {
			code = c
		}
		start = time.Now()
	}
	os.Exit(code)
}

func guarded(id string, p *Program) (r *Report) {
	defer func() {
		if x := recover(); x != nil {
			r = newReport(id)
			r.Rule = "analysis aborted"
			r.bad("analysis", "", "the analysis itself failed: %v\n%s", x, debug.Stack())
		}
	}()
	f := checks[id]
	if f == nil {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	r = f(p)
	if spent.Load() {
		r.bad("analysis", "", "the memory or time set aside for the analysis is used up: nothing is decided")
	}
	return r
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}
