package main

import (
	"compress/gzip"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"simulator/v2/cache"
)

func init() {
	time.Local = time.UTC
	extraKinds["sim"] = runSim
	extraKinds["read"] = runRead
	extraKinds["filter"] = runFilter
}

// SimRec is a record of a dataset.
type SimRec struct {
	T    int64  `json:"t"`
	F    int64  `json:"f"`
	S    int64  `json:"s"` // units
	P    int64  `json:"p"`
	CPU  int64  `json:"cpu"`
	IO   int64  `json:"io"`
	Site int64  `json:"site"`
	User int64  `json:"user"`
	Dt   int64  `json:"dt"`
	Ft   int64  `json:"ft"`
	Ok   bool   `json:"ok"`
	Ex   int64  `json:"ex"`
	B    string `json:"b"` // how the success flag is written
}

// SimStage is one simulation.
type SimStage struct {
	Win    int      `json:"win"`
	Wstart int      `json:"wstart"`
	Wstop  int      `json:"wstop"`
	Filt   string   `json:"filt"`
	Dump   bool     `json:"dump"`
	DumpFS bool     `json:"dumpfs"`
	Load   bool     `json:"load"`
	Cold   bool     `json:"cold"`
	ColdNS bool     `json:"coldns"`
	Parts  int      `json:"parts"`
	Gz     bool     `json:"gz"`
	Delay  float64  `json:"delay"`
	Data   []SimRec `json:"data"`

	C *CacheCfg `json:"c"` // another configuration for this stage
}

var stdHeader = strings.Split("Filename,SiteName,UserID,TaskID,TaskMonitorID,JobID,Protocol,JobExecExitCode,JobStart,JobEnd,NumCPU,WrapWC,WrapCPU,Size,DataType,FileType,JobLengthH,JobLengthM,JobSuccess,CPUTime,IOTime,reqDay,Region,Campaign,Process", ",")

func writeTable(fn string, gz bool, rows [][]string) {
	f, err := os.Create(fn)
	if err != nil {
		panic("HARNESS " + err.Error())
	}
	var w io.Writer = f
	var g *gzip.Writer
	if gz {
		g = gzip.NewWriter(f)
		w = g
	}
	c := csv.NewWriter(w)
	for _, r := range rows {
		c.Write(r)
	}
	c.Flush()
	if g != nil {
		g.Close()
	}
	f.Close()
}

func simRow(r *SimRec, u int64) []string {
	succ := r.B
	if succ == "" {
		succ = map[bool]string{true: "True", false: "False"}[r.Ok]
	}
	return []string{
		fmt.Sprint(fid(r.F)), fmt.Sprint(r.Site), fmt.Sprint(r.User), "1", "2", "3", fmt.Sprint(r.P), fmt.Sprint(r.Ex),
		"0", "0", "1", "0.0", "0.0", fmt.Sprintf("%.1f", float64(r.S)*1048576./float64(u)), fmt.Sprint(r.Dt), fmt.Sprint(r.Ft),
		"1.0", "60.0", succ, fmt.Sprintf("%.1f", float64(r.CPU)), fmt.Sprintf("%.1f", float64(r.IO)), fmt.Sprint(baseTime + r.T), "0", "0", "0",
	}
}

func writeData(dir string, st *SimStage, u int64) string {
	ext := ".csv"
	if st.Gz {
		ext = ".csv.gz"
	}
	if st.Parts <= 1 {
		rows := [][]string{stdHeader}
		for k := range st.Data {
			rows = append(rows, simRow(&st.Data[k], u))
		}
		writeTable(dir+ext, st.Gz, rows)
		return dir + ext
	}
	os.Mkdir(dir, 0o755)
	per := (len(st.Data) + st.Parts - 1) / st.Parts
	for p := 0; p < st.Parts; p++ {
		rows := [][]string{stdHeader}
		for k := p * per; k < (p+1)*per && k < len(st.Data); k++ {
			rows = append(rows, simRow(&st.Data[k], u))
		}
		writeTable(fmt.Sprintf("%s/part_%02d%s", dir, p, ext), st.Gz, rows)
	}
	return dir
}

// the columns of caches with learning agents, in the order of the figures
var aiColumns = strings.Split("Addition epsilon,Eviction epsilon,Addition qvalue function,Eviction qvalue function,Eviction calls,Eviction forced calls,Eviction mean num categories,Eviction std dev num categories,Action store,Action not store,Action delete all,Action delete half,Action delete quarter,Action delete one,Action not delete", ",")
var aiScales = []float64{1e6, 1e6, 100, 100, 1, 1, 100, 100, 1, 1, 1, 1, 1, 1, 1}

// readTable parses a table of an agent: values, then features.
func readTable(fn string, na int) M {
	b, err := os.ReadFile(fn)
	if err != nil {
		return M{"ok": false, "head": []string{}, "vals": [][]int64{}, "fcells": [][]string{}}
	}
	lines := strings.Split(string(b), "\n")
	vals, feats := [][]int64{}, [][]string{}
	for _, l := range lines[1:] {
		c := strings.Split(l, ",")
		v := []int64{}
		for k, x := range c {
			if k < na {
				v = append(v, a(fl(x), 100))
			}
		}
		vals = append(vals, v)
		if len(c) < na {
			c = append(c, make([]string, na-len(c))...)
		}
		feats = append(feats, c[na:])
	}
	return M{"ok": true, "head": strings.Split(lines[0], ","), "vals": vals, "fcells": feats}
}

var simColumns = []string{"date", "num req", "num hit", "num added", "num deleted", "num redirected", "num miss after delete",
	"size redirected", "cache size", "size", "capacity", "bandwidth", "bandwidth usage", "hit rate", "weighted hit rate",
	"written data", "read data", "read on hit data", "read on miss data", "deleted data", "avg free space", "std dev free space",
	"CPU efficiency", "CPU hit efficiency", "CPU miss efficiency", "CPU efficiency upper bound", "CPU efficiency lower bound"}

// readResults parses the daily rows; the columns are found by their name.
func readResults(fn string, u float64) (rows []M, bad string) {
	rows = []M{}
	f, err := os.Open(fn)
	if err != nil {
		return rows, "no results"
	}
	defer f.Close()
	rd := csv.NewReader(f)
	rd.FieldsPerRecord = -1
	recs, err := rd.ReadAll()
	if err != nil || len(recs) == 0 {
		return rows, "unreadable results"
	}
	idx := map[string]int{}
	for k, n := range recs[0] {
		idx[n] = k
	}
	for _, n := range simColumns {
		if _, ok := idx[n]; !ok {
			return rows, "no column " + n
		}
	}
	for _, r := range recs[1:] {
		if len(r) != len(recs[0]) {
			return rows, "row with another number of columns"
		}
		g := func(n string) float64 { return fl(r[idx[n]]) }
		n := &num{u: u}
		one := &num{u: 1}
		date := int64(-1)
		if d := r[idx["date"]]; len(d) >= 19 {
			if t, e := time.Parse("2006-01-02 15:04:05", d[:19]); e == nil {
				date = t.Unix() - baseTime
			}
		}
		row := M{
			"date": date,
			"req":  one.x(g("num req")), "hit": one.x(g("num hit")), "add": one.x(g("num added")), "del": one.x(g("num deleted")),
			"red": one.x(g("num redirected")), "miss": one.x(g("num miss after delete")),
			"reds": n.x(g("size redirected")), "max": n.x(g("cache size")), "size": n.x(g("size")),
			"cap": a(g("capacity"), 1000), "bw": a(g("bandwidth"), 1), "bwu": a(g("bandwidth usage"), 1000),
			"hr": a(g("hit rate"), 1000), "whr": a(g("weighted hit rate"), u),
			"dw": n.x(g("written data")), "dr": n.x(g("read data")), "drh": n.x(g("read on hit data")),
			"drm": n.x(g("read on miss data")), "dd": n.x(g("deleted data")),
			"af": a(g("avg free space"), 100*u), "sd": a(g("std dev free space"), 10*u),
			"ce": a(g("CPU efficiency"), 1000), "ch": a(g("CPU hit efficiency"), 1000), "cm": a(g("CPU miss efficiency"), 1000),
			"cu": a(g("CPU efficiency upper bound"), 1000), "cl": a(g("CPU efficiency lower bound"), 1000),
		}
		row["frac"] = n.frac + one.frac
		if _, ok := idx[aiColumns[0]]; ok {
			ai := []int64{}
			for k, n := range aiColumns {
				if _, ok := idx[n]; !ok {
					return rows, "no column " + n
				}
				ai = append(ai, a(g(n), aiScales[k]))
			}
			row["ai"] = ai
		}
		rows = append(rows, row)
	}
	return rows, ""
}

func filtersOf(name string) (rec, dt cache.Filter) {
	switch name {
	case "us":
		return cache.UsMINIAODNOT1andT3{}, cache.UsDataMcTypes{}
	case "it":
		return nil, cache.ItDataMcTypes{}
	case "usNoFnal":
		return cache.UsMINIAODNOFNALLPCNOT1FNALLFilter{}, nil
	case "usNoLpc":
		return cache.UsMINIAODandNOFNALLPCFilter{}, cache.UsDataMcTypes{}
	case "usData":
		return nil, cache.UsDataMcTypes{}
	case "success":
		return cache.SuccessJob{}, nil
	}
	return nil, nil
}

func runSim(em *Emitter, rawCfg json.RawMessage, ops []json.RawMessage) {
	var cfg CacheCfg
	var oc M
	json.Unmarshal(rawCfg, &cfg)
	json.Unmarshal(rawCfg, &oc)
	if cfg.U == 0 {
		cfg.U = 1
	}
	wide = cfg.Wide
	dir, _ := os.MkdirTemp("", "vs")
	cwd, _ := os.Getwd()
	os.Chdir(dir)
	// The folder stays until the process has ended (the caller removes the
	// temporary folder): a simulation whose window ends inside its data leaves
	// a reader behind which may still be about to open the next data file.
	defer os.Chdir(cwd)
	first := M{"op": "init", "cfg": oc}
	if cfg.Coins > 0 {
		first["coins"] = coinsOf(&cfg)
	}
	em.emit(first)
	const out, dump = "simulation_results.csv", "cache_dump.json.gz"
	prev := ""
	for k, raw := range ops {
		var st SimStage
		var m M
		json.Unmarshal(raw, &st)
		json.Unmarshal(raw, &m)
		data, _ := m["data"].([]interface{})
		delete(m, "data")
		delete(m, "c")
		if st.C != nil {
			cfg = *st.C
		}
		m["op"] = "stage"
		em.emit(m)
		for _, r := range data {
			em.emit(M{"op": "rec", "r": r})
		}
		end := M{"op": "end"}
		em.intent(end)
		var c cache.Cache
		rec, dt := filtersOf(st.Filt)
		par := cache.SimulationParams{
			LoadDump: st.Load, Dump: st.Dump, DumpFilesAndStats: st.DumpFS, ColdStart: st.Cold, ColdStartNoStats: st.ColdNS,
			OutFile: out, BaseName: "v", ResultRunStatsName: "simulation_run_stats.json",
			DumpFilename: dump, LoadDumpFileName: dump, DumpFileName: dump,
			WindowSize: st.Win, WindowStart: st.Wstart, WindowStop: st.Wstop, OutputUpdateDelay: st.Delay,
			RecordFilter: rec, DataTypeFilter: dt,
			AIRLEpsilonStart: cfg.eps(cfg.REps), AIRLEpsilonDecay: cfg.eps(cfg.RDec),
		}
		for _, fn := range []string{"additionQTable.csv", "evictionQTable.csv"} {
			os.Remove(fn)
		}
		os.Remove("simulation_run_stats.json")
		res := withTimeout(60*time.Second, func() string {
			par.DataPath = writeData(fmt.Sprintf("%s/data%d", dir, k), &st, cfg.U)
			return protect(func() {
				c = mkCache(&cfg, dir)
				cache.Simulate(cfg.Type, c, par)
			})
		})
		if res != "" {
			end["panic"] = res
			em.emit(end)
			return
		}
		if cfg.Type == "aiRL" {
			end["tables"] = M{"add": readTable("additionQTable.csv", 2), "evc": readTable("evictionQTable.csv", 5)}
		}
		n := &num{u: float64(cfg.U)}
		var rs cache.SimulationStats
		b, err := os.ReadFile("simulation_run_stats.json")
		if err != nil || json.Unmarshal(b, &rs) != nil {
			end["bad"] = "no run statistics"
		} else {
			end["bad"] = ""
		}
		end["rs"] = M{"tot": rs.TotNumRecords, "jump": rs.TotJumpedRecords, "inv": rs.TotInvalidRecords, "filt": rs.TotFilteredRecords,
			"red": rs.TotRedirectedRecords, "reds": n.x(rs.SizeRedirectedRecords)}
		rows, bad := readResults(out, float64(cfg.U))
		if bad != "" {
			end["bad"] = bad
		}
		end["rows"] = rows
		if msg := protect(func() { end["obs"] = observe(c, &cfg, true) }); msg != "" {
			end["panic"] = "observing: " + msg
			delete(end, "obs")
			em.emit(end)
			return
		}
		// what was written before is kept under another name
		kept, _ := filepath.Glob("simulation_results_run-*.csv")
		end["kept"] = len(kept)
		end["keptok"] = true
		sort.Strings(kept)
		if st.Load && len(kept) > 0 {
			kb, _ := os.ReadFile(kept[len(kept)-1])
			end["keptok"] = string(kb) == prev
		}
		pb, _ := os.ReadFile(out)
		prev = string(pb)
		// the dump as a new cache sees it
		end["hasdump"] = false
		if st.Dump {
			if msg := protect(func() {
				c2 := mkCache(&cfg, dir)
				recs := cache.Load(c2, dump)
				if cfg.Type == "aiRL" {
					cache.Loads(c2, recs, cfg.eps(cfg.REps), cfg.eps(cfg.RDec))
				} else {
					cache.Loads(c2, recs)
				}
				end["dobs"] = observe(c2, &cfg, true)
				end["hasdump"] = true
			}); msg != "" {
				end["panic"] = "reading the dump: " + msg
			}
		}
		em.emit(end)
		if _, ok := end["panic"]; ok {
			return
		}
	}
}

// ---------------------------------------------------------------- datasets

// ReadFile is a file of a dataset folder.
type ReadFile struct {
	Name []int     `json:"name"` // character codes
	Gz   bool      `json:"gz"`
	Dir  bool      `json:"dir"`
	Cols []string  `json:"cols"`
	Rows [][]int64 `json:"rows"`
	B    int       `json:"b"` // way of writing booleans
}

var boolForms = [][2]string{{"False", "True"}, {"false", "true"}, {"0", "1"}, {"F", "T"}, {"f", "t"}, {"FALSE", "TRUE"}}

func cell(col string, v int64, form int) string {
	switch col {
	case "JobSuccess":
		return boolForms[form%len(boolForms)][v&1]
	case "Size":
		return fmt.Sprintf("%.1f", float64(v)*262144.) // quarters of a MB
	case "WrapWC", "WrapCPU", "JobLengthH", "JobLengthM", "CPUTime", "IOTime":
		return fmt.Sprintf("%.2f", float64(v)/4.)
	case "reqDay":
		if form%2 == 1 {
			return fmt.Sprintf("%d.0", baseTime+v)
		}
		return fmt.Sprint(baseTime + v)
	}
	return fmt.Sprint(fid(v))
}

func runRead(em *Emitter, rawCfg json.RawMessage, ops []json.RawMessage) {
	dir, _ := os.MkdirTemp("", "vd")
	defer os.RemoveAll(dir)
	em.emit(M{"op": "init", "cfg": M{}})
	for k, raw := range ops {
		var o struct {
			Op    string     `json:"op"`
			Files []ReadFile `json:"files"`
			Wide  bool       `json:"wide"`
		}
		var m M
		json.Unmarshal(raw, &o)
		json.Unmarshal(raw, &m)
		em.intent(M{"op": o.Op})
		wide = o.Wide
		sub := fmt.Sprintf("%s/d%d", dir, k)
		os.Mkdir(sub, 0o755)
		last := ""
		for _, f := range o.Files {
			name := ""
			for _, ch := range f.Name {
				name += string(rune(ch))
			}
			last = sub + "/" + name
			if f.Dir {
				os.Mkdir(last, 0o755)
				continue
			}
			rows := [][]string{f.Cols}
			for _, r := range f.Rows {
				row := make([]string, len(r))
				for j, v := range r {
					row[j] = cell(f.Cols[j], v, f.B)
				}
				rows = append(rows, row)
			}
			writeTable(last, f.Gz, rows)
		}
		got := []M{}
		frac := 0
		res := withTimeout(30*time.Second, func() string {
			return protect(func() {
				var it chan cache.CSVRecord
				if o.Op == "file" {
					it = cache.OpenSimFile(last)
				} else {
					d, _ := os.Open(sub)
					defer d.Close()
					it = cache.OpenSimFolder(d)
				}
				n := &num{u: 4}
				b := map[bool]int{true: 1, false: 0}
				for r := range it {
					mb := &num{u: 1. / 262144.}
					got = append(got, M{
						"Filename": short(r.Filename), "SiteName": short(r.SiteName), "UserID": short(r.UserID), "TaskID": short(r.TaskID),
						"TaskMonitorID": short(r.TaskMonitorID), "JobID": short(r.JobID), "Protocol": short(r.Protocol), "JobExecExitCode": short(r.JobExecExitCode),
						"Size": mb.x(r.Size), "SizeM": n.x(r.SizeM), "DataType": short(r.DataType), "FileType": short(r.FileType),
						"JobLengthH": n.x(r.JobLengthH), "JobLengthM": n.x(r.JobLengthM), "JobSuccess": b[r.JobSuccess],
						"CPUTime": n.x(r.CPUTime), "IOTime": n.x(r.IOTime), "reqDay": r.Day - baseTime,
						"Region": short(r.Region), "Campaign": short(r.Campaign), "Process": short(r.Process),
					})
					frac += mb.frac
				}
				frac += n.frac
			})
		})
		m["got"] = got
		m["frac"] = frac
		if res != "" {
			m["panic"] = res
			em.emit(m)
			return
		}
		em.emit(m)
		os.RemoveAll(sub)
	}
}

// ---------------------------------------------------------------- filters
func runFilter(em *Emitter, rawCfg json.RawMessage, ops []json.RawMessage) {
	em.emit(M{"op": "init", "cfg": M{}})
	all := map[string]cache.Filter{
		"UsDataMcTypes": cache.UsDataMcTypes{}, "ItDataMcTypes": cache.ItDataMcTypes{}, "SuccessJob": cache.SuccessJob{},
		"UsMINIAODNOT1andT3":                cache.UsMINIAODNOT1andT3{},
		"UsMINIAODNOFNALLPCNOT1FNALLFilter": cache.UsMINIAODNOFNALLPCNOT1FNALLFilter{},
		"UsMINIAODandNOFNALLPCFilter":       cache.UsMINIAODandNOFNALLPCFilter{},
	}
	for _, raw := range ops {
		var r SimRec
		var m M
		json.Unmarshal(raw, &r)
		json.Unmarshal(raw, &m)
		ans := M{}
		msg := protect(func() {
			for n, f := range all {
				ans[n] = f.Check(cache.CSVRecord{Filename: r.F, SiteName: r.Site, DataType: r.Dt, FileType: r.Ft, JobSuccess: r.Ok, JobExecExitCode: r.Ex, UserID: r.User, Protocol: r.P})
			}
		})
		if msg != "" {
			m["panic"] = msg
		}
		m["ans"] = ans
		em.emit(m)
	}
}
