package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"simulator/v2/cache"
)

func init() { extraKinds["cmd"] = runCmd }

// CmdStage is one run of the simulator program with a configuration file.
type CmdStage struct {
	Conf    M         `json:"conf"`
	Yaml    string    `json:"yaml"`
	Cfgname string    `json:"cfgname"`
	C       *CacheCfg `json:"c"` // only used to read the dump
	Parts   int       `json:"parts"`
	Gz      bool      `json:"gz"`
	Rel     bool      `json:"rel"`
	Ds      []int64   `json:"ds"`
	Dumpf   string    `json:"dumpf"`
	Data    []SimRec  `json:"data"`
	Prior   *int      `json:"prior"`
	Pname   string    `json:"pname"`
}

type runDir struct {
	sum, kept string
	res       int64
	nk        int
}

// listRuns gives the result folders with something in them.
func listRuns(root string) map[string]runDir {
	out := map[string]runDir{}
	ds, _ := filepath.Glob(root + "/run_full_normal/*")
	sort.Strings(ds)
	for _, d := range ds {
		var r runDir
		fs, _ := filepath.Glob(d + "/*")
		if len(fs) == 0 {
			continue
		}
		sort.Strings(fs)
		for _, f := range fs {
			st, err := os.Stat(f)
			if err != nil {
				continue
			}
			r.sum += fmt.Sprint(filepath.Base(f), st.Size(), st.ModTime().UnixNano(), ";")
			b := filepath.Base(f)
			if b == "simulation_results.csv" {
				r.res = st.Size()
			} else if strings.HasPrefix(b, "simulation_results_run-") {
				r.nk++
				r.kept = f
			}
		}
		out[filepath.Base(d)] = r
	}
	return out
}

func runCmd(em *Emitter, rawCfg json.RawMessage, ops []json.RawMessage) {
	bin := os.Getenv("VSIM_BIN")
	dir, _ := os.MkdirTemp("", "vc")
	defer os.RemoveAll(dir)
	conf := dir + "/conf"
	os.Mkdir(conf, 0o755)
	first := M{"op": "init", "cfg": M{}}
	var cc CacheCfg
	json.Unmarshal(rawCfg, &cc)
	wide = cc.Wide
	if cc.Coins > 0 {
		first["coins"] = coinsOf(&cc)
	}
	em.emit(first)
	for k, raw := range ops {
		var st CmdStage
		var m M
		json.Unmarshal(raw, &st)
		json.Unmarshal(raw, &m)
		data, _ := m["data"].([]interface{})
		for _, x := range []string{"data", "yaml", "c", "pname"} {
			delete(m, x)
		}
		m["op"] = "stage"
		em.emit(m)
		for _, r := range data {
			em.emit(M{"op": "rec", "r": r})
		}
		end := M{"op": "end"}
		path := writeData(fmt.Sprintf("%s/data%d", conf, k), &SimStage{Parts: st.Parts, Gz: st.Gz, Data: st.Data}, st.C.U)
		aimap := conf + "/map.json"
		os.WriteFile(aimap, []byte(`{"numReq":{"buckets":[1,2],"openRight":true,"type":"int","fileFeature":true}}`), 0o644)
		out := dir + "/out"
		dsf := writeDataset(st.Ds, conf)
		addmap, evcmap := conf+"/add.map.json", conf+"/evc.json.gz"
		writeMap(addmap, st.C.AddFeats)
		writeMap(evcmap, st.C.EvcFeats)
		if st.Rel {
			path, aimap, out = filepath.Base(path), filepath.Base(aimap), "../out"
			addmap, evcmap = filepath.Base(addmap), filepath.Base(evcmap)
		}
		y := strings.NewReplacer("@ADDMAP@", addmap, "@EVCMAP@", evcmap, "@DATA@", path, "@MAP@", aimap, "@OUT@", out, "@DS@", dsf).Replace(st.Yaml)
		cf := conf + "/" + st.Cfgname
		os.WriteFile(cf, []byte(y), 0o644)
		if st.Prior != nil {
			// what an earlier run left there
			d := dir + "/out/run_full_normal/" + st.Pname
			os.MkdirAll(d, 0o755)
			os.WriteFile(d+"/simulation_results.csv", []byte(strings.Repeat("x", *st.Prior)), 0o644)
		}
		// whatever is written from now on has another time of change
		filepath.Walk(dir+"/out", func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() {
				at := time.Unix(1500000000+int64(k), 0)
				os.Chtimes(p, at, at)
			}
			return nil
		})
		before := listRuns(dir + "/out")
		dumpStat := map[string]string{}
		for n := range before {
			dumpStat[n] = statOf(dir + "/out/run_full_normal/" + n + "/" + st.Dumpf)
		}
		resBefore := map[string]string{}
		for n := range before {
			b, _ := os.ReadFile(dir + "/out/run_full_normal/" + n + "/simulation_results.csv")
			resBefore[n] = string(b)
		}
		cmd := exec.Command(bin, "sim", cf)
		if st.Rel {
			cmd.Args[2] = "conf/" + st.Cfgname
		}
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "TZ=UTC", "GOMAXPROCS=2")
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
			os.Exit(70)
		}
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			<-done
			end["panic"] = "TIMEOUT"
			em.emit(end)
			return
		}
		os.Remove(cf)
		end["rc"] = cmd.ProcessState.ExitCode()
		after := listRuns(dir + "/out")
		chg, dirs := []string{}, []M{}
		for n, r := range after {
			if b, ok := before[n]; !ok || b.sum != r.sum {
				chg = append(chg, n)
			}
			dirs = append(dirs, M{"n": n, "res": r.res})
		}
		for n := range before {
			if _, ok := after[n]; !ok {
				chg = append(chg, n)
			}
		}
		sort.Strings(chg)
		sort.Slice(dirs, func(i, j int) bool { return dirs[i]["n"].(string) < dirs[j]["n"].(string) })
		end["chg"], end["dirs"] = chg, dirs
		end["bad"], end["hasdump"], end["kept"], end["keptok"] = "", false, 0, true
		if len(chg) == 1 {
			d := dir + "/out/run_full_normal/" + chg[0] + "/"
			var rs cache.SimulationStats
			b, err := os.ReadFile(d + "simulation_run_stats.json")
			if err != nil || json.Unmarshal(b, &rs) != nil {
				end["bad"] = "no run statistics"
			}
			n := &num{u: float64(st.C.U)}
			end["rs"] = M{"tot": rs.TotNumRecords, "jump": rs.TotJumpedRecords, "inv": rs.TotInvalidRecords, "filt": rs.TotFilteredRecords,
				"red": rs.TotRedirectedRecords, "reds": n.x(rs.SizeRedirectedRecords)}
			rows, bad := readResults(d+"simulation_results.csv", float64(st.C.U))
			if bad != "" {
				end["bad"] = bad
			}
			end["rows"] = rows
			if st.C.Type == "aiRL" {
				end["tables"] = M{"add": readTable(d+"additionQTable.csv", 2), "evc": readTable(d+"evictionQTable.csv", 5)}
			}
			end["kept"] = after[chg[0]].nk
			if after[chg[0]].nk > before[chg[0]].nk {
				kb, _ := os.ReadFile(after[chg[0]].kept)
				end["keptok"] = string(kb) == resBefore[chg[0]]
			}
			if s := statOf(d + st.Dumpf); s != "" && s != dumpStat[chg[0]] {
				if msg := protect(func() {
					c2 := mkCache(st.C, dir)
					if st.C.Type == "aiRL" {
						cache.Loads(c2, cache.Load(c2, d+st.Dumpf), st.C.eps(st.C.REps), st.C.eps(st.C.RDec))
					} else {
						cache.Loads(c2, cache.Load(c2, d+st.Dumpf))
					}
					end["dobs"] = observe(c2, st.C, true)
					end["hasdump"] = true
				}); msg != "" {
					end["panic"] = "reading the dump: " + msg
				}
			}
		}
		em.emit(end)
		if _, ok := end["panic"]; ok {
			return
		}
	}
}

func statOf(f string) string {
	st, err := os.Stat(f)
	if err != nil {
		return ""
	}
	return fmt.Sprint(st.Size(), st.ModTime().UnixNano())
}
