package main

import (
	"compress/gzip"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"

	"simulator/v2/cache/ai/featuremap"
	"simulator/v2/cache/ai/qlearn"
)

func init() { extraKinds["agent"] = runAgent }

// Feat is a feature of a feature map. Values are integers: numbers of
// halves for float features, n for the string "vn", 0 or 1 for bool.
type Feat struct {
	Name string  `json:"name"`
	Type string  `json:"type"`
	Vals []int64 `json:"vals"`
	Open bool    `json:"open"`
	File bool    `json:"file"`
	Key  string  `json:"key"` // "buckets" or "values"
}

// AgentCfg configures an agent scenario.
type AgentCfg struct {
	Role   string  `json:"role"`
	Feats  []Feat  `json:"feats"`
	Eps    float64 `json:"eps"` // thousandths
	Dec    float64 `json:"dec"` // thousandths
	Unl    bool    `json:"unl"`
	Seed   int64   `json:"seed"`
	SeedHi int64   `json:"seedhi"`
	Gz     string  `json:"gz"` // extension of the map file
}

// AgentOp is an operation on an agent or its feature map.
type AgentOp struct {
	Op   string   `json:"op"`
	F    string   `json:"f"`
	Fs   []string `json:"fs"`
	V    int64    `json:"v"`
	L    []int64  `json:"l"`
	S    int      `json:"s"`
	S2   int      `json:"s2"`
	A    int      `json:"a"`
	R    int64    `json:"r"` // quarters
	E    int64    `json:"e"` // thousandths, -1: none
	D    int64    `json:"d"` // thousandths
	K    int64    `json:"k"` // memory key
	N    int64    `json:"n"` // tick of the choice
	Nlim bool     `json:"nlim"`
}

const inf = int64(1000000000)

func featVal(t string, v int64) interface{} {
	switch t {
	case "int":
		return v
	case "float":
		return float64(v) / 2.
	case "string":
		return fmt.Sprintf("v%d", v)
	default:
		return v == 1
	}
}

func valOf(x interface{}) int64 {
	switch v := x.(type) {
	case int64:
		if v == math.MaxInt64 {
			return inf
		}
		return v
	case float64:
		if v == math.MaxFloat64 {
			return inf
		}
		return a(v, 2)
	case string:
		n := int64(-7)
		fmt.Sscanf(v, "v%d", &n)
		return n
	case bool:
		if v {
			return 1
		}
		return 0
	}
	return -8
}

func writeMap(fn string, feats []Feat) {
	m := M{}
	for _, f := range feats {
		vals := []interface{}{}
		for _, v := range f.Vals {
			vals = append(vals, featVal(f.Type, v))
		}
		key := f.Key
		if key == "" {
			key = "buckets"
		}
		o := M{key: vals, "type": f.Type}
		if f.Open {
			o["openRight"] = true
		} else if f.Key == "values" {
			o["openRight"] = false
		}
		if f.File {
			o["fileFeature"] = true
		}
		m[f.Name] = o
	}
	b, _ := json.Marshal(m)
	if strings.HasSuffix(fn, ".json") {
		os.WriteFile(fn, b, 0o644)
		return
	}
	f, _ := os.Create(fn)
	g := gzip.NewWriter(f)
	g.Write(b)
	g.Close()
	f.Close()
}

func featObs(o featuremap.Obj) M {
	vals := []int64{}
	for k := 0; k < o.Size(); k++ {
		vals = append(vals, valOf(o.Value(k)))
	}
	return M{"name": o.Name, "type": o.Type, "vals": vals, "file": o.FileFeature}
}

func names(l []featuremap.Obj) []string {
	r := []string{}
	for _, o := range l {
		r = append(r, o.Name)
	}
	return r
}

func idxMap(m map[string]int) []M {
	r := []M{}
	for k, v := range m {
		r = append(r, M{"f": k, "v": v})
	}
	return r
}

func ints(l []int) []int {
	if l == nil {
		return []int{}
	}
	return l
}

func agentTable(ag *qlearn.Agent) [][]int64 {
	r := [][]int64{}
	for s := range ag.QTable.Actions {
		row := []int64{}
		for _, v := range ag.QTable.Actions[s] {
			row = append(row, a(v, 10000))
		}
		r = append(r, row)
	}
	return r
}

func choices(l []qlearn.Choice) [][]int64 {
	r := [][]int64{}
	for _, c := range l {
		h := int64(0)
		if c.Hit {
			h = 1
		}
		r = append(r, []int64{int64(c.State), int64(c.Action), c.Tick, c.DeltaT, a(c.Capacity, 2), h, a(c.Size, 2), c.Frequency})
	}
	return r
}

func agentObs(ag *qlearn.Agent) M {
	mem := []M{}
	for k, v := range ag.Memory {
		mem = append(mem, M{"k": k, "l": choices(v)})
	}
	return M{"q": agentTable(ag), "eps": a(ag.Epsilon, 1e6), "step": ag.StepNum, "qv": a(ag.QValue, 4), "mem": mem}
}

func agentInit(m M, fm *featuremap.FeatureManager, ag *qlearn.Agent) {
	fs := []M{}
	for _, f := range fm.Features {
		fs = append(fs, featObs(f))
	}
	m["feats"] = fs
	m["files"] = names(fm.FileFeatures)
	m["fw"] = ints(fm.FeatureIdxWeights)
	m["ffw"] = ints(fm.FileFeatureIdxWeights)
	m["fidx"] = idxMap(fm.FeatureIdxMap)
	m["ffidx"] = idxMap(fm.FileFeatureIdxMap)
	m["states"] = ag.QTable.States
	m["ns"] = ag.NumStates
	m["nv"] = ag.NumVars
	acts := []int{}
	for _, x := range ag.QTable.ActionTypes {
		acts = append(acts, int(x))
	}
	m["acts"] = acts
}

func runAgent(em *Emitter, rawCfg json.RawMessage, ops []json.RawMessage) {
	var cfg AgentCfg
	var oc M
	if e := json.Unmarshal(rawCfg, &cfg); e != nil {
		fmt.Fprintln(os.Stderr, "bad cfg", e)
		os.Exit(65)
	}
	json.Unmarshal(rawCfg, &oc)
	dir, _ := os.MkdirTemp("", "vh")
	defer os.RemoveAll(dir)
	fn := dir + "/map" + cfg.Gz
	writeMap(fn, cfg.Feats)
	role := qlearn.AdditionAgent
	if cfg.Role == "evc" {
		role = qlearn.EvictionAgent
	}
	newAgent := func() (*featuremap.FeatureManager, *qlearn.Agent) {
		fm := featuremap.Parse(fn)
		ag := &qlearn.Agent{}
		ag.Init(&fm, role, cfg.Eps/1000., cfg.Dec/1000., cfg.Unl, cfg.Seed+cfg.SeedHi<<32)
		return &fm, ag
	}
	var fm *featuremap.FeatureManager
	var ag *qlearn.Agent
	em.intent(M{"op": "init"})
	first := M{"op": "init", "cfg": oc}
	if msg := protect(func() {
		fm, ag = newAgent()
		agentInit(first, fm, ag)
		first["obs"] = agentObs(ag)
	}); msg != "" {
		em.emit(M{"op": "init", "cfg": oc, "panic": msg})
		return
	}
	em.emit(first)
	for _, raw := range ops {
		var op AgentOp
		var m M
		json.Unmarshal(raw, &op)
		json.Unmarshal(raw, &m)
		em.intent(m)
		msg := protect(func() {
			fm, ag = doAgentOp(fm, ag, newAgent, &op, m)
			m["obs"] = agentObs(ag)
		})
		if msg != "" {
			if msg == "TIMEOUT" {
				m["panic"] = msg
				em.emit(m)
				return
			}
			m["panicked"] = msg
			m["obs"] = agentObs(ag)
		}
		em.emit(m)
	}
}

func feature(fm *featuremap.FeatureManager, name string) featuremap.Obj {
	for _, f := range fm.Features {
		if f.Name == name {
			return f
		}
	}
	panic("no feature " + name)
}

func doAgentOp(fm *featuremap.FeatureManager, ag *qlearn.Agent, newAgent func() (*featuremap.FeatureManager, *qlearn.Agent), op *AgentOp, m M) (*featuremap.FeatureManager, *qlearn.Agent) {
	choice := qlearn.Choice{State: op.S, Action: qlearn.ActionType(op.A), Tick: op.N, DeltaT: op.N + 1, Capacity: float64(op.N%7) / 2., Hit: op.N%2 == 1, Size: float64(op.N%5) / 2., Frequency: op.N % 3}
	switch op.Op {
	case "index":
		f := feature(fm, op.F)
		m["v2"] = f.Index(featVal(f.Type, op.V))
	case "value":
		f := feature(fm, op.F)
		all, idx := []int64{}, []int{}
		for x := range f.Values() {
			all = append(all, valOf(x.Val))
			idx = append(idx, x.Idx)
		}
		str := []string{}
		for k := 0; k < f.Size(); k++ {
			str = append(str, f.ToString(k))
		}
		m["all"], m["idx"], m["str"], m["size"] = all, idx, str, f.Size()
	case "state":
		l := []int{}
		for _, x := range op.L {
			l = append(l, int(x))
		}
		m["v2"] = ag.QTable.FeatureIdxs2StateIdx(l...)
	case "idxs":
		vals := []interface{}{}
		l := []int64{}
		for _, f := range fm.Features {
			for k, n := range op.Fs {
				if n == f.Name {
					vals = append(vals, featVal(f.Type, op.L[k]))
					l = append(l, op.L[k])
				}
			}
		}
		m["l"] = l
		m["v2"] = ag.QTable.Features2Idxs(vals...)
	case "upd":
		ag.UpdateTable(op.S, op.S2, qlearn.ActionType(op.A), float64(op.R)/4.)
	case "best":
		m["v2"] = int(ag.GetBestAction(op.S))
		m["v3"] = a(ag.GetBestActionValue(op.S), 10000)
		m["v4"] = a(ag.GetActionValue(op.S, ag.QTable.ActionTypes[op.A]), 10000)
	case "eps":
		ag.UpdateEpsilon()
	case "unleash":
		res := withTimeout(60e9, func() string {
			return protect(func() {
				if op.E < 0 {
					ag.UnleashEpsilon(nil)
				} else {
					ag.UnleashEpsilon(float64(op.E) / 1000.)
				}
			})
		})
		if res != "" {
			panic(res)
		}
	case "params":
		ag.ResetParams(float64(op.E)/1000., float64(op.D)/1000.)
	case "resetq":
		ag.ResetQValue()
	case "resettable":
		ag.ResetTableAction()
	case "save":
		if op.Nlim {
			ag.SaveMemoryWithNoLimits(op.K, choice)
		} else {
			ag.SaveMemory(op.K, choice)
		}
	case "remember":
		l, ok := ag.Remember(op.K)
		m["v2"], m["v3"] = choices(l), ok
	case "memories":
		m["v2"] = choices(ag.GetMemories(op.K))
	case "forget":
		ag.DeleteMemory(op.K)
	case "forgetall":
		ag.ResetMemories()
	case "cov":
		x, y := ag.GetCoverage()
		m["v2"], m["v3"] = a(x, 1000), a(y, 1000)
	case "str":
		lines := strings.Split(ag.QTableToString(), "\n")
		m["head"] = strings.Split(lines[0], ",")
		vals, feats := [][]int64{}, [][]string{}
		na := len(ag.QTable.ActionTypes)
		for _, l := range lines[1:] {
			c := strings.Split(l, ",")
			v := []int64{}
			for _, x := range c[:na] {
				v = append(v, a(fl(x), 100))
			}
			vals = append(vals, v)
			feats = append(feats, c[na:])
		}
		m["vals"], m["fcells"] = vals, feats
	case "restore":
		b, e := json.Marshal(ag)
		if e != nil {
			panic(e.Error())
		}
		fm2, ag2 := newAgent()
		if e := json.Unmarshal(b, ag2); e != nil {
			panic(e.Error())
		}
		fm, ag = fm2, ag2
		m["init"] = M{}
		agentInit(m["init"].(M), ag.QTable.FeatureManager, ag)
		fm = ag.QTable.FeatureManager
	default:
		fmt.Fprintln(os.Stderr, "unknown op", op.Op)
		os.Exit(65)
	}
	return fm, ag
}
