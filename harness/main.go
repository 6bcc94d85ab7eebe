// Command vharness executes scenario scripts against the real simulator code
// and records, after every operation, the observable state of the object.
// It only uses the exported API of the simulator packages; it takes no
// decision about what is right: the TLA+ trace specifications do.
//
//	vharness SCRIPT.ndjson TRACE.ndjson
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"simulator/v2/cache"
)

// M is a JSON object.
type M = map[string]interface{}

// Emitter writes the trace.
type Emitter struct {
	mu  sync.Mutex
	at  time.Time
	cur []byte
	w   *bufio.Writer
	f   *os.File
	sid string
	n   int
}

func (e *Emitter) emit(m M) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.at = time.Now()
	e.put(m)
}

// put writes a record. A process in which something hangs is of no more use:
// it ends, and who started it goes on with the next scenario.
func (e *Emitter) put(m M) {
	m["sid"] = e.sid
	m["i"] = e.n
	e.n++
	b, err := json.Marshal(m)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR marshal", err, m)
		os.Exit(70)
	}
	e.w.Write(b)
	e.w.WriteByte('\n')
	if m["panic"] == "TIMEOUT" {
		e.w.Flush()
		os.Exit(71)
	}
}

// watch ends the process when nothing was recorded for long, wherever it hangs.
func (e *Emitter) watch() {
	for {
		time.Sleep(time.Second)
		e.mu.Lock()
		if time.Since(e.at) > 100*time.Second {
			var c struct{ Intent M }
			json.Unmarshal(e.cur, &c)
			if c.Intent == nil {
				c.Intent = M{"op": "?"}
			}
			c.Intent["panic"] = "TIMEOUT"
			e.put(c.Intent)
		}
		e.mu.Unlock()
	}
}

// intent is flushed before an operation runs: when the process dies inside
// the code under test it is the last line of the trace.
func (e *Emitter) intent(m M) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.at = time.Now()
	b, _ := json.Marshal(M{"intent": m, "sid": e.sid, "i": e.n})
	e.w.Write(b)
	e.w.WriteByte('\n')
	e.w.Flush()
	e.cur = b
}

var baseTime = int64(1500000000)

// protect runs f and returns the text of a panic, if any.
func protect(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%v", r)
			if msg == "" {
				msg = "panic"
			}
			if len(msg) > 200 {
				msg = msg[:200]
			}
		}
	}()
	f()
	return ""
}

// withTimeout guards against an operation which never returns.
func withTimeout(d time.Duration, f func() string) string {
	ch := make(chan string, 1)
	go func() { ch <- f() }()
	select {
	case s := <-ch:
		return s
	case <-time.After(d):
		return "TIMEOUT"
	}
}

type num struct {
	u    float64
	frac int
}

// x returns an exact scaled integer and counts the values which are not.
func (n *num) x(v float64) int64 {
	s := v * n.u
	if math.IsNaN(s) || math.IsInf(s, 0) || math.Abs(s) > 2e9 {
		n.frac++
		return -999999
	}
	r := math.Round(s)
	if r != s {
		n.frac++
	}
	return int64(r)
}

// a returns a rounded fixed point value, NaN is -1000000000 .
func a(v float64, scale float64) int64 {
	if math.IsNaN(v) || math.IsInf(v, 0) || math.Abs(v*scale) > 2e9 {
		return -1000000000
	}
	return int64(math.Round(v * scale))
}

func ticks(v int64) int64 {
	if v == math.MaxInt64 {
		return -1000000000
	}
	if v > 2000000000 || v < -2000000000 {
		return -1000000001
	}
	return v
}

// wide names: the files of a scenario get names which need all the 64 bits of
// an integer; the traces keep the short ones.
var wide bool

func fid(f int64) int64 {
	if !wide {
		return f
	}
	return 1<<53 + (f&1)<<32 + f>>1
}

func short(v int64) int64 {
	if !wide {
		return v
	}
	v -= 1 << 53
	f := (v&0xffffffff)<<1 | v>>32&1
	if v < 0 || fid(f) != v+1<<53 || f > 2000000000 {
		return -1000000003
	}
	return f
}

func secs(t time.Time) int64 {
	if t.IsZero() {
		return -1
	}
	return t.Unix() - baseTime
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vharness SCRIPT TRACE")
		os.Exit(64)
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(66)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(73)
	}
	em := &Emitter{w: bufio.NewWriterSize(out, 1<<20), f: out, at: time.Now()}
	go em.watch()
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var sc struct {
				ID   string            `json:"id"`
				Kind string            `json:"kind"`
				Cfg  json.RawMessage   `json:"cfg"`
				Ops  []json.RawMessage `json:"ops"`
			}
			if e := json.Unmarshal(line, &sc); e != nil {
				fmt.Fprintln(os.Stderr, "bad script", e)
				os.Exit(65)
			}
			em.mu.Lock()
			em.sid, em.n, em.at, em.cur = sc.ID, 0, time.Now(), nil
			em.cur, _ = json.Marshal(M{"intent": M{"op": "init", "cfg": sc.Cfg}})
			em.mu.Unlock()
			switch sc.Kind {
			case "cache":
				runCache(em, sc.Cfg, sc.Ops)
			case "queue":
				runQueue(em, sc.Cfg, sc.Ops)
			default:
				wide = false
				if r, ok := extraKinds[sc.Kind]; ok {
					r(em, sc.Cfg, sc.Ops)
				} else {
					fmt.Fprintln(os.Stderr, "unknown kind", sc.Kind)
					os.Exit(65)
				}
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(66)
		}
	}
	em.w.Flush()
	out.Close()
}

var extraKinds = map[string]func(*Emitter, json.RawMessage, []json.RawMessage){}

// ---------------------------------------------------------------- caches

// CacheCfg is the configuration of a cache scenario.
type CacheCfg struct {
	Type       string  `json:"type"`
	Max        int64   `json:"max"` // in units
	U          int64   `json:"u"`   // units per MB
	Red        bool    `json:"red"`
	Bwm        int64   `json:"bwm"` // mGbit
	Wm         bool    `json:"wm"`
	Hi         float64 `json:"hi"`
	Lo         float64 `json:"lo"`
	MaxDayS    int64   `json:"maxday"` // seconds
	StepS      int64   `json:"step"`   // seconds
	Seed       int64   `json:"seed"`
	SeedHi     int64   `json:"seedhi"` // the upper 32 bits of the seed
	Wide       bool    `json:"wide"`
	Log        bool    `json:"log"`
	Region     string  `json:"region"`
	WF         string  `json:"wf"`
	Alpha      float64 `json:"alpha"`
	Beta       float64 `json:"beta"`
	Gamma      float64 `json:"gamma"`
	DS         []int64 `json:"ds"`
	DumpsEvery int     `json:"every"` // observe the residents every k operations (0/1: always)

	RL       string  `json:"rl"`
	EvType   string  `json:"evtype"`
	EvK      int64   `json:"evk"`
	AddMap   string  `json:"addmap"`
	EvcMap   string  `json:"evcmap"`
	AddEps   float64 `json:"addeps"` // thousandths
	AddDec   float64 `json:"adddec"`
	EvcEps   float64 `json:"evceps"`
	EvcDec   float64 `json:"evcdec"`
	REps     float64 `json:"reps"` // of a restored agent, 0 0: those of the addition agent
	RDec     float64 `json:"rdec"`
	AddUnl   bool    `json:"addunl"`
	EvcUnl   bool    `json:"evcunl"`
	AIMap    string  `json:"aimap"`
	Coins    int     `json:"coins"`
	AddFeats []Feat  `json:"addfeats"`
	EvcFeats []Feat  `json:"evcfeats"`
	Draws    int     `json:"draws"`
	XDraws   int     `json:"xdraws"`
	EpsUnit  float64 `json:"epsunit"` // rates are in 1/epsunit (0: thousandths)
}

func (c *CacheCfg) seed() int64 { return c.Seed + c.SeedHi<<32 }

func (c *CacheCfg) eps(v float64) float64 {
	if c.EpsUnit != 0 {
		return v / c.EpsUnit
	}
	return v / 1000.
}

// twin is the cache a dump was taken of: it gets the same requests as the
// restored one.
var twin cache.Cache

// CacheOp is an operation of a cache scenario.
type CacheOp struct {
	Op   string `json:"op"`
	F    int64  `json:"f"`
	S    int64  `json:"s"`
	P    int64  `json:"p"`
	C    int64  `json:"c"`
	T    int64  `json:"t"`
	Site int64  `json:"site"`
	User int64  `json:"user"`
	Ft   int64  `json:"ft"`
	Amt  int64  `json:"amt"`
	Pct  bool   `json:"pct"`
	Obs  bool   `json:"obs"`
	NoFS bool   `json:"nofs"`
}

func mkCache(cfg *CacheCfg, dir string) cache.Cache {
	c := cache.Create(cfg.Type, float64(cfg.Max)/float64(cfg.U), "M", "", cache.WeightFunctionParameters{})
	p := cache.InitParameters{
		Log:                        cfg.Log,
		RedirectReq:                cfg.Red,
		Watermarks:                 cfg.Wm,
		HighWatermark:              cfg.Hi,
		LowWatermark:               cfg.Lo,
		RandSeed:                   cfg.seed(),
		FunctionTypeString:         cfg.WF,
		WfParams:                   cache.WeightFunctionParameters{Alpha: cfg.Alpha, Beta: cfg.Beta, Gamma: cfg.Gamma},
		MaxNumDayDiff:              float64(cfg.MaxDayS) / 86400.,
		DeltaDaysStep:              float64(cfg.StepS) / 86400.,
		AIRLType:                   cfg.RL,
		EvictionAgentType:          cfg.EvType,
		AIRLEvictionK:              cfg.EvK,
		AIRLAdditionFeatureMap:     cfg.AddMap,
		AIRLEvictionFeatureMap:     cfg.EvcMap,
		AIRLAdditionEpsilonStart:   cfg.eps(cfg.AddEps),
		AIRLAdditionEpsilonDecay:   cfg.eps(cfg.AddDec),
		AIRLEvictionEpsilonStart:   cfg.eps(cfg.EvcEps),
		AIRLEvictionEpsilonDecay:   cfg.eps(cfg.EvcDec),
		AIRLAdditionEpsilonUnleash: cfg.AddUnl,
		AIRLEvictionEpsilonUnleash: cfg.EvcUnl,
		AIFeatureMap:               cfg.AIMap,
	}
	if len(cfg.AddFeats) > 0 {
		p.AIRLAdditionFeatureMap = dir + "/addmap.json"
		writeMap(p.AIRLAdditionFeatureMap, cfg.AddFeats)
	}
	if len(cfg.EvcFeats) > 0 {
		p.AIRLEvictionFeatureMap = dir + "/evcmap.json"
		writeMap(p.AIRLEvictionFeatureMap, cfg.EvcFeats)
	}
	if cfg.Type == "aiNN" && cfg.AIMap == "" {
		p.AIFeatureMap = dir + "/map.json"
		os.WriteFile(p.AIFeatureMap, []byte(`{"numReq":{"buckets":[1,2],"openRight":true,"type":"int","fileFeature":true}}`), 0o644)
	}
	if cfg.Type == "lruDatasetVerifier" {
		p.Dataset2TestPath = writeDataset(cfg.DS, dir)
	}
	cache.InitInstance(cfg.Type, c, p)
	cache.SetRegion(c, cfg.Region)
	cache.SetBandwidth(c, float64(cfg.Bwm)/1000.)
	return c
}

type fileStats struct {
	Filename           int64       `json:"filename"`
	Weight             float64     `json:"weight"`
	Size               float64     `json:"size"`
	Frequency          int64       `json:"frequency"`
	Recency            int64       `json:"recency"`
	NHits              int64       `json:"nHits"`
	NMiss              int64       `json:"nMiss"`
	StatInsertTime     time.Time   `json:"statInsertTime"`
	StatLastUpdateTime time.Time   `json:"statLastUpdateTime"`
	RequestedTimes     []time.Time `json:"requestedTimes"`
	DeltaLastRequest   int64       `json:"deltaLastRequest"`
}

func residents(c cache.Cache, n *num) (q []int64, qs []int64, st []M, bad string) {
	q, qs, st = []int64{}, []int64{}, []M{}
	for _, rec := range c.Dumps(true) {
		var r cache.DumpRecord
		var in cache.DumpInfo
		if e := json.Unmarshal(rec, &r); e != nil {
			return q, qs, st, "undecodable dump record"
		}
		if e := json.Unmarshal([]byte(r.Info), &in); e != nil {
			return q, qs, st, "undecodable dump info"
		}
		if in.Type != "FILES" && in.Type != "STATS" {
			continue
		}
		var s fileStats
		if e := json.Unmarshal([]byte(r.Data), &s); e != nil {
			return q, qs, st, "undecodable dump data"
		}
		if in.Type == "FILES" {
			q = append(q, short(s.Filename))
			qs = append(qs, n.x(s.Size))
		} else {
			rt := []int64{}
			for _, t := range s.RequestedTimes {
				if !t.IsZero() {
					rt = append(rt, secs(t))
				}
			}
			sort.Slice(rt, func(i, j int) bool { return rt[i] < rt[j] })
			st = append(st, M{
				"f": short(s.Filename), "s": n.x(s.Size), "fr": s.Frequency, "rec": ticks(s.Recency),
				"dl": ticks(s.DeltaLastRequest), "nh": s.NHits, "nm": s.NMiss,
				"ti": secs(s.StatInsertTime), "tl": secs(s.StatLastUpdateTime),
				"rt": rt, "w": a(s.Weight, 4),
			})
		}
	}
	sort.Slice(st, func(i, j int) bool { return st[i]["f"].(int64) < st[j]["f"].(int64) })
	return q, qs, st, ""
}

func observe(c cache.Cache, cfg *CacheCfg, full bool) M {
	n := &num{u: float64(cfg.U)}
	u := float64(cfg.U)
	o := M{
		"size": n.x(cache.Size(c)), "max": n.x(cache.GetMaxSize(c)),
		"cap": a(cache.Capacity(c), 1000),
		"req": cache.NumRequests(c), "hit": cache.NumHits(c), "add": cache.NumAdded(c),
		"del": cache.NumDeleted(c), "red": cache.NumRedirected(c), "reds": n.x(cache.RedirectedSize(c)),
		"dw": n.x(cache.DataWritten(c)), "dr": n.x(cache.DataRead(c)),
		"drh": n.x(cache.DataReadOnHit(c)), "drm": n.x(cache.DataReadOnMiss(c)),
		"dd": n.x(cache.DataDeleted(c)),
		"hr": a(cache.HitRate(c), 1000), "whr": a(cache.WeightedHitRate(c), u),
		"bw": a(cache.Bandwidth(c), 1), "bwu": a(cache.BandwidthUsage(c), 1000),
		"af": a(cache.AvgFreeSpace(c), 100*u), "sd": a(cache.StdDevFreeSpace(c), 10*u),
		"ce": a(cache.CPUEff(c), 1000), "ch": a(cache.CPUHitEff(c), 1000), "cm": a(cache.CPUMissEff(c), 1000),
		"cu": a(cache.CPUEffUpperBound(c), 1000), "cl": a(cache.CPUEffLowerBound(c), 1000),
	}
	if nf, ok := c.(interface{ NumFiles() int }); ok {
		o["nf"] = nf.NumFiles()
	} else {
		o["nf"] = -1
	}
	if full {
		q, qs, st, bad := residents(c, n)
		o["q"], o["qs"], o["st"] = q, qs, st
		o["full"] = true
		if bad != "" {
			o["bad"] = bad
		}
	} else {
		o["full"] = false
	}
	o["frac"] = n.frac
	if cfg.Type == "aiRL" {
		o["ai"] = aiObs(c)
	}
	return o
}

// coinsOf: the numbers a generator started with this seed gives.
func coinsOf(cfg *CacheCfg) []bool {
	g := rand.New(rand.NewSource(cfg.seed()))
	coins := []bool{}
	for k := 0; k < cfg.Coins; k++ {
		coins = append(coins, g.Float32() >= 0.5)
	}
	return coins
}

func runCache(em *Emitter, rawCfg json.RawMessage, ops []json.RawMessage) {
	var cfg CacheCfg
	if e := json.Unmarshal(rawCfg, &cfg); e != nil {
		fmt.Fprintln(os.Stderr, "bad cfg", e)
		os.Exit(65)
	}
	if cfg.U == 0 {
		cfg.U = 1
	}
	dir, _ := os.MkdirTemp("", "vh")
	cwd, _ := os.Getwd()
	os.Chdir(dir)
	defer func() {
		os.Chdir(cwd)
		os.RemoveAll(dir)
	}()

	wide = cfg.Wide
	var c cache.Cache
	var oc M
	json.Unmarshal(rawCfg, &oc)
	em.intent(M{"op": "init"})
	if msg := protect(func() { c = mkCache(&cfg, dir) }); msg != "" {
		em.emit(M{"op": "init", "cfg": oc, "panic": msg})
		return
	}
	first := M{"op": "init", "cfg": oc, "obs": observe(c, &cfg, true)}
	if cfg.Coins > 0 {
		first["coins"] = coinsOf(&cfg)
	}
	if cfg.Draws > 0 {
		first["draws"] = drawsOf(&cfg)
	}
	if cfg.XDraws > 0 {
		first["xd"] = drawsX(&cfg)
	}
	em.emit(first)
	twin = nil

	for k, raw := range ops {
		var op CacheOp
		var m M
		json.Unmarshal(raw, &op)
		json.Unmarshal(raw, &m)
		em.intent(m)
		full := cfg.DumpsEvery <= 1 || (k+1)%cfg.DumpsEvery == 0 || k == len(ops)-1 || op.Obs
		res := withTimeout(20*time.Second, func() string {
			return protect(func() { c = doCacheOp(c, &cfg, &op, m, dir) })
		})
		if res != "" {
			m["panic"] = res
			em.emit(m)
			return
		}
		var obs M
		if msg := protect(func() { obs = observe(c, &cfg, full) }); msg != "" {
			m["panic"] = "observing: " + msg
			em.emit(m)
			return
		}
		m["obs"] = obs
		if extraObs != nil {
			if msg := protect(func() { extraObs(c, m) }); msg != "" {
				m["panic"] = "observing: " + msg
				delete(m, "obs")
				em.emit(m)
				return
			}
		}
		em.emit(m)
	}
}

// extraObs is set by the build which can look inside the package.
var extraObs func(c cache.Cache, m M)

func doCacheOp(c cache.Cache, cfg *CacheCfg, op *CacheOp, m M, dir string) cache.Cache {
	u := float64(cfg.U)
	switch op.Op {
	case "get", "delmiss", "extra":
	default:
		twin = nil
	}
	switch op.Op {
	case "get":
		added, redirected := cache.GetFile(c, fid(op.F), float64(op.S)/u, op.P, float64(op.C)/4., baseTime+op.T, op.Site, op.User, op.Ft)
		m["ra"], m["rr"] = added, redirected
		if twin != nil {
			ta, tr := cache.GetFile(twin, fid(op.F), float64(op.S)/u, op.P, float64(op.C)/4., baseTime+op.T, op.Site, op.User, op.Ft)
			o := observe(twin, cfg, true)
			m["tw"] = M{"ra": ta, "rr": tr, "q": o["q"], "size": o["size"]}
		}
	case "clearFiles":
		cache.ClearFiles(c)
	case "clearStats":
		cache.ClearStats(c)
	case "clear":
		cache.Clear(c)
	case "delmiss":
		m["v"] = cache.GetTotDeletedFileMiss(c)
	case "free":
		n := &num{u: u}
		amt := float64(op.Amt)
		if !op.Pct {
			amt /= u
		}
		m["v"] = n.x(c.Free(amt, op.Pct))
		m["frac"] = n.frac
	case "extra":
		m["v"] = cache.ExtraStats(c)
		m["wavg"] = -1000000000
		if k := strings.Index(m["v"].(string), "wAVG:"); k >= 0 {
			m["wavg"] = a(fl(m["v"].(string)[k+5:]), 100)
		}
	case "dump", "fork":
		fn := dir + "/dump.json.gz"
		before := observe(c, cfg, true)
		cache.Dump(c, fn, !op.NoFS)
		m["after"] = observe(c, cfg, true)
		twin = nil
		if op.Op == "fork" {
			twin = c
		} else {
			_ = cache.Terminate(c)
			if cfg.Log && cfg.Type == "aiRL" {
				m["log"], m["logbad"] = readLog(dir+"/simulationLogFile.csv.gz", cfg)
			}
		}
		c2 := mkCache(cfg, dir)
		recs := cache.Load(c2, fn)
		if cfg.Type == "aiRL" {
			eps, dec := cfg.AddEps, cfg.AddDec
			if cfg.REps != 0 || cfg.RDec != 0 {
				eps, dec = cfg.REps, cfg.RDec
			}
			cache.Loads(c2, recs, cfg.eps(eps), cfg.eps(dec))
		} else {
			cache.Loads(c2, recs)
		}
		m["before"] = before
		return c2
	case "fresh":
		_ = cache.Terminate(c)
		return mkCache(cfg, dir)
	case "terminate":
		_ = cache.Terminate(c)
		twin = nil
		m["log"], m["logbad"] = readLog(dir+"/simulationLogFile.csv.gz", cfg)
		m["ended"] = true
		return mkCache(cfg, dir)
	default:
		fmt.Fprintln(os.Stderr, "unknown op", op.Op)
		os.Exit(65)
	}
	return c
}

func readLog(fn string, cfg *CacheCfg) (rows []M, bad string) {
	rows = []M{}
	lines, err := readGzLines(fn)
	if err != nil {
		return rows, err.Error()
	}
	n := &num{u: 1}
	for i, l := range lines {
		f := strings.Split(l, ",")
		if i == 0 {
			if l != "tick,action or event,cache size,cache capacity,filename,size,num req,delta t" {
				return rows, "bad header"
			}
			continue
		}
		if len(f) != 8 {
			return rows, "bad row " + l
		}
		u := float64(cfg.U)
		sz := fl(f[5])
		if sz != -1 {
			sz *= u
		}
		rows = append(rows, M{
			"t": n.x(fl(f[0])), "e": f[1], "cs": n.x(fl(f[2]) * u), "cc": a(fl(f[3]), 100),
			"f": logFile(f[4]), "s": n.x(sz), "nr": n.x(fl(f[6])), "dt": dtl(f[7]),
		})
	}
	if n.frac > 0 {
		bad = "non integral values"
	}
	return rows, bad
}
