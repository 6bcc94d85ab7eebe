package main

import (
	"encoding/json"
	"os"
	"time"

	"simulator/v2/cache/files"
	"simulator/v2/cache/queue"
)

// QueueCfg is the configuration of a queue scenario.
type QueueCfg struct {
	Type  string `json:"type"`
	Every int    `json:"every"`
	Wide  bool   `json:"wide"`
}

// QueueOp is an operation of a queue scenario.
type QueueOp struct {
	Op string  `json:"op"`
	F  int64   `json:"f"`
	S  int64   `json:"s"`
	FR int64   `json:"fr"`
	W  int64   `json:"w"`
	L  []int64 `json:"l"`
	N  int     `json:"n"`
}

func ids(l []*files.Stats) []int64 {
	out := []int64{}
	for _, s := range l {
		out = append(out, short(s.Filename))
	}
	return out
}

func fids(l []int64) []int64 {
	out := []int64{}
	for _, f := range l {
		out = append(out, fid(f))
	}
	return out
}

func runQueue(em *Emitter, rawCfg json.RawMessage, ops []json.RawMessage) {
	var cfg QueueCfg
	json.Unmarshal(rawCfg, &cfg)
	wide = cfg.Wide
	var q queue.Queue
	switch cfg.Type {
	case "LRU":
		q = &queue.LRU{}
	case "LFU":
		q = &queue.LFU{}
	case "SizeBig":
		q = &queue.SizeBig{}
	case "SizeSmall":
		q = &queue.SizeSmall{}
	case "Weighted":
		q = &queue.Weighted{}
	case "None":
		q = &queue.QueueNone{}
	default:
		os.Exit(65)
	}
	em.intent(M{"op": "init"})
	if msg := protect(func() { queue.Init(q) }); msg != "" {
		em.emit(M{"op": "init", "cfg": M{"type": cfg.Type}, "panic": msg})
		return
	}
	em.emit(M{"op": "init", "cfg": M{"type": cfg.Type}})
	all := map[int64]*files.Stats{}
	for k, raw := range ops {
		var op QueueOp
		var m M
		json.Unmarshal(raw, &op)
		json.Unmarshal(raw, &m)
		em.intent(m)
		res := withTimeout(20*time.Second, func() string {
			return protect(func() {
				switch op.Op {
				case "insert":
					st := &files.Stats{Filename: fid(op.F), Size: float64(op.S) / 4., Frequency: op.FR, Weight: float64(op.W) / 4.}
					all[op.F] = st
					queue.Insert(q, st)
				case "update":
					st := queue.GetFileStats(q, fid(op.F))
					st.Size, st.Frequency, st.Weight = float64(op.S)/4., op.FR, float64(op.W)/4.
					queue.Update(q, st)
				case "remove":
					queue.Remove(q, fids(op.L))
				case "removeWorst":
					cur := ids(queue.GetFromWorst(q))
					if op.N < len(cur) {
						cur = cur[:op.N]
					}
					m["l"] = append([]int64{}, cur...)
					queue.RemoveWorst(q, fids(cur))
				case "evict":
					// what the caches do: take the worst files up to a size, then remove them
					cur := ids(queue.GetWorstFilesUp2Size(q, float64(op.S)/4.))
					m["l"] = append([]int64{}, cur...)
					queue.RemoveWorst(q, fids(cur))
				case "up2size":
					m["l"] = ids(queue.GetWorstFilesUp2Size(q, float64(op.S)/4.))
				case "best":
					m["l"] = ids(queue.Get(q))
				case "reinit":
					queue.Init(q)
					all = map[int64]*files.Stats{}
				default:
					os.Exit(65)
				}
				m["len"] = queue.Len(q)
				// ids are small: check membership of every id ever used and of one never used
				mem := []int64{}
				for f := int64(0); f <= 64; f++ {
					if queue.Check(q, fid(f)) {
						mem = append(mem, f)
					}
				}
				m["mem"] = mem
				if cfg.Every <= 1 || (k+1)%cfg.Every == 0 || k == len(ops)-1 {
					m["order"] = ids(queue.GetFromWorst(q))
					m["full"] = true
				} else {
					m["order"] = []int64{}
					m["full"] = false
				}
				same := true
				for _, f := range mem {
					if queue.GetFileStats(q, fid(f)) != all[f] {
						same = false
					}
				}
				m["same"] = same
			})
		})
		if res != "" {
			m["panic"] = res
			em.emit(m)
			return
		}
		em.emit(m)
	}
}
