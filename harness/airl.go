package main

import (
	"encoding/json"
	"math/rand"
	"strings"

	"simulator/v2/cache"
)

// drawsOf: the numbers a generator started with this seed gives, millionths.
func drawsOf(cfg *CacheCfg) []int64 {
	g := rand.New(rand.NewSource(cfg.seed()))
	draws := []int64{}
	for k := 0; k < cfg.Draws; k++ {
		draws = append(draws, int64(g.Float64()*1e6))
	}
	return draws
}

// drawsX: the same numbers in the forms an agent uses: millionths, the place of
// one of five actions, and picks of 2, 3 and 4 values.
func drawsX(cfg *CacheCfg) [][]int64 {
	g := rand.NewSource(cfg.seed())
	out := [][]int64{}
	for k := 0; k < cfg.XDraws; k++ {
		v := g.Int63()
		f := float64(v) / (1 << 63)
		i := v >> 32
		out = append(out, []int64{int64(f * 1e6), int64(f * 5), i & 1, i % 3, i & 3})
	}
	return out
}

type dumpedAgent struct {
	QTable struct {
		Actions        [][]float64 `json:"actions"`
		ActionTypes    []int       `json:"actionTypes"`
		FeatureManager struct {
			Features []struct {
				Name string `json:"name"`
			} `json:"feature"`
		} `json:"featureManager"`
	} `json:"qtable"`
	Epsilon float64 `json:"epsilon"`
	Step    int64   `json:"episodeCounter"`
	QValue  float64 `json:"qValue"`
}

func dumpedAgentObs(data string) M {
	var d dumpedAgent
	if e := json.Unmarshal([]byte(data), &d); e != nil {
		panic("undecodable agent: " + e.Error())
	}
	order := []string{}
	for _, f := range d.QTable.FeatureManager.Features {
		order = append(order, f.Name)
	}
	q := [][]int64{}
	rk := [][]int{}
	for _, row := range d.QTable.Actions {
		l := []int64{}
		r := []int{}
		for _, v := range row {
			n := 0
			for _, w := range row {
				if w < v {
					n++
				}
			}
			r = append(r, n)
		}
		rk = append(rk, r)
		for _, v := range row {
			l = append(l, a(v, 10000))
		}
		q = append(q, l)
	}
	return M{"ok": true, "order": order, "acts": d.QTable.ActionTypes, "q": q, "rk": rk, "eps": a(d.Epsilon, 1e6), "step": d.Step, "qv": a(d.QValue, 4)}
}

func numbers(s string, scale float64) []int64 {
	out := []int64{}
	for _, x := range strings.Split(s, ",") {
		out = append(out, a(fl(x), scale))
	}
	return out
}

// aiObs: what an aiRL cache says about its agents.
func aiObs(c cache.Cache) M {
	o := M{
		"acts": numbers(cache.ExtraOutput(c, "actionStats"), 1),
		"evst": numbers(cache.ExtraOutput(c, "evictionStats"), 1),
		"vf":   numbers(cache.ExtraOutput(c, "valueFunctions"), 100),
		"ep":   numbers(cache.ExtraOutput(c, "epsilonStats"), 1e6),
		"cat":  numbers(cache.ExtraOutput(c, "evictionCategoryStats"), 100),
	}
	none := M{"ok": false, "order": []string{}, "acts": []int{}, "q": [][]int64{}, "rk": [][]int{}, "eps": 0, "step": 0, "qv": 0}
	o["add"], o["evc"] = none, none
	for _, rec := range c.Dumps(false) {
		var r cache.DumpRecord
		var in cache.DumpInfo
		if e := json.Unmarshal(rec, &r); e != nil {
			panic("undecodable dump record")
		}
		if e := json.Unmarshal([]byte(r.Info), &in); e != nil {
			panic("undecodable dump info")
		}
		switch in.Type {
		case "ADDAGENT":
			o["add"] = dumpedAgentObs(r.Data)
		case "EVCAGENT":
			o["evc"] = dumpedAgentObs(r.Data)
		}
	}
	return o
}
