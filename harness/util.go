package main

import (
	"bufio"
	"compress/gzip"
	"encoding/json"
	"math"
	"os"
	"strconv"
)

func fl(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return math.NaN()
	}
	return v
}

// logFile: the file of a row of the log, -1 for none.
func logFile(s string) int64 {
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return -1000000002
	}
	if v == -1 {
		return -1
	}
	return short(v)
}

func dtl(s string) int64 {
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return -1000000002
	}
	return ticks(v)
}

func readGzLines(fn string) ([]string, error) {
	f, err := os.Open(fn)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	g, err := gzip.NewReader(f)
	if err != nil {
		return nil, err
	}
	var out []string
	sc := bufio.NewScanner(g)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		out = append(out, sc.Text())
	}
	return out, sc.Err()
}

func writeDataset(files []int64, dir string) string {
	fn := dir + "/dataset.json.gz"
	f, _ := os.Create(fn)
	g := gzip.NewWriter(f)
	names := []int64{}
	for _, f := range files {
		names = append(names, fid(f))
	}
	b, _ := json.Marshal(M{"selected_files": names})
	g.Write(b)
	g.Close()
	f.Close()
	return fn
}
