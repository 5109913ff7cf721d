package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"

	"github.com/QuangTung97/go-memcache/zzverif/vs"
)

func main() {
	fam := flag.String("family", "", "scenario family")
	seed := flag.Int64("seed", 1, "seed")
	from := flag.Int("from", 0, "first index")
	n := flag.Int("n", 1, "number of runs")
	step := flag.Int("step", 1, "index increment")
	out := flag.String("out", "", "output file")
	script := flag.String("script", "", "file of scenarios (one JSON object per line)")
	show := flag.Bool("show", false, "print events of the runs")
	flag.Parse()

	o := os.Stdout
	if *out != "" {
		f, err := os.OpenFile(*out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		o = f
	}
	bw := bufio.NewWriterSize(o, 1<<20)
	defer bw.Flush()
	var lines [][]byte
	if *script != "" {
		b, err := os.ReadFile(*script)
		if err != nil {
			panic(err)
		}
		lines = bytes.Split(bytes.TrimSpace(b), []byte("\n"))
	}
	seen := map[[32]byte]bool{}
	var runs, points, switches, states int64
	for i := 0; i < *n; i++ {
		idx := *from + i**step
		ev, st, ok := runOne(*fam, *seed, idx, lines)
		if !ok {
			break
		}
		runs++
		points += st.Points
		switches += st.Switches
		if *show {
			for _, e := range ev {
				b, _ := json.Marshal(e)
				fmt.Fprintln(bw, string(b))
			}
			continue
		}
		b, err := json.Marshal(ev)
		if err != nil {
			panic(err)
		}
		h := sha256.Sum256(b)
		if seen[h] {
			continue
		}
		seen[h] = true
		states += int64(len(ev)) + 1
		fmt.Fprintf(bw, `{"id":"%s/%d/%d","ev":%s}`+"\n", *fam, *seed, idx, b)
	}
	bw.Flush()
	fmt.Fprintf(os.Stderr, `{"runs":%d,"distinct":%d,"points":%d,"switches":%d,"states":%d}`+"\n", runs, len(seen), points, switches, states)
}

func runOne(fam string, seed int64, idx int, lines [][]byte) ([]Ev, vs.Sched, bool) {
	switch fam {
	case "wire", "keys":
		ev, st := RunWire(wireScenario(fam, seed, idx))
		return ev, st, true
	case "allkeys":
		ev, st := RunWire(allKeys(idx))
		return ev, st, idx < 4096
	case "stats", "dump":
		ev, st := RunAdmin(adminScenario(fam, seed, idx))
		return ev, st, true
	case "auth":
		ev, st := RunAuth(authScenario(fam, seed, idx))
		return ev, st, true
	case "wirescript":
		if idx >= len(lines) {
			return nil, vs.Sched{}, false
		}
		s, err := parseScript(lines[idx])
		if err != nil {
			fmt.Fprintln(os.Stderr, "bad script:", err)
			os.Exit(3)
		}
		ev, st := RunWire(s)
		return ev, st, true
	}
	if fam == "script" {
		s, runSeed, ok := scriptScenario(fam, lines, seed, idx)
		if !ok {
			return nil, vs.Sched{}, false
		}
		ev, st := Run(s, runSeed)
		return ev, st, true
	}
	s, runSeed := Scenario(fam, seed, idx)
	ev, st := Run(s, runSeed)
	return ev, st, true
}
