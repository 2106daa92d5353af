package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
)

func writeJSON(path string, v interface{}) {
	f, err := os.Create(path)
	must(err)
	must(json.NewEncoder(f).Encode(v))
	must(f.Close())
}

type traceScript struct {
	Ops []Op `json:"ops"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("universe, gen, replay, together or cli")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	profile := fs.String("profile", "edit", "kind of traces")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 100, "number of traces")
	in := fs.String("in", "", "scripts to replay")
	out := fs.String("out", "", "output file")
	opsOut := fs.String("ops", "", "file for the calls made")
	verify := fs.Bool("verify", false, "evaluate scripts")
	query := fs.Bool("query", false, "record reported values")
	first := fs.Int("first", 1, "number of the first trace")
	bin := fs.String("bin", "", "command line tool")
	workers := fs.Int("workers", runtime.NumCPU(), "histories made at a time")
	dir := fs.String("dir", "", "scratch directory")
	must(fs.Parse(os.Args[2:]))

	switch os.Args[1] {
	case "universe":
		writeJSON(*out, newUniverse())
		return
	case "cli":
		runCLI(*bin, *dir, *n, *first, *seed, *out)
		return
	case "together":
		runTogether(*profile, *n, *first, *seed, *out)
		return
	case "gen", "replay":
	default:
		os.Exit(2)
	}

	var scripts []traceScript
	if os.Args[1] == "replay" {
		f, err := os.Open(*in)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			var t traceScript
			must(json.Unmarshal(sc.Bytes(), &t))
			scripts = append(scripts, t)
		}
		must(sc.Err())
		*n = len(scripts)
	} else if _, ok := profiles[*profile]; !ok {
		fmt.Println("unknown profile", *profile)
		os.Exit(2)
	}

	type result struct {
		events []byte
		ops    []byte
	}
	results := make([]result, *n)
	var wg sync.WaitGroup
	next := make(chan int)
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			u := newUniverse()
			w := newWorld(u, nil)
			w.verify, w.query = *verify, *query
			for i := range next {
				rng := rand.New(rand.NewSource(*seed*1000003 + int64(i)*7919))
				w.reset(*first + i)
				w.rng = rng
				if scripts != nil {
					for _, o := range scripts[i].Ops {
						if _, ok := w.do(o); !ok {
							break
						}
					}
				} else {
					g := &gen{w: w, u: u, r: rng, b: "b1", extra: rng.Float64() < 0.3}
					g.run(*profile)
				}
				var ev, ops []byte
				for _, e := range w.events {
					j, err := json.Marshal(e)
					must(err)
					ev = append(append(ev, j...), '\n')
				}
				j, err := json.Marshal(traceScript{w.ops})
				must(err)
				ops = append(j, '\n')
				results[i] = result{ev, ops}
				if w.dead {
					// a call may still be running
					w = newWorld(u, nil)
					w.verify, w.query = *verify, *query
				}
			}
		}()
	}
	for i := 0; i < *n && !hung.Load(); i++ {
		next <- i
	}
	close(next)
	wg.Wait()

	write := func(path string, get func(r result) []byte) {
		if path == "" {
			return
		}
		f, err := os.Create(path)
		must(err)
		for _, r := range results {
			_, err := f.Write(get(r))
			must(err)
		}
		must(f.Close())
	}
	write(*out, func(r result) []byte { return r.events })
	write(*opsOut, func(r result) []byte { return r.ops })
}
