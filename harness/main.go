//go:build go1.21

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"verifsim"
)

// WorkerOut is what a worker writes.
type WorkerOut struct {
	Stats    *Stats    `json:"stats"`
	Case     *CaseFile `json:"case,omitempty"`
	LastIdx  int64     `json:"last_index"`
	TimedOut bool      `json:"timed_out"`
	WallS    float64   `json:"wall_s"`
}

func raceLogReader() func() string {
	// GORACE log_path is passed again in VERIF_RACELOG, since the runtime keeps it to itself
	path := os.Getenv("VERIF_RACELOG")
	if path == "" {
		return func() string { return "" }
	}
	path = fmt.Sprintf("%s.%d", path, os.Getpid())
	off := 0
	return func() string {
		b, err := os.ReadFile(path)
		if err != nil || len(b) <= off {
			return ""
		}
		s := string(b[off:])
		off = len(b)
		if i := strings.Index(s, "=================="); i >= 0 {
			if j := strings.Index(s[i+18:], "=================="); j >= 0 {
				s = s[i : i+36+j] // the first report
			}
		}
		return s
	}
}

func note(path string, i int64) {
	if path != "" {
		os.WriteFile(path, []byte(fmt.Sprintf("%020d", i)), 0644)
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: simbin run|replay|list")
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	fs.StringVar(&onlySubject, "subject", "", "only this subject (development)")
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	start := fs.Int64("start", 0, "first case index")
	step := fs.Int64("step", 1, "")
	end := fs.Int64("end", 1, "one past the last case index")
	only := fs.String("scenario", "", "")
	out := fs.String("out", "", "result file")
	budget := fs.Float64("budget", 1e9, "seconds")
	in := fs.String("in", "", "replay file")
	progress := fs.String("progress", "", "file that names the case being run, for a process that does not survive it")
	verbose := fs.Bool("v", false, "")
	trace := fs.Bool("trace", false, "")
	fs.Parse(os.Args[2:])
	stdout := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && !*verbose {
		os.Stdout = null
	}
	rl := raceLogReader()
	t0 := time.Now()
	switch mode {
	case "list":
		for id, p := range props {
			fmt.Fprintln(stdout, id, strings.Join(scenNames(p), " "))
		}
	case "run":
		p := props[*prop]
		if p == nil {
			fatal("no property %s", *prop)
		}
		st := newStats()
		o := WorkerOut{Stats: st}
		for i := *start; i < *end; i += *step {
			if time.Since(t0).Seconds() > *budget {
				o.TimedOut = true
				break
			}
			t1 := time.Now()
			note(*progress, i)
			v, c := runCase(p, *seed, i, *only, st, nil, false, rl)
			o.LastIdx = i
			if *verbose {
				fmt.Fprintf(stdout, "case %d %s runs=%d %.0fms %s\n", i, c.scen.Name, len(c.rec), time.Since(t1).Seconds()*1000, strings.Join(c.desc, "; "))
			}
			if v != nil {
				cf := &CaseFile{Property: *prop, Scenario: c.scen.Name, VerifSeed: *seed, Index: i, Race: verifsim.RaceEnabled, Class: v.Class, Msg: strings.Join(c.desc, "; ") + "\n" + v.Msg, Runs: c.rec, RangeStart: *start, RangeStep: *step}
				for _, r := range c.rec {
					cf.OrigDecs += len(r.Decisions)
				}
				o.Case = cf
				break
			}
		}
		for h := range st.hashes {
			st.Hashes = append(st.Hashes, h)
		}
		o.WallS = time.Since(t0).Seconds()
		if *out != "" {
			writeJSON(*out, o)
		} else {
			st.Hashes = nil
			b, _ := json.MarshalIndent(o.Stats, "", " ")
			fmt.Fprintln(stdout, string(b))
			if o.Case != nil {
				fmt.Fprintf(stdout, "VIOLATION %s/%s index %d: %s: %s\n", o.Case.Property, o.Case.Scenario, o.Case.Index, o.Case.Class, o.Case.Msg)
			}
		}
	case "replay":
		b, err := os.ReadFile(*in)
		if err != nil {
			fatal("%v", err)
		}
		cf := &CaseFile{}
		if err := json.Unmarshal(b, cf); err != nil {
			fatal("%v", err)
		}
		p := props[cf.Property]
		if p == nil {
			fatal("no property %q", cf.Property)
		}
		if cf.Race != verifsim.RaceEnabled {
			fatal("replay file is for the other build (race_build=%v)", cf.Race)
		}
		st := newStats()
		var v *Violation
		var c *C
		if cf.NeedRange {
			for i := cf.RangeStart; i <= cf.Index; i += cf.RangeStep {
				v, c = runCase(p, cf.VerifSeed, i, "", st, nil, false, rl)
				if v != nil {
					break
				}
			}
		} else {
			v, c = runCase(p, cf.VerifSeed, cf.Index, cf.Scenario, st, cf, *trace, rl)
		}
		// the hash covers what every run of the case did, and the verdict
		res := map[string]interface{}{"class": "", "message": "", "log_hash": fmt.Sprintf("%016x", st.LogHash)}
		if v != nil {
			res["class"], res["message"] = v.Class, strings.Join(c.desc, "; ")+"\n"+v.Msg
		}
		res["runs"] = c.rec
		if *out != "" {
			writeJSON(*out, res)
		} else {
			if v != nil {
				fmt.Fprintf(stdout, "%s: %s\n", v.Class, res["message"])
			} else {
				fmt.Fprintln(stdout, "no violation")
			}
			fmt.Fprintf(stdout, "log_hash %016x\n", st.LogHash)
		}
	default:
		fatal("unknown mode %s", mode)
	}
	_ = filepath.Base
}
