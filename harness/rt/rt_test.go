package rt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"testing"
	"time"
)

// A job is a range of cases of one workload; the process runs every Step-th of them.
type job struct {
	Mode string // history, copy, lookup, conc
	Prof string
	From int
	To   int
	Step int
}

type shardCfg struct {
	Prop    string
	Seed    uint64
	Jobs    []job
	Race    bool
	NoSleep bool
	Root    string
	Out     string
	Trace   bool
	Budget  float64 // seconds; 0: none
}

type found struct {
	Prop, Msg, Mode, Prof string
	Idx                   int
	Trace                 []string
}

type shardOut struct {
	Evals   map[string]int
	Sigs    map[string][]uint64
	Counts  map[string]int
	Samples map[string][]string
	Found   []found
	Done    bool
	Skipped int
}

// TestShard runs the jobs named by the file in VERIF_SHARD.
func TestShard(t *testing.T) {
	file := os.Getenv("VERIF_SHARD")
	if file == "" {
		t.Skip("VERIF_SHARD is not set")
	}
	data, err := os.ReadFile(file)
	must(err)
	var cfg shardCfg
	must(json.Unmarshal(data, &cfg))
	status, err := os.Create(cfg.Out + ".status")
	must(err)
	go watchdog(cfg.Out + ".hang")
	rec := newRec()
	out := shardOut{}
	per := map[string]int{}
	// A data race ends the test in the middle of a case.
	defer func() {
		out.Evals, out.Counts, out.Samples = rec.Evals, rec.Counts, rec.Samples
		out.Sigs = map[string][]uint64{}
		for p, m := range rec.Sigs {
			for h := range m {
				out.Sigs[p] = append(out.Sigs[p], h)
			}
		}
		b, err := json.Marshal(out)
		must(err)
		must(os.WriteFile(cfg.Out, b, 0644))
	}()
	start := time.Now()
	for ji, j := range cfg.Jobs {
		switch {
		case cfg.Race:
		case j.Mode == "conc":
			runtime.GOMAXPROCS(4)
		default:
			runtime.GOMAXPROCS(2)
		}
		for i := j.From; i < j.To; i += j.Step {
			if cfg.Budget > 0 && time.Since(start).Seconds() > cfg.Budget {
				out.Skipped += (j.To - i + j.Step - 1) / j.Step
				break
			}
			_, err = status.WriteAt([]byte(fmt.Sprintf("%-80s", fmt.Sprintf("%d %s %s %d", ji, j.Mode, j.Prof, i))), 0)
			must(err)
			progress.Add(1)
			var v []Viol
			var tr []string
			switch j.Mode {
			case "history":
				v, tr = History(t, rec, cfg.Root, j.Prof, cfg.Seed, uint64(i), cfg.NoSleep)
			case "copy":
				v, tr = Copies(t, rec, cfg.Root, cfg.Seed, uint64(i))
			case "leak":
				v, tr = Leaks(t, rec, cfg.Root, cfg.Seed, uint64(i))
			case "dense":
				v, tr = Dense(t, rec, cfg.Root, cfg.Seed, uint64(i))
			case "lookup":
				v, tr = Lookups(rec, cfg.Seed, uint64(i))
			case "conc":
				v, tr = Conc(t, rec, cfg.Root, cfg.Seed, uint64(i), cfg.Race)
			default:
				t.Fatal("unknown mode " + j.Mode)
			}
			for _, x := range v {
				if per[x.Prop]++; per[x.Prop] > 3 {
					continue
				}
				f := found{Prop: x.Prop, Msg: x.Msg, Mode: j.Mode, Prof: j.Prof, Idx: i}
				if x.Prop == cfg.Prop {
					f.Trace = tr
				}
				out.Found = append(out.Found, f)
			}
			if per[cfg.Prop] >= 3 {
				break
			}
		}
	}
	out.Done = true
}

// watchdog ends the process when nothing has happened for a long time. It counts
// its own turns rather than seconds, so that a stalled machine does not matter.
func watchdog(file string) {
	last, idle, blocked := progressNow(), 0, 0
	for {
		time.Sleep(100 * time.Millisecond)
		if n := progressNow(); n != last {
			last, idle, blocked = n, 0, 0
			continue
		}
		if idle++; idle < 200 {
			continue
		}
		buf := make([]byte, 4<<20)
		st := string(buf[:runtime.Stack(buf, true)])
		kind := classify(st)
		if kind == "blocked" {
			blocked++
		} else {
			blocked = 0
		}
		// A running goroutine may wait for the runtime at the moment.
		if (kind == "busy" || kind == "blocked" && blocked < 30) && idle < 900 {
			continue
		}
		must(os.WriteFile(file, []byte(kind+"\n"+st), 0644))
		os.Exit(3)
	}
}

// classify says why nothing happens: "artifact" if a plugin function of ours
// sleeps in virtual time, which cannot pass while another goroutine waits for a
// lock; "busy" if some goroutine is running; "blocked" if code of the
// library is waiting for something; "unknown" otherwise.
func classify(stacks string) string {
	kind := "unknown"
	for _, g := range strings.Split(stacks, "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(g, "rt.watchdog") {
			continue
		}
		lib := strings.Contains(g, "github.com/edwingeng/hotswap.") || strings.Contains(g, "github.com/edwingeng/hotswap/")
		switch {
		case strings.Contains(head, "[sleep") && strings.Contains(g, "verif/rt.") && lib && !strings.Contains(g, "created by github.com/edwingeng/hotswap"),
			strings.Contains(head, "[sleep") && strings.Contains(g, "verif/rt.(*World).fault"),
			strings.Contains(head, "[sleep") && strings.Contains(g, "verif/rt.(*World).callback"):
			return "artifact"
		case strings.Contains(head, "[runn"):
			if lib {
				return "busy"
			}
			if kind == "unknown" {
				kind = "busy"
			}
		case lib && kind != "busy":
			kind = "blocked"
		}
	}
	return kind
}
