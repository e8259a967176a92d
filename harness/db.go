package main

import (
	"context"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/benbjohnson/clock"
	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
)

// The "db" driver: histories of operations on hash databases, see spec/FabDB.tla.

func init() {
	subcmds["db"] = dbRun
}

type (
	dbop struct {
		Op string `json:"op"`
		Hd int    `json:"hd"`
		H  int    `json:"h"`
	}
	dbround struct {
		R    string `json:"r"` // open, close, advance, ops, main
		Hd   int    `json:"hd"`
		Keep int    `json:"keep"` // ms
		Upd  bool   `json:"upd"`
		D    int    `json:"d"` // ms
		Ops  []dbop `json:"ops"`
	}
	dbscript struct {
		Prog  struct{}  `json:"prog"`
		Steps []dbround `json:"steps"`
		Seed  int64     `json:"seed"`
		Style string    `json:"style"` // of hashes
		Fab   bool      `json:"fab"`   // the last time is now, handle 9 is opened with fab.OpenHashDB, and times are in seconds
	}
	dbtrace struct {
		Prog   struct{} `json:"prog"`
		Events []fevent `json:"events"`
	}
)

func dbHash(style string, h int) []byte {
	switch style {
	case "short":
		return []byte{byte(h)}
	case "zeros":
		return make([]byte, h)
	case "prefix":
		b := make([]byte, 28)
		b[27] = byte(h)
		return b
	case "suffix":
		b := make([]byte, 28)
		b[0] = byte(h)
		return b
	case "text":
		return []byte(fmt.Sprint(h))
	case "space":
		return append([]byte("x"), make([]byte, h)...)
	}
	s := sha256.Sum224([]byte{byte(h)})
	return s[:]
}

func (s dbscript) exec(dir string, idx int) dbtrace {
	tr := dbtrace{Events: []fevent{}}
	r := rand.New(rand.NewSource(s.Seed))
	var mu sync.Mutex
	emit := func(ev fevent) {
		mu.Lock()
		tr.Events = append(tr.Events, ev)
		mu.Unlock()
	}
	sub := filepath.Join(dir, fmt.Sprintf("db%d", idx))
	must(os.MkdirAll(sub, 0755))
	defer os.RemoveAll(sub)
	name := filepath.Join(sub, "hash.db")
	clk := clock.NewMock()
	start := time.Unix(1700000000, 0)
	unit := time.Millisecond
	if s.Fab {
		unit = time.Second
		start = time.Now()
		for _, step := range s.Steps {
			if step.R == "advance" {
				start = start.Add(-time.Duration(step.D) * unit)
			}
		}
	}
	clk.Set(start)
	handles := make(map[int]*sqlite.DB)
	defer func() {
		for _, db := range handles {
			db.Close()
		}
	}()
	ctx := context.Background()
	n := 0
	for _, step := range s.Steps {
		switch step.R {
		case "open":
			var opts []sqlite.Option
			// (In any order.)
			opts = append(opts, sqlite.WithClock(clk))
			if step.Keep > 0 || r.Intn(2) == 0 {
				opts = append(opts, sqlite.Keep(time.Duration(step.Keep)*unit))
			}
			if !step.Upd || r.Intn(2) == 0 {
				opts = append(opts, sqlite.UpdateOnAccess(step.Upd))
			}
			r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
			var (
				db  *sqlite.DB
				err error
			)
			if s.Fab && step.Hd == 9 {
				db, err = fab.OpenHashDB(sub)
			} else {
				db, err = sqlite.Open(name, opts...)
			}
			ev := fevent{"e": "open", "x": step.Hd, "keep": step.Keep, "upd": step.Upd}
			if err != nil {
				ev["e"] = "panic"
				ev["err"] = err.Error()
			}
			emit(ev)
			if err != nil {
				return tr
			}
			handles[step.Hd] = db
		case "close":
			ev := fevent{"e": "close", "x": step.Hd}
			if err := handles[step.Hd].Close(); err != nil {
				ev["e"] = "panic"
				ev["err"] = err.Error()
			}
			emit(ev)
			delete(handles, step.Hd)
		case "advance":
			clk.Add(time.Duration(step.D) * unit)
			emit(fevent{"e": "advance", "x": 0, "d": step.D})
		case "ops":
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for _, op := range step.Ops {
				op := op
				n++
				i := n
				sleep := time.Duration(r.Intn(300)) * time.Microsecond
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					if len(step.Ops) < 10 {
						time.Sleep(sleep)
					}
					h := dbHash(s.Style, op.H)
					db := handles[op.Hd]
					emit(fevent{"e": "begin", "x": i, "op": op.Op, "hd": op.Hd, "h": op.H})
					var (
						res bool
						err error
					)
					if op.Op == "add" {
						err = db.Add(ctx, h)
					} else {
						res, err = db.Has(ctx, h)
					}
					ev := fevent{"e": "end", "x": i, "res": res, "err": err != nil}
					if err != nil {
						ev["msg"] = err.Error()
					}
					emit(ev)
				}()
			}
			close(gate)
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(4 * hangTimeout):
				emit(fevent{"e": "stuck", "x": 0})
				mu.Lock()
				defer mu.Unlock()
				return dbtrace{Events: append([]fevent{}, tr.Events...)}
			}
		default:
			panic("HARNESS: bad round " + step.R)
		}
	}
	return tr
}

func dbRun(args []string) error {
	f := newFlags("db")
	f.Parse(args)
	var scripts []dbscript
	if err := readJSON(f.in, &scripts); err != nil {
		return err
	}
	return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(tr any) bool {
		evs := tr.(dbtrace).Events
		return len(evs) > 0 && evs[len(evs)-1]["e"] == "stuck"
	})
}
