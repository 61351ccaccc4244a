package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"sync"

	lc "github.com/google/licensecheck"
)

// Sessions of several goroutines.

type concCall struct {
	Kind string `json:"k"` // b: Scan; t: ParseType, String and Merge; s: Scanner.Scan; n: NewScanner, then Scan; l: BuiltinLicenses; nb: NewScanner(BuiltinLicenses()), then Scan
	S    int    `json:"s"`
	T    int    `json:"t"`
}

type concSession struct {
	Progs [][]concCall `json:"progs"`
	Sched [][2]int     `json:"sched"` // (1, g): let g make its next call; (2, g): wait for it to return; empty: all run freely
}

type concReq struct {
	Sets     [][]lic       `json:"sets"`
	Texts    [][]byte      `json:"texts"`
	Sessions []concSession `json:"sessions"`
}

func digest(ls []lc.License) string {
	h := sha256.New()
	for _, l := range ls {
		fmt.Fprintf(h, "%q %d %q %q\n", l.ID, l.Type, l.LRE, l.URL)
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:8])
}

func doCall(c concCall, sets [][]lc.License, scanners []*lc.Scanner, texts [][]byte) (a ans) {
	defer catch(&a)
	a.M = []match{}
	switch c.Kind {
	case "b":
		cover(lc.Scan(texts[c.T]), &a)
	case "s":
		cover(scanners[c.S].Scan(texts[c.T]), &a)
	case "n":
		s, err := lc.NewScanner(sets[c.S])
		if err != nil {
			a.Err = err.Error()
			return
		}
		cover(s.Scan(texts[c.T]), &a)
	case "nb":
		s, err := lc.NewScanner(lc.BuiltinLicenses())
		if err != nil {
			a.Err = err.Error()
			return
		}
		cover(s.Scan(texts[c.T]), &a)
	case "t":
		t := lc.Type(c.T)
		u, err := lc.ParseType(t.String())
		a.Pf = fmt.Sprint(t, u, err, t.Merge(lc.Notice), t.Merge(lc.NonCommercial|lc.Unrestricted), lc.Type(6).String())
		_, err = lc.ParseType("Notice|None|" + t.String())
		a.Err = fmt.Sprint(err)
	case "l":
		a.Pf = digest(lc.BuiltinLicenses())
	default:
		a.Panic = "unknown call " + c.Kind
	}
	return a
}

func conc(raw []byte, enc *json.Encoder) {
	var r concReq
	if err := json.Unmarshal(raw, &r); err != nil {
		panic(err)
	}
	var sets [][]lc.License
	var scanners []*lc.Scanner
	for _, l := range r.Sets {
		sets = append(sets, toLics(l))
		s, err := lc.NewScanner(sets[len(sets)-1])
		if err != nil {
			panic(err)
		}
		scanners = append(scanners, s)
	}
	before := make([]string, len(r.Texts))
	for i, t := range r.Texts {
		before[i] = string(t)
	}
	var out [][][]ans
	for _, ses := range r.Sessions {
		n := len(ses.Progs)
		got := make([][]ans, n)
		if len(ses.Sched) == 0 {
			var wg sync.WaitGroup
			start := make(chan bool)
			for g := range ses.Progs {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-start
					for _, c := range ses.Progs[g] {
						got[g] = append(got[g], doCall(c, sets, scanners, r.Texts))
					}
				}(g)
			}
			close(start)
			wg.Wait()
		} else {
			begin := make([]chan bool, n)
			began := make([]chan bool, n)
			end := make([]chan bool, n)
			for g := range ses.Progs {
				begin[g], began[g], end[g] = make(chan bool), make(chan bool), make(chan bool)
				go func(g int) {
					for _, c := range ses.Progs[g] {
						<-begin[g]
						began[g] <- true
						got[g] = append(got[g], doCall(c, sets, scanners, r.Texts))
						end[g] <- true
					}
				}(g)
			}
			for _, e := range ses.Sched {
				if e[0] == 1 {
					begin[e[1]-1] <- true
					<-began[e[1]-1]
				} else {
					<-end[e[1]-1]
				}
			}
		}
		out = append(out, got)
	}
	for i, t := range r.Texts {
		if string(t) != before[i] {
			out = append(out, [][]ans{{{Panic: fmt.Sprintf("text %d was modified", i)}}})
		}
	}
	enc.Encode(out)
}
