// Command vdriver runs google/licensecheck on behalf of the checks in /verif.
// It is built inside the module github.com/google/licensecheck by means of an
// overlay, reads one JSON request per line on standard input and writes one
// JSON answer per line on standard output.  It knows nothing about what the
// answers should be.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"unicode"

	lc "github.com/google/licensecheck"
)

type lic struct {
	ID   string `json:"id"`
	Type uint   `json:"type"`
	LRE  []byte `json:"lre"`
	URL  []byte `json:"url"`
}

type req struct {
	Op    string `json:"op"`
	Set   int    `json:"set"`
	Lics  []lic  `json:"lics"`
	Text  []byte `json:"text"`
	Runes []rune `json:"runes"`
	T, U  uint64
	S     string
	Parts []struct {
		T []byte `json:"t"`
		N int    `json:"n"`
	} `json:"parts"`
}

type match struct {
	ID    string `json:"id"`
	Type  uint64 `json:"type"`
	Start int    `json:"s"`
	End   int    `json:"e"`
	URL   bool   `json:"url"`
}

type ans struct {
	Err     string  `json:"err,omitempty"`
	Panic   string  `json:"panic,omitempty"`
	Pm      [2]int  `json:"pm"`           // Percent: whole thousandths, and millionths of a thousandth
	Pf      string  `json:"pf,omitempty"` // Percent exactly
	M       []match `json:"m"`
	Mutated bool    `json:"mutated,omitempty"`
}

func toLics(in []lic) []lc.License {
	var out []lc.License
	for _, l := range in {
		out = append(out, lc.License{ID: l.ID, Type: lc.Type(l.Type), LRE: string(l.LRE), URL: string(l.URL)})
	}
	return out
}

func catch(a *ans) {
	if e := recover(); e != nil {
		a.Panic = fmt.Sprint(e)
		if a.Panic == "" {
			a.Panic = "panic"
		}
	}
}

func newScanner(l []lc.License) (s *lc.Scanner, a ans) {
	defer catch(&a)
	s, err := lc.NewScanner(l)
	if err != nil {
		a.Err = err.Error()
		if a.Err == "" {
			a.Err = "error"
		}
		if s != nil {
			a.Panic = "an error and a scanner"
		}
		s = nil
	}
	if err == nil && s == nil {
		a.Panic = "neither an error nor a scanner"
	}
	return s, a
}

func cover(c lc.Coverage, a *ans) {
	a.Pf = fmt.Sprintf("%b", c.Percent)
	switch {
	case math.IsNaN(c.Percent) || math.IsInf(c.Percent, 0):
		a.Pm = [2]int{-1, 0}
	case c.Percent > 1000 || c.Percent < 0:
		a.Pm = [2]int{-2, 0}
	default:
		h, l := math.Modf(c.Percent * 1000)
		a.Pm = [2]int{int(h), int(math.Round(l * 1e6))}
	}
	a.M = []match{}
	for _, m := range c.Match {
		a.M = append(a.M, match{m.ID, uint64(m.Type), m.Start, m.End, m.IsURL})
	}
}

func scan(f func([]byte) lc.Coverage, text []byte) (a ans) {
	defer catch(&a)
	a.M = []match{}
	buf := append([]byte{}, text...)
	c := f(buf)
	cover(c, &a)
	a.Mutated = !bytes.Equal(buf, text)
	return a
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	enc := json.NewEncoder(out)
	sets := map[int]*lc.Scanner{}
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			var r req
			if e := json.Unmarshal(line, &r); e != nil {
				fmt.Fprintln(os.Stderr, "vdriver: bad request:", e)
				os.Exit(3)
			}
			if r.Op == "hist" {
				hist(line, enc)
			} else if r.Op == "conc" {
				conc(line, enc)
			} else {
				handle(r, sets, enc)
			}
			out.Flush()
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "vdriver:", err)
			os.Exit(3)
		}
	}
}

func handle(r req, sets map[int]*lc.Scanner, enc *json.Encoder) {
	switch r.Op {
	case "new":
		s, a := newScanner(toLics(r.Lics))
		sets[r.Set] = s
		enc.Encode(a)
	case "newbuiltin":
		s, a := newScanner(lc.BuiltinLicenses())
		sets[r.Set] = s
		enc.Encode(a)
	case "scan":
		s := sets[r.Set]
		if s == nil {
			enc.Encode(ans{Err: "no scanner", M: []match{}})
			return
		}
		enc.Encode(scan(s.Scan, r.Text))
	case "doc": // a text made of repeated parts; the built-in set if set < 0
		var t []byte
		for _, p := range r.Parts {
			t = append(t, bytes.Repeat(p.T, p.N)...)
		}
		if r.Set < 0 {
			enc.Encode(scan(lc.Scan, t))
		} else if s := sets[r.Set]; s != nil {
			enc.Encode(scan(s.Scan, t))
		} else {
			enc.Encode(ans{Err: "no scanner", M: []match{}})
		}
	case "drop":
		delete(sets, r.Set)
		enc.Encode(ans{})
	case "builtin":
		enc.Encode(scan(lc.Scan, r.Text))
	case "listhash":
		enc.Encode(listHash(lc.BuiltinLicenses()))
	case "list":
		var out []lic
		for _, l := range lc.BuiltinLicenses() {
			out = append(out, lic{l.ID, uint(l.Type), []byte(l.LRE), []byte(l.URL)})
		}
		enc.Encode(out)
	case "merge":
		enc.Encode(uint64(lc.Type(r.T).Merge(lc.Type(r.U))))
	case "string":
		enc.Encode(lc.Type(r.T).String())
	case "parse":
		t, err := lc.ParseType(r.S)
		enc.Encode(map[string]interface{}{"err": err != nil, "t": uint64(t)})
	case "consts":
		enc.Encode(map[string]uint64{
			"Unknown": uint64(lc.Unknown), "Unrestricted": uint64(lc.Unrestricted), "Notice": uint64(lc.Notice),
			"ShareChanges": uint64(lc.ShareChanges), "ShareProgram": uint64(lc.ShareProgram),
			"ShareServer": uint64(lc.ShareServer), "NonCommercial": uint64(lc.NonCommercial),
			"Discouraged": uint64(lc.Discouraged)})
	case "utab": // the Unicode facts about some code points
		out := [][4]int{}
		for _, c := range r.Runes {
			b := func(x bool) int {
				if x {
					return 1
				}
				return 0
			}
			min := c
			for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
				if f < min {
					min = f
				}
			}
			st := unicode.IsLetter(c) || unicode.IsDigit(c)
			out = append(out, [4]int{int(c), b(st), b(st || unicode.Is(unicode.Mn, c)), int(min)})
		}
		enc.Encode(out)
	default:
		fmt.Fprintln(os.Stderr, "vdriver: unknown op", r.Op)
		os.Exit(3)
	}
}
