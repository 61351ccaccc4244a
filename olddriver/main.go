// Command olddriver runs package old of google/licensecheck on behalf of the
// checks in /verif: one JSON request per line in, one JSON answer per line out.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"unicode"

	"github.com/google/licensecheck/old"
)

type lic struct {
	Name []byte `json:"name"`
	Text []byte `json:"text"`
	URL  []byte `json:"url"`
}

type opts struct {
	Min       int `json:"min"`
	Threshold int `json:"threshold"`
	Slop      int `json:"slop"`
}

type req struct {
	Op    string `json:"op"`
	Set   int    `json:"set"`
	Lics  []lic  `json:"lics"`
	Text  []byte `json:"text"`
	Opts  opts   `json:"opts"`
	Runes []rune `json:"runes"`
	Types []int  `json:"types"`
}

type match struct {
	Name []int `json:"name"`
	Type int   `json:"type"`
	Pct  int   `json:"pct"`
	S    int   `json:"s"`
	E    int   `json:"e"`
	URL  bool  `json:"url"`
}

type ans struct {
	Panic   string  `json:"panic,omitempty"`
	Ok      bool    `json:"ok"`
	Pct     int     `json:"pct"` // in millionths, cut off
	M       []match `json:"m"`
	Mutated bool    `json:"mutated"`
}

// micro returns x in millionths, cut off, or -1 if x is no number from 0 to 2000.
func micro(x float64) int {
	if !(x >= 0 && x <= 2000) {
		return -1
	}
	f := new(big.Float).SetPrec(200).SetFloat64(x)
	f.Mul(f, big.NewFloat(1e6))
	i, _ := f.Int64()
	return int(i)
}

func nums(s string) []int {
	out := []int{}
	for i := 0; i < len(s); i++ {
		out = append(out, int(s[i]))
	}
	return out
}

func catch(a *ans) {
	if e := recover(); e != nil {
		a.Panic = "panic: " + fmt.Sprint(e)
	}
}

func newChecker(in []lic) (c *old.Checker, a ans) {
	defer catch(&a)
	a.M = []match{}
	var l []old.License
	for _, x := range in {
		l = append(l, old.License{Name: string(x.Name), Text: string(x.Text), URL: string(x.URL)})
	}
	return old.New(l), a
}

func cover(c *old.Checker, text []byte, o opts) (a ans) {
	defer catch(&a)
	a.M = []match{}
	buf := append([]byte{}, text...)
	cov, ok := c.Cover(buf, old.Options{MinLength: o.Min, Threshold: o.Threshold, Slop: o.Slop})
	a.Ok = ok
	a.Pct = micro(cov.Percent)
	for _, m := range cov.Match {
		a.M = append(a.M, match{nums(m.Name), int(m.Type), micro(m.Percent), m.Start, m.End, m.IsURL})
	}
	a.Mutated = !bytes.Equal(buf, text)
	return a
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(out)
	sets := map[int]*old.Checker{}
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			var r req
			if e := json.Unmarshal(line, &r); e != nil {
				fmt.Fprintln(os.Stderr, "olddriver: bad request:", e)
				os.Exit(3)
			}
			switch r.Op {
			case "new":
				c, a := newChecker(r.Lics)
				sets[r.Set] = c
				enc.Encode(a)
			case "cover":
				c := sets[r.Set]
				if c == nil {
					enc.Encode(ans{Panic: "no checker", M: []match{}})
				} else {
					enc.Encode(cover(c, r.Text, r.Opts))
				}
			case "types":
				names := [][]int{}
				for _, t := range r.Types {
					names = append(names, nums(old.Type(t).String()))
				}
				enc.Encode(names)
			case "utab":
				o := [][3]int{}
				for _, c := range r.Runes {
					l := 0
					if unicode.IsLetter(c) {
						l = 1
					}
					o = append(o, [3]int{int(c), l, int(unicode.ToLower(c))})
				}
				enc.Encode(o)
			}
			out.Flush()
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			os.Exit(3)
		}
	}
}
