package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"

	lc "github.com/google/licensecheck"
)

// Histories: sequences of calls and of changes a caller makes to its own data.

type histReq struct {
	Lists [][]lic  `json:"lists"` // contents a license list may have
	Texts [][]byte `json:"texts"` // contents a text may have
	NL    int      `json:"nl"`
	NT    int      `json:"nt"`
	NK    int      `json:"nk"`
	Runs  [][]struct {
		Op string
		A  int
		B  int
	} `json:"runs"`
}

type histState struct {
	Lists []int  `json:"lists"` // pool number, 0 if no pool entry
	Texts []int  `json:"texts"`
	Bl    int    `json:"bl"`
	Res   []ans  `json:"res"`
	Own   []bool `json:"own"`
	Err   string `json:"err,omitempty"`
	Panic string `json:"panic,omitempty"`
	Hash  string `json:"hash,omitempty"` // of the list BuiltinLicenses has just returned
}

func listHash(l []lc.License) string {
	h := fnv.New64a()
	for _, x := range l {
		fmt.Fprintf(h, "%q %q %q %d\n", x.ID, x.LRE, x.URL, uint(x.Type))
	}
	return fmt.Sprintf("%d/%x", len(l), h.Sum64())
}

const junkLen = 3 // spare capacity behind everything the caller hands over

func sameLics(a, b []lc.License) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var junkLic = lc.License{ID: "junk", LRE: "junk junk", URL: "junk"}

// setList overwrites the list in place, leaving junk behind it.
func setList(buf []lc.License, l []lc.License) []lc.License {
	for i := range buf {
		buf[i] = junkLic
	}
	copy(buf, l)
	return buf[:len(l)]
}

func setText(buf, t []byte) []byte {
	for i := range buf {
		buf[i] = 0xfe
	}
	copy(buf, t)
	return buf[:len(t)]
}

func poolList(cur []lc.License, pool [][]lc.License) int {
	full := cur[:cap(cur)]
	for i := len(cur); i < len(full); i++ {
		if full[i] != junkLic {
			return 0
		}
	}
	for i, p := range pool {
		if sameLics(cur, p) {
			return i + 1
		}
	}
	return 0
}

func poolText(cur []byte, pool [][]byte) int {
	full := cur[:cap(cur)]
	for i := len(cur); i < len(full); i++ {
		if full[i] != 0xfe {
			return 0
		}
	}
	for i, p := range pool {
		if string(cur) == string(p) {
			return i + 1
		}
	}
	return 0
}

var origBuiltin []lc.License // a deep enough copy of the list of the first call

func hist(raw []byte, enc *json.Encoder) {
	var r histReq
	if err := json.Unmarshal(raw, &r); err != nil {
		panic(err)
	}
	var pool [][]lc.License
	maxl, maxt := 0, 0
	for _, l := range r.Lists {
		pool = append(pool, toLics(l))
		if len(l) > maxl {
			maxl = len(l)
		}
	}
	for _, t := range r.Texts {
		if len(t) > maxt {
			maxt = len(t)
		}
	}
	all := [][]histState{}
	for _, run := range r.Runs {
		lists := make([][]lc.License, r.NL)
		for j := range lists {
			lists[j] = setList(make([]lc.License, maxl+junkLen), pool[0])
		}
		texts := make([][]byte, r.NT)
		for j := range texts {
			texts[j] = setText(make([]byte, maxt+junkLen), r.Texts[0])
		}
		scanners := make([]*lc.Scanner, r.NK)
		var bl []lc.License
		edited := false
		var kept []lc.Coverage
		var own []bool
		var states []histState
		for _, op := range run {
			st := histState{}
			func() {
				defer func() {
					if e := recover(); e != nil {
						st.Panic = fmt.Sprint("panic: ", e)
					}
				}()
				switch op.Op {
				case "new":
					s, err := lc.NewScanner(lists[op.B-1])
					if err != nil {
						st.Err = err.Error()
					} else {
						scanners[op.A-1] = s
					}
				case "scan":
					kept = append(kept, scanners[op.A-1].Scan(texts[op.B-1]))
					own = append(own, false)
				case "scanb":
					kept = append(kept, lc.Scan(texts[op.A-1]))
					own = append(own, false)
				case "builtin":
					bl = lc.BuiltinLicenses()
					edited = false
					st.Hash = listHash(bl)
					if origBuiltin == nil {
						origBuiltin = append([]lc.License(nil), bl...)
					}
				case "editb":
					for i := range bl {
						bl[i].LRE = ""
						bl[i].ID = "edited"
						bl[i].URL = "edited"
						bl[i].Type = 77
					}
					_ = append(bl, junkLic)
					edited = true
				case "editlist":
					lists[op.A-1] = setList(lists[op.A-1][:maxl+junkLen], pool[op.B-1])
				case "edittext":
					texts[op.A-1] = setText(texts[op.A-1][:maxt+junkLen], r.Texts[op.B-1])
				case "forget":
					kept, own = kept[1:], own[1:]
				case "scribble":
					c := &kept[op.A-1]
					full := c.Match[:cap(c.Match)]
					for i := range full {
						full[i] = lc.Match{ID: "scribble", Start: -1, End: -2, Type: 99, IsURL: true}
					}
					own[op.A-1] = true
				default:
					panic("unknown op " + op.Op)
				}
			}()
			for _, l := range lists {
				st.Lists = append(st.Lists, poolList(l, pool))
			}
			for _, t := range texts {
				st.Texts = append(st.Texts, poolText(t, r.Texts))
			}
			switch {
			case bl == nil:
				st.Bl = 0
			case edited:
				st.Bl = 2
				for _, l := range bl {
					if l.ID != "edited" || l.LRE != "" || l.URL != "edited" || l.Type != 77 {
						st.Bl = 3
					}
				}
			case sameLics(bl, origBuiltin):
				st.Bl = 1
			default:
				st.Bl = 3
			}
			for i, c := range kept {
				var a ans
				if own[i] {
					for _, m := range c.Match {
						if m.ID != "scribble" || m.Start != -1 || m.End != -2 {
							a.Err = "changed"
						}
					}
				} else {
					cover(c, &a)
				}
				st.Res = append(st.Res, a)
				st.Own = append(st.Own, own[i])
			}
			states = append(states, st)
			if st.Panic != "" || st.Err != "" {
				break
			}
		}
		all = append(all, states)
	}
	enc.Encode(all)
}
