package h

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// Engine self-tests: results are observed and compared with the native run of sampled paths.

func S00_isprint() {
	r := rune(sym.Int("r", 0x100, 0x1ffff))
	p := strconv.IsPrint(r)
	sym.ObserveInt("r", int(r))
	sym.Observe("p", strconv.FormatBool(p))
}

var tbl = []uint16{3, 7, 19, 40, 41, 90, 200, 300}

func S00_bsearch() {
	v := uint16(sym.Int("v", 0, 400))
	i, j := 0, len(tbl)
	for i < j {
		h := i + (j-i)>>1
		if tbl[h] < v {
			i = h + 1
		} else {
			j = h
		}
	}
	k := sort.Search(len(tbl), func(i int) bool { return tbl[i] >= v })
	sym.Assert(i == k, "bsearch")
	if i < len(tbl) {
		sym.Assert(tbl[i] >= v, "ge")
		_ = tbl[i&^1]
		_ = tbl[i|1]
	}
}

func S00_arith() {
	a := int32(sym.Int("a", -70000, 70000))
	b := uint8(sym.Byte("b"))
	c := int8(sym.Byte("c"))
	sym.ObserveInt("mul", int(a*a))
	sym.ObserveInt("sh", int(a<<(b&7)))
	sym.ObserveInt("sr", int(a>>(b&31)))
	sym.ObserveInt("u8", int(b+200))
	sym.ObserveInt("i8", int(c+100))
	sym.ObserveInt("i8n", int(-c))
	sym.ObserveInt("cv", int(uint16(int16(c))))
	sym.ObserveInt("xor", int(b^uint8(c)))
	sym.ObserveInt("andnot", int(b&^uint8(c)))
	if c != 0 {
		sym.ObserveInt("div", int(a)/int(c))
		sym.ObserveInt("rem", int(a)%int(c))
	}
	if a > 5 && b < 10 || c == 3 {
		sym.ObserveInt("k", 1)
	}
}

func S00_strings() {
	s := sym.Bytes("s", 4, "aAb,;\n \t'")
	sym.Observe("up", strings.ToUpper(s))
	sym.Observe("trim", strings.TrimSpace(s))
	sym.Observe("tr", strings.Trim(s, "'"))
	sym.Observe("ra", strings.ReplaceAll(s, "a", "xy"))
	sym.Observe("split", strings.Join(strings.Split(s, ";"), "|"))
	sym.Observe("fields", strings.Join(strings.Fields(s), "|"))
	sym.ObserveInt("idx", strings.Index(s, "a,"))
	sym.ObserveInt("cnt", strings.Count(s, "a"))
	sym.Observe("b", strconv.FormatBool(strings.Contains(s, "aA") || strings.HasPrefix(s, "b")))
	sym.Observe("f", fmt.Sprintf("%s-%v-%d", s, s, len(s)))
}

func S00_utf8() {
	s := sym.Bytes("s", 3, "")
	n := 0
	for _, r := range s {
		n = n*7 + int(r)
		if unicode.IsSpace(r) {
			n++
		}
	}
	sym.Observe("s", s)
	sym.ObserveInt("n", n)
	sym.ObserveInt("runes", len([]rune(s)))
}

func S00_maps() {
	m := map[string]int{"a": 1, "b": 2}
	k := sym.Bytes("k", 1, "abc")
	m[k] += 5
	v, ok := m["c"]
	sym.ObserveInt("v", v)
	sym.Observe("ok", strconv.FormatBool(ok))
	sym.ObserveInt("a", m["a"])
	sym.ObserveInt("len", len(m))
	delete(m, k)
	ks := []string{}
	for x := range m {
		ks = append(ks, x)
	}
	sort.Strings(ks)
	sym.Observe("ks", strings.Join(ks, ","))
}

type tnode struct {
	n    int
	next *tnode
	tags []string
}

func S00_structs() {
	x := sym.Int("x", 0, 3)
	a := tnode{n: x, tags: []string{"p"}}
	b := a
	b.n++
	b.next = &a
	b.next.tags = append(b.next.tags, "q")
	var i interface{} = b
	if t, ok := i.(tnode); ok {
		t.n = 100
		sym.ObserveInt("t", t.next.n)
	}
	arr := [3]int{1, 2, 3}
	arr2 := arr
	arr2[x%3] = 9
	sym.ObserveInt("arr", arr[0]*100+arr[1]*10+arr[2])
	sym.ObserveInt("arr2", arr2[0]*100+arr2[1]*10+arr2[2])
	func() {
		defer func() {
			if r := recover(); r != nil {
				sym.Observe("rec", fmt.Sprint(r))
			}
		}()
		s := []int{1, 2, 3}
		sym.ObserveInt("el", s[x])
	}()
	sym.Observe("v", fmt.Sprintf("%v %+v %T", b.tags, b.n, b))
}
