package ref

import (
	_ "embed"
	"sort"
	"strconv"
	"strings"
	"sync"
)

//go:embed texts.txt
var textsTxt string

//go:embed labels.txt
var labelsTxt string

// Texts holds what the text of a coded value says, by type and code.
var Texts = map[string]map[int64]string{}

// Codes holds the codes of Texts in order.
var Codes = map[string][]int64{}

// Labels holds the ends of the path of the value shown under a label.
var Labels = map[string][]string{}

func init() {
	for _, l := range strings.Split(textsTxt, "\n") {
		f := strings.SplitN(l, "\t", 3)
		if len(f) < 3 {
			continue
		}
		n, err := strconv.ParseInt(f[1], 10, 64)
		s, err2 := strconv.Unquote(f[2])
		if err != nil || err2 != nil {
			panic("texts.txt: " + l)
		}
		if Texts[f[0]] == nil {
			Texts[f[0]] = map[int64]string{}
		}
		Texts[f[0]][n] = Plain(s)
	}
	for t, m := range Texts {
		for k := range m {
			Codes[t] = append(Codes[t], k)
		}
		l := Codes[t]
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	}
	for _, l := range strings.Split(labelsTxt, "\n") {
		if f := strings.SplitN(l, "\t", 2); len(f) == 2 {
			Labels[f[0]] = strings.Split(f[1], ",")
		}
	}
}

// Plain is a text with single spaces between its words.
func Plain(s string) string {
	plain := true
	for i := 0; i < len(s) && plain; i++ {
		c := s[i]
		plain = c > ' ' && c < 0x80 && c != 0x7F || c == ' ' && i > 0 && i < len(s)-1 && s[i-1] != ' '
	}
	if plain {
		return s
	}
	return strings.Join(strings.Fields(s), " ")
}

// Misread tells what is wrong with the text of a coded value, or "". Other words for the same thing are not wrong.
func Misread(typ string, num int64, text string) string {
	table := Texts[typ]
	own, ok := table[num]
	text = Plain(text)
	if !ok || own == text {
		return ""
	}
	low, lowOwn := strings.ToLower(text), strings.ToLower(own)
	if strings.Contains(low, "unknown code") && !strings.Contains(lowOwn, "unknown") && !strings.Contains(lowOwn, "reserved") && !strings.Contains(lowOwn, "not assigned") {
		return "which has the meaning \"" + own + "\""
	}
	mine := alike(own, text)
	for k, v := range table {
		if k == num || v == own {
			continue
		}
		if v == text || alike(v, text) > mine {
			return "which has the meaning \"" + own + "\", not \"" + v + "\""
		}
	}
	a, b := numbers(own), numbers(text)
	if total(a) == total(b) {
		for n, c := range a {
			if b[n] != c {
				return "which has the meaning \"" + own + "\""
			}
		}
	}
	if Opposed(own, text) || shuffled(own, text) {
		return "which has the meaning \"" + own + "\""
	}
	return ""
}

// shuffled tells whether a text has only words of another, but in another order, or some of them more often.
func shuffled(own, text string) bool {
	a, b := words(own), words(text)
	m := map[string]int{}
	for _, w := range a {
		m[w]++
	}
	more := false
	for _, w := range b {
		if _, ok := m[w]; !ok {
			return false
		}
		m[w]--
		more = more || m[w] < 0
	}
	return more || len(a) == len(b) && strings.Join(a, " ") != strings.Join(b, " ")
}

func total(m map[string]int) (n int) {
	for _, c := range m {
		n += c
	}
	return
}

// turning are the words that alone turn a meaning into another.
var turning = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`not no non never without
		left right above below up down upward downward upwards downwards climb descend even odd north south east west
		available unavailable valid invalid true false yes no on off active inactive engaged disengaged enabled disabled
		operational inoperative supported unsupported reserved assigned unassigned airborne ground surface air
		maximum minimum max min more less fewer greater smaller lower higher upper least most
		< <= > >= \u2264 \u2265 = and or one two three four same different opposite preventive corrective
		magnetic true barometric geometric gnss baro ft feet m meters kt knots nm single multiple any none first second
		permanent temporary single normal supersonic known unknown capable incapable positive negative increase decrease`) {
		if v, err := strconv.Unquote("\"" + w + "\""); err == nil {
			w = v
		}
		turning[w] = true
	}
}

// Opposed tells whether two texts have the same words, but for some that turn the meaning.
func Opposed(a, b string) bool {
	m := map[string]int{}
	for _, w := range words(a) {
		m[w]++
	}
	for _, w := range words(b) {
		m[w]--
	}
	less, more, not := 0, 0, 0
	for w, c := range m {
		switch {
		case c == 0:
			continue
		case !turning[w]:
			return false
		case c < 0:
			more++
		default:
			less++
		}
		if w == "not" || w == "no" || w == "non" || w == "never" || w == "without" {
			not++
		}
	}
	return less > 0 && more > 0 || not > 0
}

func words(s string) []string {
	return strings.FieldsFunc(strings.ToLower(s), func(c rune) bool {
		return !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '.' || c == '<' || c == '>' || c == '=' || c > 127)
	})
}

// WordSet has the words of a text.
func WordSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range words(s) {
		m[w] = true
	}
	return m
}

func numbers(s string) map[string]int {
	out := map[string]int{}
	for _, w := range words(s) {
		if v, err := strconv.ParseFloat(strings.TrimRight(w, "."), 64); err == nil {
			out[strconv.FormatFloat(v, 'g', -1, 64)]++
		}
	}
	return out
}

// alike is the part of the words that two texts have in common.
func alike(a, b string) float64 {
	x, y := words(a), words(b)
	if len(x)+len(y) == 0 {
		return 0
	}
	m := map[string]int{}
	for _, w := range x {
		m[w]++
	}
	n := 0
	for _, w := range y {
		if m[w] > 0 {
			m[w]--
			n++
		}
	}
	return 2 * float64(n) / float64(len(x)+len(y))
}

var opposed sync.Map

// LabelsOpposed lists the known labels that an unknown one turns into something else.
func LabelsOpposed(label string) []string {
	if l, ok := opposed.Load(label); ok {
		return l.([]string)
	}
	l := []string{}
	for known := range Labels {
		if Opposed(known, label) {
			l = append(l, known)
		}
	}
	sort.Strings(l)
	opposed.Store(label, l)
	return l
}
