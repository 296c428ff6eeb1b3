package checks

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// shows checks that a report shows what its message holds: the meaning of every coded value, and each value under its own label.
// Lines without a known label, and other words for the same thing, are left alone.
func shows(r *core.Run, seen map[string]bool, what, name string, obj interface{}, exps []ref.Exp, declared map[string]ref.Exp, text string) {
	fs, p := sut.Fields(obj)
	if p != "" {
		r.Fail("panic", "%s: the text of a value of a %s panics: %s", what, name, p)
		return
	}
	for _, f := range fs {
		if f.Type == "" || ref.Texts[f.Type] == nil {
			continue
		}
		r.Count("checks")
		r.Count("coded values")
		if s := ref.Misread(f.Type, f.Num, f.Text); s != "" {
			r.Fail("meaning:"+f.Type+":"+strconv.FormatInt(f.Num, 10), "%s: %s of a %s is %d, %s, but is reported as %q", what, f.Path, name, f.Num, s, f.Text)
			return
		}
	}
	whole := ref.Plain(text)
	if !c16heads(r, what, name, obj, text, whole) {
		return
	}
	// What has a text of its own is there with that text, or at least with its words.
	var have map[string]bool
	for _, f := range fs {
		if !f.Own {
			continue
		}
		r.Count("checks")
		r.Count("texts of values sought in the report")
		if strings.Contains(text, f.Text) || strings.Contains(whole, ref.Plain(f.Text)) {
			continue
		}
		if have == nil {
			have = ref.WordSet(text)
		}
		for w := range ref.WordSet(f.Text) {
			if !have[w] {
				r.Fail("shown:"+name+":"+f.Path, "%s: %s of a %s is %q, but the report does not show it: %q", what, f.Path, name, f.Text, text)
				return
			}
		}
	}
	// The other values of the coded types of this message.
	for i := range fs {
		f := &fs[i]
		if f.Type == "" || ref.Texts[f.Type] == nil || seen[f.Type] {
			continue
		}
		seen[f.Type] = true
		for _, k := range ref.Codes[f.Type] {
			t, p := f.TextOf(k)
			r.Count("checks")
			r.Count("other codes of the type of a value")
			if p != "" {
				r.Fail("panic", "the text of the code %d of %s panics: %s", k, f.Type, p)
				return
			}
			if s := ref.Misread(f.Type, k, t); s != "" {
				r.Fail("meaning:"+f.Type+":"+strconv.FormatInt(k, 10), "a %s of %d, %s, is reported as %q", f.Type, k, s, t)
				return
			}
		}
	}
	// Every number that is held is in the text; that of a value with a text of its own is in that text.
	numbers := map[string][]number{}
	for _, path := range sortedPaths(declared) {
		e := declared[path]
		if e.Kind == ref.KBytes && len(e.Raw) > 0 && strings.HasPrefix(name, "MessageDF") {
			r.Count("checks")
			r.Count("bytes sought in the text")
			if !strings.Contains(strings.ToUpper(strings.Join(strings.Fields(text), "")), fmt.Sprintf("%X", e.Raw)) &&
				!strings.Contains(strings.ReplaceAll(text, ",", ""), strings.Trim(fmt.Sprint(e.Raw), "[]")) {
				r.Fail("bytes:"+name+":"+path, "%s: %s is %X in a %s, but its text does not have these bytes: %q", what, path, e.Raw, name, text)
				return
			}
		}
		if e.Kind != ref.KInt && e.Kind != ref.KFloat && e.Kind != ref.KAngle {
			continue
		}
		in, coded := text, strings.HasSuffix(path, "()")
		for i := range fs {
			p := fs[i].Path
			if p == path && fs[i].Type != "" {
				in, coded = fs[i].Text, ref.Texts[fs[i].Type] != nil
			}
			if len(path) > len(p) && path[len(p)] == '.' && path[:len(p)] == p && fs[i].Text != "" && len(fs[i].Text) < len(in) {
				in = fs[i].Text
			}
		}
		if strings.HasSuffix(path, "Address") && e.Kind == ref.KInt {
			r.Count("checks")
			r.Count("addresses sought in the text")
			if !strings.Contains(strings.ToUpper(strings.Join(strings.Fields(in), "")), fmt.Sprintf("%06X", e.I)) {
				r.Fail("number:"+name+":"+path, "%s: %s is %06X in a %s, but its text does not have that address: %q", what, path, e.I, name, in)
				return
			}
			continue
		}
		if path == "DTESubAddressStatuses" {
			r.Count("checks")
			var n uint64
			for _, c := range in {
				if c == '0' || c == '1' {
					n = n<<1 | uint64(c-'0')
				}
			}
			if n != uint64(e.I) {
				r.Fail("number:"+name+":"+path, "%s: %s is %016b in a %s, but is reported as %q", what, path, e.I, name, in)
				return
			}
			continue
		}
		if coded || elsewhereShown[path[strings.LastIndex(path, ".")+1:]] {
			continue
		}
		r.Count("checks")
		r.Count("numbers sought in the text")
		if _, ok := numbers[in]; !ok {
			numbers[in] = shownNumbers(in)
		}
		if !hasNumber(numbers[in], e) {
			r.Fail("number:"+name+":"+path, "%s: %s of a %s, but the text does not have that number: %q", what, e.Key(), name, in)
			return
		}
	}
	lines := sut.Lines(text)
	plain := whole
	times := map[string]int{}
	for _, l := range lines {
		times[l.Label]++
	}
	for _, l := range lines {
		special := l.Label == "Mode A Code" || l.Label == "Computed Speed" || l.Label == "Computed Track"
		for _, e := range exps {
			if !special {
				break
			}
			v, err := strconv.ParseFloat(firstWord(l.Value), 64)
			if l.Label == "Mode A Code" && strings.HasSuffix(e.Path, "ModeACode") {
				r.Count("checks")
				if n, err := strconv.ParseInt(firstWord(l.Value), 16, 64); err == nil && n != e.I {
					r.Fail("label:"+name+":"+l.Label, "%s: the identity of a %s is %04X, but is reported as %q", what, name, e.I, l.Value)
					return
				}
			}
			if l.Label == "Computed Speed" && strings.HasSuffix(e.Path, "GetSpeed()") || l.Label == "Computed Track" && strings.HasSuffix(e.Path, "GetTrack()") {
				r.Count("checks")
				if (e.Kind == ref.KErr) != (err != nil) || err == nil && (v < e.Lo-0.5 || v > e.Hi+0.5) {
					r.Fail("label:"+name+":"+l.Label, "%s: the %s of a %s is %s, but is reported as %q", what, strings.ToLower(l.Label), name, e.Key(), l.Value)
					return
				}
			}
		}
		ends, ok := ref.Labels[l.Label]
		if !ok {
			for _, known := range ref.LabelsOpposed(l.Label) {
				if times[known] != 0 {
					continue
				}
				for i := range fs {
					for _, e := range ref.Labels[known] {
						if fs[i].Path == e || endsWith(fs[i].Path, e) {
							r.Fail("label:"+name+":"+known, "%s: %s of a %s is reported as %q, not %q", what, fs[i].Path, name, l.Label, known)
							return
						}
					}
				}
			}
		}
		if !ok || times[l.Label] != 1 {
			continue
		}
		var own *sut.Field
		n := 0
	search:
		for i := range fs {
			for _, e := range ends {
				if fs[i].Path == e {
					own, n = &fs[i], 1
					break search
				}
				if endsWith(fs[i].Path, e) {
					own, n = &fs[i], n+1
				}
			}
		}
		if n != 1 {
			r.Count("labels without a value")
			continue
		}
		r.Count("checks")
		r.Count("labels with a value")
		got, want := ref.Plain(l.Value), ref.Plain(strings.SplitN(own.Text, "\n", 2)[0])
		if got == want {
			continue
		}
		if parts := strings.Split(own.Text, "\n"); got == "" && len(parts) > 1 {
			for _, x := range parts {
				if !strings.Contains(plain, ref.Plain(x)) {
					r.Fail("label:"+name+":"+l.Label, "%s: %s of a %s is %q, but is reported without %q", what, own.Path, name, own.Text, x)
					return
				}
			}
			continue
		}
		wrong := false
		if a, err := strconv.ParseFloat(firstWord(got), 64); err == nil {
			if b, err := strconv.ParseFloat(firstWord(want), 64); err == nil {
				d := a - b
				unit := 1.0
				if i := strings.IndexByte(firstWord(got), '.'); i >= 0 {
					for k := len(firstWord(got)) - i - 1; k > 0; k-- {
						unit /= 10
					}
				}
				wrong = d > unit || d < -unit
			}
		}
		if got == "true" || got == "false" {
			wrong = wrong || want == "true" || want == "false"
		}
		for i := range fs {
			if &fs[i] != own && ref.Plain(strings.SplitN(fs[i].Text, "\n", 2)[0]) == got {
				wrong = true
			}
		}
		if own.Type != "" {
			for k, v := range ref.Texts[own.Type] {
				wrong = wrong || k != own.Num && v == got
			}
		}
		if wrong {
			r.Fail("label:"+name+":"+l.Label, "%s: %s of a %s is %q, but is reported as %q: %q", what, own.Path, name, want, l.Label, got)
			return
		}
		r.Count("labels with other words")
	}
}

func firstWord(s string) string {
	if f := strings.Fields(s); len(f) > 0 {
		return f[0]
	}
	return ""
}

// elsewhereShown are numbers which are shown in another form.
var elsewhereShown = map[string]bool{"FormatTypeCode": true, "ModeACode": true, "Subtype": true}

func sortedPaths(m map[string]ref.Exp) []string {
	l := make([]string, 0, len(m))
	for p := range m {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

// endsWith tells whether a path ends with another.
func endsWith(path, end string) bool {
	return len(path) > len(end) && path[len(path)-len(end)-1] == '.' && path[len(path)-len(end):] == end
}

// number is one that is shown, with the unit of its last digit.
type number struct{ v, unit float64 }

func shownNumbers(text string) (l []number) {
	part := func(c byte) bool { return c >= '0' && c <= '9' || c == '.' || c == '-' || c == '+' || c == 'e' }
	for i := 0; i < len(text); i++ {
		if !part(text[i]) {
			continue
		}
		k := i
		digits := false
		for k < len(text) && part(text[k]) {
			digits = digits || text[k] >= '0' && text[k] <= '9'
			k++
		}
		w := strings.TrimRight(text[i:k], ".")
		i = k
		if !digits {
			continue
		}
		v, err := strconv.ParseFloat(w, 64)
		if err != nil {
			continue
		}
		unit := 1.0
		if i := strings.IndexByte(w, '.'); i >= 0 {
			for k := len(w) - i - 1; k > 0; k-- {
				unit /= 10
			}
		}
		l = append(l, number{v, unit})
	}
	return
}

// hasNumber tells whether a number that is held is among those of a text, rounded as it may be.
func hasNumber(l []number, e ref.Exp) bool {
	for _, n := range l {
		switch e.Kind {
		case ref.KInt:
			if n.v == float64(e.I) {
				return true
			}
		case ref.KFloat:
			if n.v >= e.Lo-n.unit && n.v <= e.Hi+n.unit {
				return true
			}
		case ref.KAngle:
			if core.AngDiff(n.v, e.Lo) <= e.Hi+n.unit {
				return true
			}
		}
	}
	return false
}

// Registers of the messages, by the beginning of the name of their types.
var c16registers = map[string]int64{"AirbornePosition": 0x05, "SurfacePosition": 0x06, "Status": 0x07, "AircraftIdentificationAndCategory": 0x08,
	"AirborneVelocity": 0x09, "DataLinkCapabilityReport": 0x10, "CommonUsageGICBCapabilityReport": 0x17, "AircraftIdentification": 0x20,
	"ACASResolutionAdvisory": 0x30, "SelectedVerticalIntention": 0x40, "MeteorologicalRoutineAirReport": 0x44, "MeteorologicalHazardReport": 0x45,
	"TrackAndTurnReport": 0x50, "HeadingAndTrackReport": 0x60, "AircraftStatus": 0x61, "TargetState": 0x62, "AircraftOperationalStatus": 0x65,
	"NoMessageAvailable": 0x00}

// c16heads checks the names of the message itself.
func c16heads(r *core.Run, what, name string, obj interface{}, text, whole string) bool {
	h, p := sut.HeadsOf(obj)
	if p != "" {
		r.Fail("panic", "%s: the names of a %s panic: %s", what, name, p)
		return false
	}
	says := func(key, whatFor, own string) bool {
		r.Count("checks")
		r.Count("names sought in the report")
		if strings.Contains(text, own) || strings.Contains(whole, ref.Plain(own)) {
			return true
		}
		have := ref.WordSet(text)
		for w := range ref.WordSet(own) {
			if !have[w] {
				r.Fail(key+":"+name, "%s: the %s of a %s is %q, but the report does not show it: %q", what, whatFor, name, own, text)
				return false
			}
		}
		return true
	}
	means := func(typ string, num int64, s string) bool {
		r.Count("checks")
		if x := ref.Misread(typ, num, s); x != "" {
			r.Fail("meaning:"+typ+":"+strconv.FormatInt(num, 10), "%s: a %s names itself %q, %s", what, name, s, x)
			return false
		}
		return true
	}
	if h.HasRegister {
		long, code := -1, int64(0)
		for k, v := range c16registers {
			if strings.HasPrefix(name, k) && len(k) > long {
				long, code = len(k), v
			}
		}
		if long >= 0 {
			r.Count("checks")
			if id := fmt.Sprintf("%X,%X", code>>4, code&15); !strings.Contains(strings.ToUpper(h.RegisterID), id) || !strings.Contains(strings.ToUpper(h.Register), id) {
				r.Fail("register:"+name, "%s: a %s is of register %s, but says %q, %q", what, name, id, h.RegisterID, h.Register)
				return false
			}
			if !means("bds/register.Register", code, h.Register) || !says("register", "register", h.Register) {
				return false
			}
		}
	}
	if h.HasFormat {
		if !means("modes/messages.Name", int64(h.Format), h.Name) || !says("format", "format", strconv.Itoa(h.Format)) || !says("format", "name of the format", h.Name) {
			return false
		}
	}
	if h.HasVersion {
		for _, v := range ref.Codes["adsb.ADSBVersion"] {
			if !means("adsb.ADSBVersion", v, sut.Version(int(v)).ToString()) {
				return false
			}
		}
	}
	return true
}
