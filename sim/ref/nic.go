package ref

// Integrity is what a position type stands for.
type Integrity struct {
	NIC   int       // navigation integrity category, -1: none in that version
	Rc    []float64 // bounds of the containment radius in metres
	Also  []float64 // other lengths that the text may name
	HPL   []float64 // version 0: bounds of the horizontal protection limit
	CR    []float64 // version 0: bounds of the 95% containment radius
	Known bool      // the standard gives a value for this combination
}

const nm = 1852.0

// IntegrityOf gives the integrity that type code and supplements stand for (DO-260 2.2.8.1, DO-260A and B tables A-2, N-4).
func IntegrityOf(version int, surface bool, tc int, a, b, c bool) Integrity {
	k := func(nic int, rc float64, also ...float64) Integrity {
		return Integrity{NIC: nic, Rc: []float64{rc}, Also: also, Known: true}
	}
	if version == 0 {
		h := map[int][]float64{9: {7.5}, 10: {7.5, 25}, 11: {25, 185.2}, 12: {185.2, 370.4}, 13: {370.4, 926}, 14: {926, 1852}, 15: {1852, 3704},
			16: {3704, 18520}, 17: {18520, 37040}, 18: {37040}, 20: {7.5}, 21: {25}, 22: {25}}
		r := map[int][]float64{9: {3}, 10: {3, 10}, 11: {10, 92.6}, 12: {92.6, 185.2}, 13: {185.2, 463}, 14: {463, 926}, 15: {926, 1852},
			16: {1852, 9260}, 17: {9260, 18520}, 18: {18520}, 20: {3, 4}, 21: {10, 15}, 22: {10, 15}}
		if surface {
			h = map[int][]float64{5: {7.5}, 6: {25}, 7: {185.2}, 8: {185.2}}
			r = map[int][]float64{5: {3}, 6: {3, 10}, 7: {10, 92.6}, 8: {92.6}}
		}
		return Integrity{NIC: -1, HPL: h[tc], CR: r[tc], Known: true}
	}
	if surface {
		switch {
		case tc == 5:
			return k(11, 7.5)
		case tc == 6:
			return k(10, 25)
		case tc == 7 && a && !(version == 2 && c):
			return k(9, 75)
		case tc == 7 && !a && !(version == 2 && c):
			return k(8, 0.1*nm)
		case tc == 8 && version == 1:
			return k(0, 0.1*nm)
		case tc == 8 && a && c:
			return k(7, 0.2*nm)
		case tc == 8 && a:
			return k(6, 0.3*nm)
		case tc == 8 && c:
			return k(6, 0.6*nm)
		case tc == 8:
			return k(0, 0.6*nm)
		}
		return Integrity{}
	}
	two := version == 2
	switch tc {
	case 9, 20:
		return k(11, 7.5, 11)
	case 10, 21:
		return k(10, 25, 37.5)
	case 11:
		if a && (b || !two) {
			return k(9, 75, 112)
		}
		if !a && !(b && two) {
			return k(8, 0.1*nm)
		}
	case 12:
		return k(7, 0.2*nm)
	case 13:
		switch {
		case !two && a || two && a && b:
			return k(6, 0.6*nm)
		case two && !a && b:
			return k(6, 0.3*nm)
		case !a:
			return k(6, 0.5*nm)
		}
	case 14:
		return k(5, nm)
	case 15:
		return k(4, 2*nm)
	case 16:
		if a && (b || !two) {
			return k(3, 4*nm)
		}
		if !a && !(b && two) {
			return k(2, 8*nm)
		}
	case 17:
		return k(1, 20*nm)
	case 18:
		return k(0, 20*nm)
	case 22:
		return k(0, 25, 37.5)
	}
	return Integrity{}
}
