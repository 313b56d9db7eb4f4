package fontgen

import (
	"reflect"

	"github.com/tdewolff/font/zzverif/simrt"
)

// Random draws a specification; every class of content is switched on and off independently.
func Random(r *simrt.Rand, kinds ...string) Spec {
	if len(kinds) == 0 {
		kinds = []string{"ttf", "ttf", "cff"}
	}
	s := Spec{Kind: kinds[r.Intn(len(kinds))], Seed: r.U64() % 1000000}
	s.Glyphs = 2 + r.Intn(14)
	if r.Bool(15) {
		s.Glyphs = 20 + r.Intn(60)
	}
	if r.Bool(2) {
		s.Glyphs = 300 + r.Intn(200)
	}
	s.Empty = []int{0, 0, 20, 60}[r.Intn(4)]
	s.Metrics = r.Intn(3)
	s.OddLSB = r.Bool(50)
	s.OS2 = r.Intn(7)
	s.Cmap = []int{1, 1, 2, 3, 3, 4, 8, 9, 5, 15}[r.Intn(10)]
	s.RuneBase = []int{33, 65, 0x3B1, 0x4E00, 0xF000, 0xD7F0, 0xFF00, 0x1F600, 0xFFF8, 0x10FFF0}[r.Intn(10)]
	if s.Cmap&2 == 0 && s.RuneBase >= 0xFFF0 {
		s.RuneBase = 97
	}
	if s.Cmap == 8 || s.Cmap == 9 || s.Cmap == 15 {
		s.RuneBase = 33
	}
	s.RuneGap = []int{0, 10, 50}[r.Intn(3)]
	s.Scramble = r.Bool(40)
	s.MultiMap = []int{0, 0, 25}[r.Intn(3)]
	s.Extra = r.Bool(25)
	s.Vertical = r.Bool(20)
	s.ItalicNeg = r.Bool(25)
	s.Bounds = r.Bool(10)
	if r.Bool(25) {
		s.NameVar = r.Intn(128) &^ 8
		s.Pref = r.Bool(50)
	}
	switch s.Kind {
	case "ttf":
		s.Composite = []int{0, 30, 60}[r.Intn(3)]
		s.Deep = r.Bool(40)
		s.Instr = r.Bool(50)
		s.Overlap = []int{0, 0, 40}[r.Intn(3)]
		s.BigCoords = r.Bool(20)
		s.Names = r.Intn(5)
		if r.Bool(50) {
			s.Kern = 1 + r.Intn(30)
			s.KernSubs = 1 + r.Intn(2)
			s.KernMin = r.Bool(20)
			s.KernOdd = r.Bool(15)
			if r.Bool(1) {
				s.Kern = 8000 + r.Intn(20000)
				s.KernSubs, s.KernOdd = 1, false
				s.Glyphs = max(s.Glyphs, 110+r.Intn(60))
			}
		}
		s.Trail = r.Bool(6)
		s.LongLoca = r.Bool(40)
		if s.LongLoca && r.Bool(3) {
			s.Huge = 5 + r.Intn(60)
		}
		s.LocaPad = []int{0, 4, 1}[r.Intn(3)]
		s.MaxComp = r.Bool(10)
	default:
		s.Subrs = []int{0, 3, 20, 120}[r.Intn(4)]
		s.GSubrs = []int{0, 3, 20, 120}[r.Intn(4)]
		s.StdNames = r.Bool(50)
		s.Private = r.Bool(60)
		s.Charset = r.Intn(3)
		s.FDs = 1 + r.Intn(3)
		s.Names = 1
		if r.Bool(4) {
			s.Subrs = 1200 + r.Intn(80)
			if r.Bool(40) {
				s.Subrs = 1239 + r.Intn(3) // where the bias changes
			}
		}
		if r.Bool(4) {
			s.GSubrs = 1200 + r.Intn(80)
			if r.Bool(40) {
				s.GSubrs = 1239 + r.Intn(3)
			}
		}
		if r.Bool(8) && s.Subrs > 0 {
			s.BigSub = 200 + r.Intn(400)
		}
		s.LongNums = r.Bool(15)
		if r.Bool(20) {
			s.Kern = 1 + r.Intn(20)
		}
		if r.Bool(25) {
			s.Dict = 1 + r.Intn(1<<20)
		}
	}
	return s
}

// Files are the real fonts of the repository.
var Files = []string{"DejaVuSerif.ttf", "EBGaramond12-Regular.otf", "AdobeVFPrototype.otf"}

// Shrink proposes simpler specifications.
func Shrink(s Spec) (res []Spec) {
	if s.Kind == "file" {
		return []Spec{{Kind: "ttf", Glyphs: 6, Cmap: 1, OS2: 5, Seed: 1}, {Kind: "cff", Glyphs: 6, Cmap: 1, OS2: 5, Seed: 1}}
	}
	v := reflect.ValueOf(&s).Elem()
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Name == "Kind" {
			continue
		}
		f := v.Field(i)
		old := reflect.New(f.Type()).Elem()
		old.Set(f)
		switch f.Kind() {
		case reflect.Bool:
			if f.Bool() {
				f.SetBool(false)
				res = append(res, s)
			}
		case reflect.Int:
			x := f.Int()
			var cand []int64
			switch t.Field(i).Name {
			case "Glyphs":
				if x > 2 {
					cand = []int64{2, x / 2, x - 1}
				}
			case "RuneBase":
				if x != 65 {
					cand = []int64{65}
				}
			case "Cmap":
				if x != 1 {
					cand = []int64{1}
				}
			default:
				if x != 0 {
					cand = []int64{0, x / 2, x - 1}
				}
			}
			for _, c := range cand {
				if c != x {
					f.SetInt(c)
					res = append(res, s)
				}
			}
		case reflect.Uint64:
			if x := f.Uint(); x > 0 {
				f.SetUint(0)
				res = append(res, s)
			}
		}
		f.Set(old)
	}
	return
}
