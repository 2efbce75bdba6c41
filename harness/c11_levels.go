package internal

import (
	"github.com/xtfly/log4g/api"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: level strings up to the bound in length; longer strings cannot equal a level name unless the comparison is changed to a prefix match, which lengths up to 10 already expose.

var zzLevelNames = []string{"ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "CRITICAL", "OFF"}
var zzLevelShort = []string{"ALL", "TAC", "DBG", "INF", "WRN", "ERR", "CRI", "OFF"}
var zzLevels = []api.Level{api.All, api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical, api.Off}

func zzFold(s string, up string) bool {
	if len(s) != len(up) {
		return false
	}
	ok := true
	for i := 0; i < len(up); i++ {
		c := s[i]
		ok = v.And(ok, v.Or(c == up[i], c == up[i]+32))
	}
	return ok
}

// every string up to the length bound: parsed to the level it names in some letter case, else uninitialized
// zz: cover=named,unnamed
func ZZParse() {
	n := v.Choose("len", v.Bound("len", 9, 12)+1)
	s := v.String("s", n)
	for i := 0; i < n; i++ {
		v.Assume(s[i] < 0x80)
	}
	v.MapOrder(true)
	got := api.LevelFrom(s)
	want := api.Uninitialized
	for i, nm := range zzLevelNames {
		want = api.Level(v.IteInt(zzFold(s, nm), int(zzLevels[i]), int(want)))
	}
	if want == api.Uninitialized {
		v.Cover("unnamed")
	} else {
		v.Cover("named")
	}
	v.Observe("parse", s, int(got))
	v.Assert(got == want, "level-from-string")
}

// strings with any bytes, including non-ASCII ones: never a level unless they spell one
func ZZParseBytes() {
	n := v.Choose("len", v.Bound("blen", 2, 3)+1)
	s := v.String("s", n)
	got := api.LevelFrom(s)
	for i, l := range zzLevels {
		if got == l {
			// U+017F and U+212A upper-case to ASCII letters under Unicode rules
			if len(s) == len(zzLevelNames[i]) {
				v.Assert(zzFold(s, zzLevelNames[i]), "non-ascii-level")
			}
		}
	}
}

// the documented names, both ways, and the order of levels
func ZZNames() {
	v.MapOrder(true)
	i := v.Choose("i", len(zzLevels))
	l := zzLevels[i]
	v.Assert(l.String() == zzLevelNames[i], "long-name")
	v.Assert(l.ShortStr() == zzLevelShort[i], "short-name")
	v.Assert(api.LevelFrom(l.String()) == l, "name-parses-back")
	j := v.Choose("j", len(zzLevels))
	v.Assert((zzLevels[i] < zzLevels[j]) == (i < j), "level-order")
	v.Assert(api.Uninitialized < api.All, "level-order")
	v.Observe("names", l.String(), l.ShortStr())
}

// a level name with foreign characters (blanks and letters outside ASCII, bytes that are no text)
// before, after or inside it, or in the place of one of its letters: never a level
func ZZForeign() {
	nm := zzLevelNames[v.Choose("name", len(zzLevels))]
	at := v.Choose("at", len(nm)+1)
	cut := v.Choose("cut", 2) // 1: in the place of a letter
	if at+cut > len(nm) {
		v.Prune()
	}
	fs := []string{"\u00a0", "\u2003", "\ufeff", "\u0130", "\u017f", "\u212a", "\uff29", "\u0410", "\x80", "\xff"}
	s := nm[:at] + fs[v.Choose("foreign", len(fs))] + nm[at+cut:]
	if v.Bool("lower") {
		b := []byte(s)
		for i, c := range b {
			if c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
		s = string(b)
	}
	got := api.LevelFrom(s)
	v.Observe("foreign", s, int(got))
	v.Assert(got == api.Uninitialized, "foreign-character-accepted")
}
