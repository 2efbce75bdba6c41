package internal

import (
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: settings are strings of ASCII bytes up to the length bound; directories and file names consist of the bytes a path element may have, none is "." or ".."; no operation fails; the periodic flush does not fire.

// zz33Text is any string up to the bound, or one of those given.
func zz33Text(id string, max int, known ...string) string {
	k := v.Choose(id+"-known", len(known)+1)
	if k < len(known) {
		return known[k]
	}
	b := v.Bytes(id, v.Choose(id+"-len", max+1))
	for i := range b {
		v.Assume(b[i] < 0x80)
	}
	return string(b)
}

// zz33Rolled sends three events, each to a file of its own, and returns the label of the first two.
func zz33Rolled(cfg api.CfgOutput, tm bool) []string {
	start := time.Date(2026, 11, 9, 8, 7, 6, 0, time.UTC)
	cfg["type"], cfg["size"] = "size_rolling_file", "1"
	labels := []string{"1", "2"}
	if tm {
		cfg["type"], cfg["pattern"] = "time_rolling_file", "20060102"
		labels = []string{"20261109", "20261110"}
	}
	o := zzRolling(cfg)
	for i := 0; i < 3; i++ {
		vtime.SetNow(start.Add(time.Duration(i) * 24 * time.Hour))
		o.Send(zzEvt(api.Info, []string{"a", "b", "c"}[i]))
	}
	return labels
}

// backups are prefixed if name_mode is exactly "prefix", and have a suffix otherwise
// zz: cover=prefix,postfix,other
func ZZNameMode() {
	vos.Reset()
	s := zz33Text("mode", v.Bound("len", 6, 8), "postfix", "prefix", "Prefix", "prefix ", "\u200bprefix")
	tm := v.Bool("time")
	l := zz33Rolled(api.CfgOutput{"file": "/l/f", "name_mode": s}, tm)
	want := []zzFile{{"/l/f", []byte("c")}}
	for i, x := range l {
		p := "/l/f." + x
		if s == "prefix" {
			p = "/l/" + x + ".f"
		}
		want = append(want, zzFile{p, []byte{byte('a' + i)}})
	}
	zzCheckFiles(want)
	switch s {
	case "prefix":
		v.Cover("prefix")
	case "postfix":
		v.Cover("postfix")
	default:
		v.Cover("other")
	}
}

// what retention removes is archived as zip or gzip if archive is exactly that, and not otherwise
// zz: cover=zip,gzip,none
func ZZArchiveKind() {
	vos.Reset()
	s := zz33Text("archive", v.Bound("alen", 4, 5), "zip", "gzip", "ZIP", "gz", "zip ", "none", "tar")
	tm, prefix := v.Bool("time"), v.Bool("prefix")
	cfg := api.CfgOutput{"file": "/l/f", "archive": s, "backups": "1"}
	if prefix {
		cfg["name_mode"] = "prefix"
	}
	l := zz33Rolled(cfg, tm)
	name := func(i int) string {
		if prefix {
			return l[i] + ".f"
		}
		return "f." + l[i]
	}
	files := 2
	if s == "zip" || s == "gzip" {
		kind := 0
		if s == "gzip" {
			kind = 1
		}
		v.Cover([]string{"zip", "gzip"}[kind])
		b, ok := vos.Content("/l/" + name(0) + []string{".zip", ".gz"}[kind])
		v.Assert(ok, "archive-present")
		ents, ok := zz19Entries(kind, true, name(0), b)
		v.Assert(ok && len(ents) == 1 && ents[0].Path == name(0) && string(ents[0].Data) == "a", "archive-of-the-kind")
		files++
	} else {
		v.Cover("none")
	}
	b, ok := vos.Content("/l/" + name(1))
	v.Assert(ok && string(b) == "b", "backup-kept")
	b, ok = vos.Content("/l/f")
	v.Assert(ok && string(b) == "c", "current-file")
	v.Assert(len(vos.Names()) == files, "no-other-files")
}

func zz33Elem(id string, max int) string {
	b := v.Bytes(id, 1+v.Choose(id+"-len", max))
	for i := range b {
		v.Assume(v.And(b[i] != '/', b[i] != 0))
	}
	s := string(b)
	v.Assume(s != "." && s != "..")
	return s
}

// the file is the one given, whatever its name and place; backups and archives are next to it
// zz: cover=relative,absolute,nested,archive,long
func ZZPlace() {
	vos.Reset()
	f := zz33Elem("file", v.Bound("flen", 2, 3))
	path, dir := f, "/cwd/"
	switch v.Choose("where", 8) {
	case 0:
		v.Cover("relative")
	case 1:
		d := zz33Elem("dir", 1)
		path, dir = d+"/"+f, "/cwd/"+d+"/"
		v.Cover("relative")
	case 2:
		d := zz33Elem("dir", v.Bound("dlen", 2, 2))
		path, dir = "/"+d+"/"+f, "/"+d+"/"
		v.Cover("absolute")
	case 3:
		d := zz33Elem("dir", 1)
		path, dir = "/x/"+d+"/y/"+f, "/x/"+d+"/y/"
		v.Cover("nested")
	case 4:
		path, dir = "./"+f, "/cwd/"
	case 5:
		d := zz33Elem("dir", 1)
		path, dir = "/x/../"+d+"/./"+f, "/"+d+"/"
	case 6:
		d := zzText('d', 60)
		f += zzText('f', 120)
		path, dir = "/"+d+"/"+d+"/"+d+"/"+d+"/"+f, "/"+d+"/"+d+"/"+d+"/"+d+"/"
		v.Cover("long")
	case 7:
		path, dir = "../y//"+f, "/y/"
	}
	cfg := api.CfgOutput{"file": path, "backups": "1"}
	prefix := v.Bool("prefix")
	if prefix {
		cfg["name_mode"] = "prefix"
	}
	arch := v.Bool("archive")
	if arch {
		cfg["archive"] = "zip"
	}
	l := zz33Rolled(cfg, v.Bool("time"))
	name := func(i int) string {
		if prefix {
			return l[i] + "." + f
		}
		return f + "." + l[i]
	}
	b, ok := vos.Content(dir + f)
	v.Assert(ok && string(b) == "c", "current-file")
	b, ok = vos.Content(dir + name(1))
	v.Assert(ok && string(b) == "b", "backup-next-to-it")
	n := 2
	if arch {
		b, ok = vos.Content(dir + name(0) + ".zip")
		v.Assert(ok, "archive-next-to-it")
		ents, ok := zz19Entries(0, true, name(0), b)
		v.Assert(ok && len(ents) == 1 && ents[0].Path == name(0) && string(ents[0].Data) == "a", "archived")
		n++
		v.Cover("archive")
	}
	v.Assert(len(vos.Names()) == n, "no-other-files")
}

// an event is written when Send returns unless async is exactly "true"
// zz: cover=sync,async
func ZZAsyncSetting() {
	vos.Reset()
	s := zz33Text("async", v.Bound("slen", 4, 5), "true", "false", "TRUE", "True", "1", "yes", "on", "true ")
	kind := v.Choose("kind", 5)
	o, text := zz31Make(kind, s, []string{"1", "9"}[v.Choose("batch", 2)])
	o.SetFormatter(zzRaw{})
	o.Send(zzEvt(api.Info, "a"))
	o.Send(zzEvt(api.Info, "b"))
	if s != "true" {
		v.Assert(text() == "ab", "written-at-once")
		v.Cover("sync")
	} else {
		v.Cover("async")
	}
	o.Close()
	v.Assert(text() == "ab", "written")
	v.Assert(strings.Count(text(), "a") == 1, "once")
}
