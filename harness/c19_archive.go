package internal

import (
	"io"
	"time"

	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: the zip, gzip and tar encoders and decoders are lossless (modelled by a framing with the contract of the real packages); each file operation takes effect at once and survives a crash; a backup number or period label is not used twice.

// zz19Writer is a writer whose backups are archived, made as the repository's own tests do.
// kind: 0 zip, 1 gzip. archive: "" for one archive per backup, otherwise the common archive.
func zz19Writer(kind, max int, archive string) io.Writer {
	rw := newRollingFileWriter("/l/f", archive)
	rw.archiveType = rollingArchiveZip
	if kind == 1 {
		rw.archiveType = rollingArchiveGzip
	}
	rw.archiveExploded = archive == ""
	rw.maxRolls = max
	rw.nameMode = rollingNameModePostfix
	rws := &rollingFileWriterSize{rw, 1}
	rws.self = rws
	return rws
}

// zz19Contents gathers everything that can be read: current file, backups, complete archives.
func zz19Contents(kind int, archive string) []zzFile {
	var r []zzFile
	for _, p := range vos.Names() {
		b, _ := vos.Content(p)
		switch {
		case p == "/l/f":
			r = append(r, zzFile{"", b})
		case archive != "" && p == archive:
			if ents, ok := zz19Entries(kind, false, "", b); ok {
				r = append(r, ents...)
			}
		case zz19Is(p):
			r = append(r, zzFile{p[3:], b})
		case archive == "" && zz19Archive(kind, p) != "":
			n := zz19Archive(kind, p)
			if ents, ok := zz19Entries(kind, true, n, b); ok {
				r = append(r, ents...)
			}
		}
	}
	return r
}

// zz19Is tells whether the path is a backup /l/f.N.
func zz19Is(p string) bool {
	if len(p) < 6 || p[:5] != "/l/f." {
		return false
	}
	return zzNumber(p[5:])
}

// zz19Archive is the name of the backup the archive at the path is for.
func zz19Archive(kind int, p string) string {
	ext := []string{".zip", ".gz"}[kind]
	if len(p) > len(ext) && p[len(p)-len(ext):] == ext && zz19Is(p[:len(p)-len(ext)]) {
		return p[3 : len(p)-len(ext)]
	}
	return ""
}

func zz19HasByte(fs []zzFile, c byte) bool {
	for _, f := range fs {
		for _, x := range f.Data {
			if x == c {
				return true
			}
		}
	}
	return false
}

// zz19Setup fills the directory: n backups and a current file, records 1..n+1, and perhaps an
// archive with entries from before.
func zz19Setup(n, kind int, archive string) (accepted []byte) {
	vos.Reset()
	for i := 1; i <= n; i++ {
		vos.Put("/l/f."+zzItoa(i), []byte{byte(i)}, 0500)
		accepted = append(accepted, byte(i))
	}
	vos.Put("/l/f", []byte{byte(n + 1)}, 0600)
	accepted = append(accepted, byte(n+1))
	return
}

// nothing fails: what retention removes is in an archive under its name, completely
// zz: cover=archived
func ZZConfigured() {
	vos.Reset()
	kind := v.Choose("kind", 2)
	tm := v.Bool("time")
	prefix := v.Bool("prefix")
	max := 1 + v.Choose("max", 2)
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", "backups": zzItoa(max), "archive": []string{"zip", "gzip"}[kind]}
	if tm {
		cfg["type"], cfg["pattern"] = "time_rolling_file", "2006-01-02"
	}
	if prefix {
		cfg["name_mode"] = "prefix"
	}
	o := zzRolling(cfg)
	n := v.Bound("writes", 4, 6)
	start := time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	name := func(i int) string { // of the i-th backup
		l := zzItoa(i + 1)
		if tm {
			l = start.Add(time.Duration(i) * 24 * time.Hour).Format("2006-01-02")
		}
		if prefix {
			return l + ".f"
		}
		return "f." + l
	}
	var recs [][]byte
	for i := 0; i < n; i++ {
		vtime.SetNow(start.Add(time.Duration(i) * 24 * time.Hour))
		rec := v.Bytes("rec", 1+i%3)
		recs = append(recs, rec)
		o.Send(zzEvt(api.Info, string(rec)))
	}
	files := 0
	for i, rec := range recs {
		switch {
		case i == n-1:
			b, ok := vos.Content("/l/f")
			v.Assert(ok && zzEqual(b, rec), "current-file")
			files++
		case i >= n-1-max:
			b, ok := vos.Content("/l/" + name(i))
			v.Assert(ok && zzEqual(b, rec), "backup-kept")
			files++
		default:
			_, ok := vos.Content("/l/" + name(i))
			v.Assert(!ok, "backup-removed")
			b, ok := vos.Content("/l/" + name(i) + []string{".zip", ".gz"}[kind])
			v.Assert(ok, "archive-present")
			ents, ok := zz19Entries(kind, true, name(i), b)
			v.Assert(ok, "archive-complete")
			v.Assert(len(ents) == 1 && ents[0].Path == name(i), "entry-under-its-name")
			v.Assert(zzEqual(ents[0].Data, rec), "entry-content")
			files++
			v.Cover("archived")
		}
	}
	v.Assert(len(vos.Names()) == files, "no-other-files")
}

// zz19Run writes records, checking after every file operation that every accepted record is somewhere.
func zz19Run(kind int, archive string, accepted []byte, max int, writes int, quietFrom int) {
	w := zz19Writer(kind, max, archive)
	check := func(op string) {
		fs := zz19Contents(kind, archive)
		for _, c := range accepted {
			if !zz19HasByte(fs, c) {
				v.Observe("lost", int(c), op)
			}
			v.Assert(zz19HasByte(fs, c), "record-present-at-every-instant")
		}
	}
	vos.OnChange = check
	next := accepted[len(accepted)-1] + 1
	for i := 0; i < writes; i++ {
		if i == quietFrom {
			vos.FaultBudget = 0
		}
		faults := vos.FaultCount
		_, err := w.Write([]byte{next})
		if err == nil {
			accepted = append(accepted, next)
		}
		if vos.FaultCount == faults {
			v.Assert(err == nil, "recovers")
		}
		next++
	}
	vos.OnChange = nil
	check("end")
}

// every single failure, every instant, one archive per backup
// zz: cover=faulted
func ZZExploded() {
	kind := v.Choose("kind", 2)
	have := 1 + v.Choose("have", 3)
	accepted := zz19Setup(have, kind, "")
	vos.FaultBudget = v.Bound("faults", 1, 2)
	w := v.Bound("faultwrites", 2, 2)
	zz19Run(kind, "", accepted, 1, w+2, w)
	if vos.FaultCount > 0 {
		v.Cover("faulted")
	}
	// after writes without failures the old backups are archived and gone
	n := 0
	for _, p := range vos.Names() {
		if zz19Is(p) {
			n++
		}
	}
	v.Assert(n == 1, "archiving-resumes")
}

// the same with one common archive, which may already have entries
// zz: cover=faulted
func ZZUnexploded() {
	kind := v.Choose("kind", 2)
	archive := []string{"/l/f.zip", "/arch/f.tar.gz"}[kind]
	have := 1 + v.Choose("have", 2)
	accepted := zz19Setup(have, kind, archive)
	if v.Bool("existing") {
		// made by the writer itself
		vos.Reset()
		w := zz19Writer(kind, 1, archive)
		for c := byte(100); c < 104; c++ {
			w.Write([]byte{c})
		}
		w.(io.Closer).Close()
		accepted = []byte{100, 101, 102, 103}
	}
	vos.FaultBudget = v.Bound("faults", 1, 2)
	w := v.Bound("faultwrites", 2, 2)
	zz19Run(kind, archive, accepted, 1, w+2, w)
	if vos.FaultCount > 0 {
		v.Cover("faulted")
	}
	n := 0
	for _, p := range vos.Names() {
		if zz19Is(p) {
			n++
		}
	}
	v.Assert(n == 1, "archiving-resumes")
	b, ok := vos.Content(archive)
	v.Assert(ok, "archive-present")
	ents, ok := zz19Entries(kind, false, "", b)
	v.Assert(ok, "archive-complete")
	// a backup that could not be removed after it was archived may be archived again
	var names [256]string
	for k, e := range ents {
		v.Assert(len(e.Data) == 1, "entry-whole")
		c := e.Data[0]
		base := e.Path
		for x := len(base) - 1; x >= 0; x-- {
			if base[x] == '/' {
				base = base[x+1:]
				break
			}
		}
		v.Assert(zzIsBackupName(base), "entry-under-its-name")
		v.Assert(names[c] == "" || names[c] == base, "entry-under-its-name")
		names[c] = base
		if k == 0 && accepted[0] == 100 {
			v.Assert(c == 100 && base == "f.1", "existing-entries-kept")
		}
		if k == 1 && accepted[0] == 100 {
			v.Assert(c == 101 && base == "f.2", "existing-entries-kept")
		}
		if vos.FaultCount == 0 {
			v.Assert(base == "f."+zzItoa(k+1), "entries-in-order-once")
		}
	}
}

func zzIsBackupName(s string) bool { return zz19Is("/l/" + s) }

// the process dies after any file operation and a new one carries on
// zz: cover=died
func ZZCrash() {
	kind := v.Choose("kind", 2)
	archive := ""
	if v.Bool("common") {
		archive = []string{"/l/f.zip", "/arch/f.tar.gz"}[kind]
	}
	have := 1 + v.Choose("have", 2)
	accepted := zz19Setup(have, kind, archive)
	w := zz19Writer(kind, 1, archive)
	vos.CrashAfter = 1 + v.Choose("crash", v.Bound("crashpoints", 30, 50))
	next := accepted[len(accepted)-1] + 1
	for i := 0; i < v.Bound("crashwrites", 2, 3) && !vos.Dead; i++ {
		_, err := w.Write([]byte{next})
		if err == nil {
			accepted = append(accepted, next)
		}
		next++
	}
	if !vos.Dead {
		v.Prune()
	}
	v.Cover("died")
	vos.Dead = false
	zz19Run(kind, archive, accepted, 1, 3, 0)
}

// many rolls, long records: every removed backup is archived completely
// zz: cover=many,long steps=90000000
func ZZLong() {
	vos.Reset()
	kind := v.Choose("kind", 2)
	common := v.Bool("common")
	archive := ""
	if common {
		archive = []string{"/l/f.zip", "/arch/f.tar.gz"}[kind]
	}
	max := []int{1, 3, 20}[v.Choose("max", 3)]
	n := max + v.Bound("rolls", 6, 12)
	size := []int{1, 600, 40000}[v.Choose("size", 3)]
	if size > 1 {
		n = max + 3
		v.Cover("long")
	} else {
		v.Cover("many")
	}
	w := zz19Writer(kind, max, archive)
	var recs [][]byte
	for i := 0; i < n; i++ {
		rec := zzLong(size + i)
		if size == 1 {
			rec = []byte{byte(i)}
		}
		recs = append(recs, rec)
		k, err := w.Write(rec)
		v.Assert(err == nil && k == len(rec), "written")
	}
	all := zz19Contents(kind, archive)
	for i, rec := range recs {
		name := "f." + zzItoa(i+1)
		if i == n-1 {
			name = ""
		}
		found := 0
		for _, f := range all {
			if f.Path == name || common && f.Path == "/l/"+name {
				found++
				v.Assert(zzEqual(f.Data, rec), "entry-content")
			}
		}
		if found != 1 {
			v.Observe("found", name, found, len(all))
		}
		v.Assert(found == 1, "archived-under-its-name")
	}
}
