package internal

import (
	"time"

	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: the umask clears no bit the configuration asks for, the settings are octal literals of three digits (other spellings are C12's), and no operation fails.

// zz24Perm is any setting between 0001 and 0777, or none at all.
func zz24Perm(name string, given bool, def vos.FileMode) (string, vos.FileMode) {
	if !given {
		return "", def
	}
	b := v.Bytes(name, 3)
	n := 0
	for i := range b {
		v.Assume(v.And(b[i] >= '0', b[i] <= '7'))
		n = n*8 + int(b[i]) - '0'
	}
	v.Assume(n > 0)
	return "0" + string(b), vos.FileMode(n)
}

// the log file, every backup and the directories made for them
// zz: cover=rolled,default,given
func ZZModes() {
	vos.Reset()
	tm := v.Bool("time")
	prefix := v.Bool("prefix")
	given := v.Bool("given")
	fs, fm := zz24Perm("file", given, 0600)
	bs, bm := zz24Perm("back", given, 0500)
	ds, dm := zz24Perm("dir", given, 0760)
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/a/b/f", "size": "1", "backups": "20"}
	if tm {
		cfg["type"], cfg["pattern"] = "time_rolling_file", "2006-01-02"
	}
	if prefix {
		cfg["name_mode"] = "prefix"
	}
	if given {
		cfg["file_perm"], cfg["back_perm"], cfg["dir_perm"] = fs, bs, ds
		v.Cover("given")
	} else {
		v.Cover("default")
	}
	vos.PutDir("/l")
	if v.Bool("archive") {
		cfg["archive"] = "zip"
		cfg["backups"] = "2"
	}
	start := time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	vtime.SetNow(start)
	o := zzRolling(cfg)
	n := v.Bound("writes", 4, 6)
	for i := 0; i < n; i++ {
		vtime.SetNow(start.Add(time.Duration(i) * 24 * time.Hour))
		o.Send(zzEvt(api.Info, "x"))
		m, ok := vos.ModeOf("/l/a/b/f")
		v.Assert(ok && m.IsRegular(), "file-present")
		v.Assert(m.Perm() == fm, "file-permission")
		backups := 0
		for k := 0; k < i; k++ {
			l := zzItoa(k + 1)
			if tm {
				l = start.Add(time.Duration(k) * 24 * time.Hour).Format("2006-01-02")
			}
			p := "/l/a/b/f." + l
			if prefix {
				p = "/l/a/b/" + l + ".f"
			}
			m, ok := vos.ModeOf(p)
			if !ok {
				continue
			}
			backups++
			v.Assert(m.Perm() == bm, "backup-permission")
			v.Cover("rolled")
		}
		v.Assert(backups == i || backups == 2, "backups-present")
	}
	if m, ok := vos.ModeOf("/l/a/b/.log4g_tmp"); ok {
		v.Assert(m.IsDir(), "directory-present")
		v.Assert(m.Perm() == dm, "archive-directory-permission")
	}
	for _, d := range []string{"/l/a", "/l/a/b"} {
		m, ok := vos.ModeOf(d)
		v.Assert(ok && m.IsDir(), "directory-present")
		v.Assert(m.Perm() == dm, "directory-permission")
	}
	m, _ := vos.ModeOf("/l")
	v.Assert(m.Perm() == 0755, "existing-directory-unchanged")
}

// a file and backups that were there before the start, with whatever permissions
// zz: cover=rolled
func ZZExisting() {
	vos.Reset()
	old := vos.FileMode(v.Int("old", 0, 0777))
	vos.Put("/l/f", []byte("zz"), old)
	vos.Put("/l/f.3", []byte("zz"), old)
	bs, bm := zz24Perm("back", true, 0)
	fs, fm := zz24Perm("file", true, 0)
	size := []string{"1", "9"}[v.Choose("size", 2)]
	o := zzRolling(api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": size, "file_perm": fs, "back_perm": bs})
	o.Send(zzEvt(api.Info, "x"))
	m, _ := vos.ModeOf("/l/f.3")
	v.Assert(m.Perm() == old, "earlier-backup-unchanged")
	m, ok := vos.ModeOf("/l/f.4")
	f, _ := vos.ModeOf("/l/f")
	if ok {
		v.Assert(m.Perm() == bm, "backup-permission")
		v.Assert(f.Perm() == fm, "file-permission")
		v.Cover("rolled")
	} else {
		v.Assert(f.Perm() == old, "existing-file-unchanged")
	}
}

// many rolls deep down a relative path: every file, backup and directory
// zz: cover=deep steps=60000000
func ZZMany() {
	vos.Reset()
	fs, fm := zz24Perm("file", true, 0)
	bs, bm := zz24Perm("back", true, 0)
	ds, dm := zz24Perm("dir", true, 0)
	deep := []string{"", "/cwd"}[v.Choose("relative", 2)]
	dir := "a"
	dirs := []string{dir}
	for i := 0; i < 8; i++ {
		dir += "/" + zzText(byte('b'+i), 1+i*7)
		dirs = append(dirs, dir)
	}
	if deep == "" {
		dir = "/" + dir
	}
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": dir + "/f", "size": "1", "backups": "12", "file_perm": fs, "back_perm": bs, "dir_perm": ds}
	tm := v.Bool("time")
	if tm {
		cfg["type"], cfg["pattern"] = "time_rolling_file", "20060102"
	}
	o := zzRolling(cfg)
	start := time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	n := v.Bound("rolls", 14, 30)
	for i := 0; i < n; i++ {
		vtime.SetNow(start.Add(time.Duration(i) * 24 * time.Hour))
		o.Send(zzEvt(api.Info, "x"))
	}
	at := deep + "/" + dirs[len(dirs)-1]
	backups := 0
	for _, p := range vos.Names() {
		m, ok := vos.ModeOf(p)
		v.Assert(ok && m.IsRegular(), "file-present")
		if p == at+"/f" {
			v.Assert(m.Perm() == fm, "file-permission")
			continue
		}
		backups++
		v.Assert(m.Perm() == bm, "backup-permission")
	}
	v.Assert(backups == 12, "backups-present")
	for _, d := range dirs {
		m, ok := vos.ModeOf(deep + "/" + d)
		v.Assert(ok && m.IsDir(), "directory-present")
		v.Assert(m.Perm() == dm, "directory-permission")
	}
	v.Cover("deep")
}
