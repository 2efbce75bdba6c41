package internal

import (
	"errors"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	vjson "github.com/xtfly/log4g/internal/zz_vjson"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vyaml "github.com/xtfly/log4g/internal/zz_vyaml"
)

// ASSUME: the YAML and JSON decoders are replaced by one that fails or fills the configuration as chosen; names in configurations are one-byte strings (all of them), lists have up to the bound of entries; document types are strings up to 5 ASCII bytes.

func zz05Base() (*vcap.Out, api.Logger, api.Logger) {
	all := zzCapTypes()
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"type": "capf", "name": "F"}},
		Outputs: []api.CfgOutput{{"type": "cap", "name": "OLD", "format": "F"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "info", OutputNames: []string{"OLD"}}, {Name: "a", Level: "warn"}},
	}
	v.Assert(zzGetManager().SetConfig(cfg) == nil, "valid-accepted")
	r, a := zzGetLogger("root"), zzGetLogger("a")
	v.Assert(len(*all) == 1, "one-output")
	return (*all)[0], r, a
}

// zz05Unchanged checks that loggers are as the first configuration made them.
func zz05Unchanged(o *vcap.Out, r, a api.Logger) {
	v.Assert(r.Level() == api.Info && a.Level() == api.Warn, "levels-unchanged")
	n := len(o.Evts)
	r.Info("x")
	a.Warn("x")
	r.Debug("x")
	a.Info("x")
	zzGetLogger("a/b").Warn("x")
	zzGetLogger("a/b").Info("x")
	zzGetLogger("n").Info("x")
	v.Assert(len(o.Evts) == n+4, "outputs-unchanged")
	v.Assert(o.Closes == 0, "outputs-unchanged")
}

func zz05Name(id string) string { return v.String(id, 1) }

// every shape of configuration: accepted exactly if it has none of the defects
// zz: cover=accepted,dupformat,dupoutput,duplogger,noformat,nooutput
func ZZShapes() {
	o, r, a := zz05Base()
	nf, no, nl := v.Choose("formats", 3), v.Choose("outputs", 3), v.Choose("loggers", v.Bound("loggers", 2, 3)+1)
	cfg := &api.Config{}
	bad := false
	mark := func(c bool, label string) {
		if c {
			v.Cover(label)
			bad = true
		}
	}
	var fs, os, ls []string
	in := func(x string, xs []string) bool {
		r := false
		for _, y := range xs {
			r = v.Or(r, x == y)
		}
		return r
	}
	for i := 0; i < nf; i++ {
		n := zz05Name("fname")
		mark(in(n, fs), "dupformat")
		fs = append(fs, n)
		cfg.Formats = append(cfg.Formats, api.CfgFormat{"type": zz05Name("ftype"), "name": n, "layout": zz05Name("layout")})
	}
	for i := 0; i < no; i++ {
		n, f := zz05Name("oname"), zz05Name("oformat")
		mark(in(n, os), "dupoutput")
		mark(!in(f, fs), "noformat")
		os = append(os, n)
		cfg.Outputs = append(cfg.Outputs, api.CfgOutput{"type": zz05Name("otype"), "name": n, "format": f, "file": zz05Name("file")})
	}
	for i := 0; i < nl; i++ {
		n := zz05Name("lname")
		mark(in(n, ls), "duplogger")
		ls = append(ls, n)
		l := api.CfgLogger{Name: n, Level: []string{"error", "", "x"}[v.Choose("level", 2+v.IteInt(i == 0, 1, 0))]}
		for j := v.Choose("louts", 2+v.IteInt(i == 0, 1, 0)); j > 0; j-- {
			x := zz05Name("lout")
			mark(!in(x, os), "nooutput")
			l.OutputNames = append(l.OutputNames, x)
		}
		cfg.Loggers = append(cfg.Loggers, l)
	}
	err := zzGetManager().SetConfig(cfg)
	v.Observe("verdict", err != nil)
	if bad {
		v.Assert(err != nil, "invalid-rejected")
		zz05Unchanged(o, r, a)
	} else {
		v.Cover("accepted")
		v.Assert(err == nil, "valid-accepted")
	}
}

func zz05Doc(fail, invalid bool) { zz05DocWith(fail, false, invalid) }

// zz05DocWith is a document that fails to parse, at once or only for what follows its first value.
func zz05DocWith(fail, trailing, invalid bool) {
	h := func(b []byte, out interface{}) error {
		if fail && !(trailing && vjson.Stream) {
			return errors.New("parse error")
		}
		c := out.(*api.Config)
		c.Formats = []api.CfgFormat{{"type": "capf", "name": "g"}}
		c.Outputs = []api.CfgOutput{{"type": "cap", "name": "NEW", "format": "g"}}
		c.Loggers = []api.CfgLogger{{Name: "root", Level: "error", OutputNames: []string{"NEW"}}}
		if invalid {
			c.Outputs[0]["format"] = "h"
		}
		return nil
	}
	vyaml.Hook, vjson.Hook = h, h
}

func zz05Type(s string) bool {
	return v.Or(zz05Fold(s, "yaml"), v.Or(zz05Fold(s, "yml"), zz05Fold(s, "json")))
}

func zz05Fold(s, low string) bool {
	if len(s) != len(low) {
		return false
	}
	r := true
	for i := range low {
		r = v.And(r, v.Or(s[i] == low[i], s[i] == low[i]-32))
	}
	return r
}

// documents: supported and unsupported types, parsing or not, valid or not
// zz: cover=loaded,badtype,badparse,badconfig
func ZZDocument() {
	o, r, a := zz05Base()
	b := v.Bytes("type", v.Choose("typelen", 6))
	for i := range b {
		v.Assume(b[i] < 0x80)
	}
	fail, invalid := v.Bool("parse fails"), v.Bool("invalid")
	zz05DocWith(fail, fail && v.Bool("trailing"), invalid)
	err := zzGetManager().LoadConfig([]byte("doc"), string(b))
	zz05Verdict(o, r, a, err, zz05Type(string(b)), fail, invalid)
}

func zz05Verdict(o *vcap.Out, r, a api.Logger, err error, known, fail, invalid bool) {
	v.Observe("verdict", err != nil)
	if !known || fail || invalid {
		if !known {
			v.Cover("badtype")
		} else if fail {
			v.Cover("badparse")
		} else {
			v.Cover("badconfig")
		}
		v.Assert(err != nil, "invalid-rejected")
		zz05Unchanged(o, r, a)
		return
	}
	v.Cover("loaded")
	v.Assert(err == nil, "valid-accepted")
	v.Assert(r.Level() == api.Error, "valid-applied")
}

// files: any name, present or not
// zz: cover=loaded,badtype,badparse,badconfig,missing
func ZZFile() {
	o, r, a := zz05Base()
	vos.Reset()
	stem := []string{"c", "d.e/c", ".", "c."}[v.Choose("stem", 4)]
	b := v.Bytes("name", v.Choose("namelen", 6))
	for i := range b {
		v.Assume(v.And(b[i] < 0x80, v.And(b[i] != '/', b[i] != 0)))
	}
	name := stem + string(b)
	ext := ""
	for i := len(name) - 1; i >= 0 && name[i] != '/'; i-- {
		if name[i] == '.' {
			ext = name[i+1:]
			break
		}
	}
	fail, invalid := v.Bool("parse fails"), v.Bool("invalid")
	zz05Doc(fail, invalid)
	if name == "." || name == ".." || name == "c/.." {
		v.Prune()
	}
	if v.Bool("missing") {
		err := zzGetManager().LoadConfigFile("/x/" + name)
		v.Cover("missing")
		v.Assert(err != nil, "missing-rejected")
		zz05Unchanged(o, r, a)
		return
	}
	vos.Put("/x/"+name, []byte("doc"), 0600)
	err := zzGetManager().LoadConfigFile("/x/" + name)
	zz05Verdict(o, r, a, err, zz05Type(ext), fail, invalid)
}

// zz05Long is a name that the others differ from in the middle only.
func zz05Long(kind string, i int, c byte) string {
	return "a rather long name for the " + kind + " " + string([]byte{byte('0' + i/10), byte('0' + i%10), c}) + " of this configuration"
}

// longer lists with long names, with one defect at any place or none
// zz: cover=accepted,dupformat,dupoutput,duplogger,noformat,nooutput
func ZZMany() {
	o, r, a := zz05Base()
	n := []int{4, 9}[v.Choose("size", v.Bound("sizes", 2, 2))]
	c := v.Byte("c")
	v.Assume(c != 'x')
	cfg := &api.Config{}
	for i := 0; i < n; i++ {
		f := zz05Long("format", i, 'x')
		cfg.Formats = append(cfg.Formats, api.CfgFormat{"type": "capf", "name": f})
		cfg.Outputs = append(cfg.Outputs, api.CfgOutput{"type": "cap", "name": zz05Long("output", i, 'x'), "format": zz05Long("format", (i+1)%n, 'x')})
		l := api.CfgLogger{Name: zz05Long("logger", i, 'x'), Level: "info"}
		for j := 0; j < n; j++ {
			l.OutputNames = append(l.OutputNames, zz05Long("output", (i+j)%n, 'x'))
		}
		cfg.Loggers = append(cfg.Loggers, l)
	}
	i := v.Choose("where", n)
	j := v.Choose("other", n)
	same := func(kind string) string { // as the name of j, or almost
		if v.Bool("almost") {
			return zz05Long(kind, j, c)
		}
		return zz05Long(kind, j, 'x')
	}
	bad := ""
	switch v.Choose("defect", 5) {
	case 0:
		cfg.Outputs[i]["format"] = same("format")
		if cfg.Outputs[i]["format"] != zz05Long("format", j, 'x') {
			bad = "noformat"
		}
	case 1:
		cfg.Loggers[i].OutputNames[j] = same("output")
		if cfg.Loggers[i].OutputNames[j] != zz05Long("output", j, 'x') {
			bad = "nooutput"
		}
	case 2:
		// one more format, output or logger, like another
		x := same("format")
		f := api.CfgFormat{"type": "capf", "name": x, "layout": "l"}
		cfg.Formats = append(append(append([]api.CfgFormat(nil), cfg.Formats[:i]...), f), cfg.Formats[i:]...)
		if x == zz05Long("format", j, 'x') {
			bad = "dupformat"
		}
	case 3:
		x := same("output")
		f := api.CfgOutput{"type": "cap", "name": x, "format": zz05Long("format", 0, 'x'), "tag": "t"}
		cfg.Outputs = append(append(append([]api.CfgOutput(nil), cfg.Outputs[:i]...), f), cfg.Outputs[i:]...)
		if x == zz05Long("output", j, 'x') {
			bad = "dupoutput"
		}
	case 4:
		x := same("logger")
		f := api.CfgLogger{Name: x, Level: "warn", OutputNames: []string{zz05Long("output", 0, 'x')}}
		cfg.Loggers = append(append(append([]api.CfgLogger(nil), cfg.Loggers[:i]...), f), cfg.Loggers[i:]...)
		if x == zz05Long("logger", j, 'x') {
			bad = "duplogger"
		}
	}
	err := zzGetManager().SetConfig(cfg)
	v.Observe("verdict", err != nil)
	if bad != "" {
		v.Cover(bad)
		v.Assert(err != nil, "invalid-rejected")
		zz05Unchanged(o, r, a)
	} else {
		v.Cover("accepted")
		v.Assert(err == nil, "valid-accepted")
	}
}

// names that are missing or empty are names like others
// zz: cover=accepted,rejected
func ZZMissing() {
	o, r, a := zz05Base()
	def := func(kind string) (map[string]string, string) {
		m := map[string]string{"type": "cap"}
		if kind == "f" {
			m["type"] = "capf"
		}
		switch v.Choose("name "+kind, 3) {
		case 0:
			m["name"] = "n"
			return m, "n"
		case 1:
			m["name"] = ""
		}
		return m, ""
	}
	cfg := &api.Config{}
	f1, n1 := def("f")
	cfg.Formats = append(cfg.Formats, f1)
	two := v.Bool("two formats")
	bad := false
	n2 := "m"
	if two {
		f2, x := def("f")
		cfg.Formats = append(cfg.Formats, f2)
		n2 = x
		bad = n1 == n2
	}
	o1, on := def("o")
	switch v.Choose("format of output", 4) {
	case 0:
		bad = bad || n1 != "" && n2 != ""
	case 1:
		o1["format"] = ""
		bad = bad || n1 != "" && n2 != ""
	case 2:
		o1["format"] = "n"
		bad = bad || n1 != "n" && n2 != "n"
	case 3:
		o1["format"] = "N"
		bad = true
	}
	cfg.Outputs = append(cfg.Outputs, o1)
	l := api.CfgLogger{Level: "info", Name: []string{"", "root", "n"}[v.Choose("logger", 3)]}
	switch v.Choose("output of logger", 4) {
	case 1:
		l.OutputNames = []string{""}
		bad = bad || on != ""
	case 2:
		l.OutputNames = []string{"n"}
		bad = bad || on != "n"
	case 3:
		l.OutputNames = []string{on, "other"}
		bad = true
	}
	cfg.Loggers = append(cfg.Loggers, l)
	err := zzGetManager().SetConfig(cfg)
	v.Observe("verdict", err != nil)
	if bad {
		v.Cover("rejected")
		v.Assert(err != nil, "invalid-rejected")
		zz05Unchanged(o, r, a)
	} else {
		v.Cover("accepted")
		v.Assert(err == nil, "valid-accepted")
	}
}
