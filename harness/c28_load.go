package internal

import (
	"errors"
	"strings"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	vjson "github.com/xtfly/log4g/internal/zz_vjson"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vyaml "github.com/xtfly/log4g/internal/zz_vyaml"
)

// ASSUME: the decoders map a document to the Config structure by its field tags as yaml.v2 and encoding/json do (exact keys for YAML, keys of any case for JSON; text scalars only); the model of them starts from the parsed document, whose parsing is theirs. Documents of up to the bound of entries.

// zz28Node is a parsed document: a text, a list, or a mapping (keys for items).
type zz28Node struct {
	text  string
	items []zz28Node
	keys  []string
}

func zz28Text(s string) zz28Node { return zz28Node{text: s} }

func zz28Map(kv ...interface{}) zz28Node {
	var n zz28Node
	for i := 0; i < len(kv); i += 2 {
		n.keys = append(n.keys, kv[i].(string))
		if s, ok := kv[i+1].(string); ok {
			n.items = append(n.items, zz28Text(s))
		} else {
			n.items = append(n.items, kv[i+1].(zz28Node))
		}
	}
	return n
}

// zz28Key is the key of a field for a decoder.
func zz28Key(tag, field, dec string) string {
	if i := strings.Index(tag, dec+`:"`); i >= 0 {
		t := tag[i+len(dec)+2:]
		t = t[:strings.IndexByte(t, '"')]
		if j := strings.IndexByte(t, ','); j >= 0 {
			t = t[:j]
		}
		if t != "" {
			return t
		}
	}
	if dec == "yaml" {
		return strings.ToLower(field)
	}
	return field
}

func zz28Decode(n zz28Node, p interface{}, dec string) error {
	table := func(n zz28Node) map[string]string {
		m := map[string]string{}
		for i, k := range n.keys {
			m[k] = n.items[i].text
		}
		return m
	}
	switch x := p.(type) {
	case *string:
		*x = n.text
		return nil
	case *[]string:
		for _, i := range n.items {
			*x = append(*x, i.text)
		}
		return nil
	case *[]api.CfgFormat:
		for _, i := range n.items {
			*x = append(*x, table(i))
		}
		return nil
	case *[]api.CfgOutput:
		for _, i := range n.items {
			*x = append(*x, table(i))
		}
		return nil
	case *[]api.CfgLogger:
		for _, i := range n.items {
			var l api.CfgLogger
			if err := zz28Decode(i, &l, dec); err != nil {
				return err
			}
			*x = append(*x, l)
		}
		return nil
	}
	ptrs, names, tags := v.Fields(p)
	for i, k := range n.keys {
		known := false
		for j := range ptrs {
			key := zz28Key(tags[j], names[j], dec)
			if key == k || dec == "json" && strings.EqualFold(key, k) {
				if err := zz28Decode(n.items[i], ptrs[j], dec); err != nil {
					return err
				}
				known = true
				break
			}
		}
		if !known && (dec == "json" && vjson.Strict || dec == "yaml" && vyaml.Strict) {
			return errors.New("unknown key")
		}
	}
	return nil
}

// zz28Load has the decoders read doc from exactly these bytes, and loads it.
func zz28Load(doc zz28Node, m api.Manager) error {
	bs := []string{"document", "a: $HOME ${PATH} %41%s\t\\n\r\n\xc3\xa9 # x\n---\n{{.}}x", zzText('d', 9000)}[v.Choose("document", 3)]
	hook := func(dec string) func([]byte, interface{}) error {
		return func(b []byte, out interface{}) error {
			if string(b) != bs {
				return errors.New("another document")
			}
			return zz28Decode(doc, out, dec)
		}
	}
	other := func([]byte, interface{}) error { return errors.New("not of this type") }
	ext := []string{"yaml", "yml", "json", "JSON", "Yaml", "YML"}[v.Choose("type", 6)]
	if len(ext) == 4 && (ext[0] == 'j' || ext[0] == 'J') {
		vyaml.Hook, vjson.Hook = other, hook("json")
		v.Cover("json")
	} else {
		vyaml.Hook, vjson.Hook = hook("yaml"), other
		v.Cover("yaml")
	}
	if v.Bool("file") {
		vos.Reset()
		name := []string{"/c.", "/d.json/c.x.", "rel."}[v.Choose("file name", 3)] + ext
		vos.Put(name, []byte(bs), 0600)
		v.Cover("file")
		return m.LoadConfigFile(name)
	}
	return m.LoadConfig([]byte(bs), ext)
}

// zz28Seen is what creators were given.
type zz28Seen struct {
	formats, outputs []map[string]string
	outs             map[string]*vcap.Out
}

func zz28Types() *zz28Seen {
	s := &zz28Seen{outs: map[string]*vcap.Out{}}
	m := zzGetManager()
	m.RegisterOutputCreator("cap", func(c api.CfgOutput) (api.Output, error) {
		o := &vcap.Out{Name: c["name"]}
		s.outputs = append(s.outputs, c)
		s.outs[c["name"]] = o
		return o, nil
	})
	m.RegisterFormatterCreator("capf", func(c api.CfgFormat) (api.Formatter, error) {
		s.formats = append(s.formats, c)
		return &vcap.Fmt{Pre: c["name"]}, nil
	})
	return s
}

func zz28Same(got, want map[string]string) bool {
	if len(got) != len(want) {
		return false
	}
	eq := true
	for k, x := range want {
		g, ok := got[k]
		eq = v.And(eq, v.And(ok, g == x))
	}
	return eq
}

func zz28Has(n zz28Node, key string) bool {
	for _, k := range n.keys {
		if k == key {
			return true
		}
	}
	return false
}

// the document's formats, outputs and loggers are the ones in effect
// zz: cover=json,yaml,file,unknown-key
func ZZDocument() {
	s := zz28Types()
	v.MapOrder(false)
	val := v.String("value", v.Choose("valuelen", 3))
	f := zz28Map("name", "f", "type", "capf", "layout", val)
	if v.Bool("order") {
		f = zz28Map("layout", val, "type", "capf", "name", "f")
	}
	o1 := zz28Map("name", "o1", "type", "cap", "format", "f", "size", val)
	o2 := zz28Map("format", "f", "type", "cap", "name", "o2")
	lv := []string{"", "trace", "WARN", "off", "Error"}[v.Choose("level", 5)]
	want := []api.Level{api.Info, api.Trace, api.Warn, api.Off, api.Error}[v.Choose("levelidx", 5)]
	if (lv == "") != (want == api.Info) || lv != "" && !strings.EqualFold(want.String(), lv) {
		v.Prune()
	}
	nouts := v.Choose("nouts", 3)
	var outs []zz28Node
	for i := 0; i < nouts; i++ {
		outs = append(outs, zz28Text([]string{"o2", "o1"}[i]))
	}
	a := zz28Map("name", "a", "level", lv, "outputs", zz28Node{items: outs})
	if v.Bool("order") {
		a = zz28Map("outputs", zz28Node{items: outs}, "level", lv, "name", "a")
	}
	root := zz28Map("name", "root", "level", "info", "outputs", zz28Node{items: []zz28Node{zz28Text("o1")}})
	parts := []zz28Node{{items: []zz28Node{f}}, {items: []zz28Node{o1, o2}}, {items: []zz28Node{root, a}}}
	keys := []string{"formats", "outputs", "loggers"}
	var doc zz28Node
	for _, i := range [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}[v.Choose("parts", 3)] {
		doc.keys = append(doc.keys, keys[i])
		doc.items = append(doc.items, parts[i])
	}
	if nouts == 0 {
		// keys that mean nothing
		for _, n := range []*zz28Node{&doc, &doc.items[0].items[0], &doc.items[1].items[0], &doc.items[2].items[0]} {
			if n == &doc || n.text == "" && zz28Has(*n, "level") {
				n.keys, n.items = append(n.keys, "comment"), append(n.items, zz28Text("x"))
			}
		}
		v.Cover("unknown-key")
	}
	v.Assert(zz28Load(doc, zzGetManager()) == nil, "document-accepted")
	r, l := zzGetLogger("root"), zzGetLogger("a")
	v.Assert(r.Level() == api.Info, "document-level")
	v.Observe("level", lv, int(l.Level()))
	v.Assert(l.Level() == want, "document-level")
	r.Critical("r")
	l.Critical("l")
	n := func(name string) int {
		if s.outs[name] == nil {
			return 0
		}
		return len(s.outs[name].Evts)
	}
	on := v.IteInt(want == api.Off, 0, 1)
	// a without outputs of its own writes to those of root
	w1, w2 := 1, 0
	switch nouts {
	case 0:
		w1 += on
	case 1:
		w2 = on
	default:
		w1, w2 = w1+on, on
	}
	v.Assert(n("o1") == w1 && n("o2") == w2, "document-outputs")
	for _, c := range s.formats {
		v.Assert(zz28Same(c, map[string]string{"name": "f", "type": "capf", "layout": val}), "format-definition")
	}
	v.Assert(len(s.formats) == 1, "format-definition")
	for _, c := range s.outputs {
		w := map[string]string{"name": "o2", "type": "cap", "format": "f"}
		if c["name"] == "o1" {
			w = map[string]string{"name": "o1", "type": "cap", "format": "f", "size": val}
		}
		v.Assert(zz28Same(c, w), "output-definition")
	}
	o, _ := s.outs["o1"].F.(*vcap.Fmt)
	v.Assert(o != nil && o.Pre == "f", "output-format")
}

// the bundled output and format types as documents define them
// zz: cover=json,yaml,console,size
func ZZBundled() {
	ms := v.String("lit", 1)
	v.Assume(ms != "%")
	f := zz28Map("name", "f", "type", "text", "layout", ms+"%{level}:%{msg};")
	o := zz28Map("name", "o", "type", "console", "format", "f", "threshold", "warn")
	size := v.Bool("size")
	if size {
		o = zz28Map("name", "o", "type", "size_rolling_file", "format", "f", "threshold", "warn", "file", "/l/f", "size", "1K")
		v.Cover("size")
	} else {
		v.Cover("console")
	}
	one := func(n zz28Node) zz28Node { return zz28Node{items: []zz28Node{n}} }
	doc := zz28Map("loggers", one(zz28Map("name", "root", "level", "debug", "outputs", one(zz28Text("o")))), "outputs", one(o), "formats", one(f))
	v.Assert(zz28Load(doc, zzGetManager()) == nil, "document-accepted")
	zzGetLogger("a").Info("i")
	zzGetLogger("a").Error("e")
	text := zzStdout()
	if size {
		b, _ := vos.Content("/l/f")
		text = string(b)
	}
	v.Assert(text == ms+"ERROR:e;", "document-in-effect")
}

// long documents: many formats, outputs and loggers, each with many keys
// zz: cover=json,yaml,file
func ZZMany() {
	s := zz28Types()
	v.MapOrder(false)
	n := v.Bound("entries", 12, 40)
	val := zzText('v', 300) + v.String("value", 1)
	var fs, os, ls []zz28Node
	def := func(name, typ string) zz28Node {
		d := zz28Map("name", name, "type", typ)
		for k := 0; k < 10; k++ {
			d.keys = append(d.keys, "key_"+zzItoa(k))
			d.items = append(d.items, zz28Text(zzItoa(k)+val))
		}
		return d
	}
	ls = append(ls, zz28Map("name", "root", "level", "critical", "outputs", zz28Node{items: []zz28Node{zz28Text("o0")}}))
	for i := 0; i < n; i++ {
		fs = append(fs, def("f"+zzItoa(i), "capf"))
		o := def("o"+zzItoa(i), "cap")
		o.keys, o.items = append(o.keys, "format"), append(o.items, zz28Text("f"+zzItoa(i)))
		os = append(os, o)
		ls = append(ls, zz28Map("name", "l"+zzItoa(i), "level", []string{"trace", "error"}[i%2], "outputs", zz28Node{items: []zz28Node{zz28Text("o" + zzItoa(i)), zz28Text("o" + zzItoa((i+1)%n))}}))
	}
	doc := zz28Map("loggers", zz28Node{items: ls}, "formats", zz28Node{items: fs}, "outputs", zz28Node{items: os})
	v.Assert(zz28Load(doc, zzGetManager()) == nil, "document-accepted")
	for i := 0; i < n; i++ {
		l := zzGetLogger("l" + zzItoa(i))
		v.Assert(l.Level() == []api.Level{api.Trace, api.Error}[i%2], "document-level")
		l.Error("m")
	}
	v.Assert(len(s.outputs) == n && len(s.formats) == n, "each-created-once")
	for i := 0; i < n; i++ {
		o := s.outs["o"+zzItoa(i)]
		v.Assert(o != nil && len(o.Evts) == 2, "document-outputs")
		f, _ := o.F.(*vcap.Fmt)
		v.Assert(f != nil && f.Pre == "f"+zzItoa(i), "output-format")
	}
	for _, c := range append(s.outputs, s.formats...) {
		v.Assert(c["key_9"] == "9"+val && c["key_0"] == "0"+val, "definition")
		v.Assert(len(c) == v.IteInt(c["type"] == "cap", 13, 12), "definition")
	}
}
