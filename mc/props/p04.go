package props

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"gopkg.in/yaml.v2"
	"verif/mc/engine"
)

// P04: YAML and JSON forms are equivalent.

// topKeys lists top level members of a JSON document in order.
func topKeys(b []byte) (res []string) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	if _, err := d.Token(); err != nil {
		panic("engine: " + err.Error())
	}
	for d.More() {
		t, err := d.Token()
		if err != nil {
			panic("engine: " + err.Error())
		}
		res = append(res, t.(string))
		var raw json.RawMessage
		if err := d.Decode(&raw); err != nil {
			panic("engine: " + err.Error())
		}
	}
	return
}

// saveYAML checks that the YAML form of the document is loaded back as the same document.
func saveYAML(c *engine.Ctx, ver, class string, doc obj) {
	in := []byte(js(doc))
	c.Logf("%s", in)
	s := newSpec(ver)
	if err := s.UnmarshalJSON(in); err != nil {
		c.Failf(ver+" "+class+" load", "valid document is rejected: %v\n%s", err, in)
	}
	j, err := s.MarshalJSON()
	if err != nil {
		c.Failf(ver+" "+class+" save", "%v\n%s", err, in)
	}
	c.Step(1)
	y, err := s.MarshalYAML()
	if err != nil {
		c.Failf(ver+" "+class+" save yaml", "document can not be saved as YAML: %v\n%s", err, in)
	}
	c.StateBytes(y)
	var top yaml.MapSlice
	if err := yaml.Unmarshal(y, &top); err != nil {
		c.Failf(ver+" "+class+" broken yaml", "document is saved as broken YAML: %v\n%s", err, y)
	}
	var order []string
	for _, it := range top {
		order = append(order, fmt.Sprint(it.Key))
	}
	if fmt.Sprint(order) != fmt.Sprint(topKeys(j)) {
		c.Failf(ver+" order", "members of the document in YAML are %v, in JSON %v", order, topKeys(j))
	}
	s2 := newSpec(ver)
	c.Step(1)
	if err := s2.UnmarshalYAML(y); err != nil {
		c.Failf(ver+" "+class+" reload", "document saved as YAML can not be loaded: %v\n%s\n%s", err, in, y)
	}
	j2, err := s2.MarshalJSON()
	if err != nil {
		c.Failf(ver+" "+class+" resave", "%v\n%s", err, in)
	}
	a, _ := strictDecode(j)
	b, err := strictDecode(j2)
	if err != nil {
		c.Failf(ver+" "+class+" strict", "%v", err)
	}
	if d := jsonDiff("#", a, b); d != "" {
		c.Failf(ver+" "+class+" changed", "document changed by saving and loading as YAML: %s\n%s\n%s", d, in, y)
	}
	c.Outcome("same")
}

// ---- spelling of documents in YAML

type spelling struct {
	name               string
	flow, plain, alias bool
	tabs               int
	head               string
}

var spellings = []spelling{
	{name: "block", tabs: 2},
	{name: "flow", flow: true},
	{name: "plain keys and scalars", plain: true, tabs: 2},
	{name: "block with anchors", alias: true, tabs: 4, head: "%YAML 1.1\n---\n# comment\n"},
	{name: "flow with plain scalars", flow: true, plain: true, head: "---\n"},
	{name: "plain with anchors", plain: true, alias: true, tabs: 3, head: "# comment\n\n"},
}

var (
	plainSafe = regexp.MustCompile(`^[A-Za-z/$][A-Za-z0-9_./$-]*$`)
	// Text that single quotes can hold.
	plainQuotable = regexp.MustCompile(`^[ -~\x{e0}-\x{ff}]+$`)
	plainInt      = regexp.MustCompile(`^[1-9][0-9]{2}$`)
	reserved      = map[string]bool{"y": true, "n": true, "yes": true, "no": true, "on": true, "off": true, "true": true, "false": true, "null": true}
)

type yamlWriter struct {
	sp    spelling
	seen  map[string]string
	count map[string]int
	sb    strings.Builder
	n     int
}

func (w *yamlWriter) scan(v interface{}) {
	switch x := v.(type) {
	case obj:
		if len(x) > 0 {
			w.count[js(x)]++
		}
		for _, e := range x {
			w.scan(e)
		}
	case arr:
		if len(x) > 0 {
			w.count[js(x)]++
		}
		for _, e := range x {
			w.scan(e)
		}
	}
}

func quote(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r < 0x20 || r == 0x7f || r >= 0x80 && r < 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff:
			fmt.Fprintf(&sb, "\\u%04x", r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (w *yamlWriter) scalar(v interface{}, key bool) string {
	s, ok := v.(string)
	if !ok {
		return js(v)
	}
	if w.sp.plain {
		if plainSafe.MatchString(s) && !reserved[strings.ToLower(s)] {
			return s
		}
		if key && plainInt.MatchString(s) {
			return s // a number as the key
		}
		if plainQuotable.MatchString(s) {
			return "'" + strings.ReplaceAll(s, "'", "''") + "'"
		}
	}
	return quote(s)
}

// anchor returns the alias of a container that was written before, or the anchor to write.
func (w *yamlWriter) anchor(v interface{}) (alias, anchor string) {
	if !w.sp.alias {
		return
	}
	k := js(v)
	if w.count[k] < 2 {
		return
	}
	if a, ok := w.seen[k]; ok {
		return "*" + a, ""
	}
	w.n++
	w.seen[k] = "a" + strconv.Itoa(w.n)
	return "", "&" + w.seen[k] + " "
}

func (w *yamlWriter) flowValue(v interface{}) string {
	switch x := v.(type) {
	case obj:
		var ms []string
		for _, k := range keys(x) {
			ms = append(ms, w.scalar(k, true)+": "+w.flowValue(x[k]))
		}
		return "{" + strings.Join(ms, ", ") + "}"
	case arr:
		var ms []string
		for _, e := range x {
			ms = append(ms, w.flowValue(e))
		}
		return "[" + strings.Join(ms, ", ") + "]"
	}
	return w.scalar(v, false)
}

func (w *yamlWriter) block(v interface{}, depth int) string {
	pad := strings.Repeat(" ", w.sp.tabs*depth)
	switch x := v.(type) {
	case obj:
		if len(x) == 0 {
			return " {}\n"
		}
		al, an := w.anchor(v)
		if al != "" {
			return " " + al + "\n"
		}
		s := " " + strings.TrimSpace(an) + "\n"
		for _, k := range keys(x) {
			s += pad + w.scalar(k, true) + ":" + w.block(x[k], depth+1)
		}
		return s
	case arr:
		if len(x) == 0 {
			return " []\n"
		}
		al, an := w.anchor(v)
		if al != "" {
			return " " + al + "\n"
		}
		s := " " + strings.TrimSpace(an) + "\n"
		for _, e := range x {
			s += pad + "-" + w.block(e, depth+1)
		}
		return s
	}
	return " " + w.scalar(v, false) + "\n"
}

func spell(sp spelling, v interface{}) []byte {
	v = norm(v)
	w := &yamlWriter{sp: sp, seen: map[string]string{}, count: map[string]int{}}
	w.scan(v)
	if sp.flow {
		return []byte(sp.head + w.flowValue(v) + "\n")
	}
	return []byte(sp.head + strings.TrimLeft(w.block(v, 0), "\n "))
}

func loadYAML(c *engine.Ctx, ver, class string, doc obj, sp spelling) {
	in := []byte(js(doc))
	y := spell(sp, doc)
	c.Logf("%s", y)
	a, b := newSpec(ver), newSpec(ver)
	if err := a.UnmarshalJSON(in); err != nil {
		c.Failf(ver+" "+class+" load", "valid document is rejected: %v\n%s", err, in)
	}
	c.Step(1)
	if err := b.UnmarshalYAML(y); err != nil {
		c.Failf(ver+" "+class+" load yaml", "document is accepted as JSON and rejected as YAML: %v\n%s\n%s", err, in, y)
	}
	j1, err1 := a.MarshalJSON()
	j2, err2 := b.MarshalJSON()
	if err1 != nil || err2 != nil {
		c.Failf(ver+" "+class+" save", "%v %v", err1, err2)
	}
	x, _ := strictDecode(j1)
	z, err := strictDecode(j2)
	if err != nil {
		c.Failf(ver+" "+class+" strict", "%v", err)
	}
	c.StateBytes(j2)
	if d := jsonDiff("#", x, z); d != "" {
		c.Failf(ver+" "+class+" differs", "document loaded from YAML differs from the one loaded from JSON: %s\n%s\n%s", d, in, y)
	}
	c.Outcome("same " + sp.name)
}

// tricky scalars are strings that YAML could take for something else.
var trickyStrings = []string{"", "y", "n", "yes", "no", "on", "off", "Yes", "NO", "On", "OFF", "true", "True", "FALSE", "false", "null", "Null", "NULL", "~", "0", "1", "-1", "+1", "1.0", ".5", "5.", "1e3", "1E3", "1e400", "0x1f", "0o17", "017", "0b11", "1_000",
	".inf", "-.inf", "+.INF", ".nan", ".NaN", "2001-01-01", "2001-01-01T00:00:00Z", "2001-1-1 0:0:0", "12:30:45", "1:20", "<<", "=", "!tag", "!!str", "&a", "*a", "- a", "-", "a: b", ":", "a:", "# c", "a #b", " a", "a ", "\t", "a\tb", "\n", "a\nb", "a\n", "\na", "a\n\nb ", "'", "''", "\"", "\\", "\\n", "é", "日本", "😀",
	"\u2028", "\u0085", "\ufeff", "\u007f", "\u0000", "\u0007", "%", "@", "`", "{", "}", "{}", "[", "]", "[]", "|", ">", "?", "? a", "---", "...", "- ", "a,b", "200", "0.0", "00", "-0", "1e", "0x", "NaN", "Infinity", "9007199254740993", "18446744073709551616", strings.Repeat("long text ", 20), strings.Repeat("x", 300)}

var trickyOther = []interface{}{0, 1, -1, 1.5, 1e21, 1e-7, 1e300, 123456789, 1234567890123, int64(9007199254740991), 0.1, 100, 1000000, 1e20, 12345678.9, true, false, nil, arr{}, obj{}, arr{arr{}, arr{nil}}, obj{"": obj{"": nil}}, arr{obj{"a": 1}, obj{"a": 1}}}

// scalarPositions put a value into a document.
func scalarPositions(ver string) []struct {
	name string
	str  bool
	put  func(d obj, v interface{})
} {
	type pos = struct {
		name string
		str  bool
		put  func(d obj, v interface{})
	}
	return []pos{
		{"extension", false, func(d obj, v interface{}) { d["x-v"] = v }},
		{"in extension", false, func(d obj, v interface{}) { d["info"].(obj)["x-v"] = arr{v, obj{"k": v}} }},
		{"title", true, func(d obj, v interface{}) { d["info"].(obj)["title"] = v }},
		{"extension key", true, func(d obj, v interface{}) { d["x-v"] = obj{v.(string): 1, "other": v} }},
		{"example", false, func(d obj, v interface{}) {
			d["components"] = obj{"examples": obj{"E": obj{"value": v}}}
		}},
		{"property name", true, func(d obj, v interface{}) {
			d["components"] = obj{"schemas": obj{"S": obj{"properties": obj{v.(string): obj{"type": "string"}}, "required": arr{v}}}}
		}},
		{"default and enum", false, func(d obj, v interface{}) {
			d["components"] = obj{"schemas": obj{"S": obj{"default": v, "enum": arr{v, "e"}}}}
		}},
		{"scope", true, func(d obj, v interface{}) {
			d["security"] = arr{obj{"S": arr{v}}}
			d["tags"] = arr{obj{"name": v, "description": v}}
		}},
		{"server variable", true, func(d obj, v interface{}) {
			d["servers"] = arr{obj{"url": "/", "variables": obj{v.(string): obj{"default": v}}}}
		}},
		{"media type and header", true, func(d obj, v interface{}) {
			d["components"] = obj{"responses": obj{"R": obj{"description": v, "content": obj{"a/b": obj{"example": v}}, "headers": obj{v.(string): obj{"schema": obj{"type": "string"}}}}}}
		}},
	}
}

func scalarScenario(ver string) *engine.Scenario {
	pos := scalarPositions(ver)
	return &engine.Scenario{
		Name:  ver + " scalars",
		Bound: fmt.Sprintf("%d strings that YAML could read as another type and %d other values at %d kinds of position, saved as YAML and loaded from %d spellings", len(trickyStrings), len(trickyOther), len(pos), len(spellings)),
		Run: func(c *engine.Ctx) {
			p := engine.Pick(c, "position", pos)
			n := len(trickyStrings)
			if !p.str {
				n += len(trickyOther)
			}
			k := c.Choose("value", n)
			var v interface{}
			if k < len(trickyStrings) {
				v = trickyStrings[k]
			} else {
				v = trickyOther[k-len(trickyStrings)]
			}
			d := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
			if ver == "3.1" {
				d["openapi"] = "3.1.0"
			}
			p.put(d, v)
			class := fmt.Sprintf("scalar %s", p.name)
			if v == "<<" {
				class = "merge key"
			}
			if s := c.Choose("spelling", len(spellings)+1); s > 0 {
				loadYAML(c, ver, class, d, spellings[s-1])
			} else {
				saveYAML(c, ver, class, d)
			}
		},
	}
}

// literalScenario loads plain YAML scalars and special syntax with known JSON equivalents.
func literalScenario(ver string) *engine.Scenario {
	open := map[string]string{"3.0": "3.0.3", "3.1": "3.1.0"}[ver]
	type lit struct{ yaml, json string } // value of x-v
	lits := []lit{
		{"yes", "true"}, {"No", "false"}, {"on", "true"}, {"OFF", "false"}, {"true", "true"}, {"~", "null"}, {"null", "null"}, {"", "null"},
		{"1", "1"}, {"0x1f", "31"}, {"1e3", "1000"}, {"1_000", "1000"}, {"-1.5", "-1.5"}, {"0b11", "3"}, {"!!str 1", `"1"`}, {"!!str yes", `"yes"`}, {"!!int 3", "3"}, {"!!float 3", "3"},
		{"2001-01-01", `"2001-01-01"`}, {"2001-01-01T00:00:00Z", `"2001-01-01T00:00:00Z"`}, {"1.0.0", `"1.0.0"`}, {"a b", `"a b"`}, {"'it''s'", `"it's"`},
		{"|\n  a\n  b\n", `"a\nb\n"`}, {">-\n  a\n  b\n", `"a b"`}, {"|-\n  a\n\n", `"a"`}, {"\"\\x41\\n\"", `"A\n"`},
		{"{1: a, 2.5: b, true: c, -3: d}", `{"1":"a","2.5":"b","true":"c","-3":"d"}`}, {"{1: {2: {3: [x, {4: w}]}}}", `{"1":{"2":{"3":["x",{"4":"w"}]}}}`},
		{"[[1, [2]], {k: [{5: 6}]}]", `[[1,[2]],{"k":[{"5":6}]}]`}, {"{200: {k: v}, 404: }", `{"200":{"k":"v"},"404":null}`}, {"{yes: 1}", `{"true":1}`}, {"{0x10: 1}", `{"16":1}`}, {"{2001-01-01: 1}", `{"2001-01-01":1}`},
		{"[&x {a: 1, 2: b}, *x, {<<: *x, c: 3}]", `[{"a":1,"2":"b"},{"a":1,"2":"b"},{"a":1,"2":"b","c":3}]`}, {"[&y [1, {3: 4}], *y]", `[[1,{"3":4}],[1,{"3":4}]]`}, {"{<<: {a: 1}, b: 2}", `{"a":1,"b":2}`}, {"[&s text, *s, {*s : *s}]", `["text","text",{"text":"text"}]`},
		{"\n  ? a\n  : b", `{"a":"b"}`}, {"\n  - 1\n  -\n    - 2\n  - k: 3", `[1,[2],{"k":3}]`}, {"[ ]", "[]"}, {"{ }", "{}"}, {"!!binary aGk=", `"hi"`}, {"# comment\n  v", `"v"`}, {"123456789012345678", "123456789012345678"},
	}
	return &engine.Scenario{
		Name:  ver + " literals",
		Bound: fmt.Sprintf("%d YAML literals (typed scalars, block scalars, non-string keys, anchors, merges) as extension, in an extension, as default of a schema and as example", len(lits)),
		Run: func(c *engine.Ctx) {
			l := engine.Pick(c, "literal", lits)
			var y, j string
			head := fmt.Sprintf("openapi: %s\ninfo: {title: t, version: v}\npaths: {}\n", open)
			jhead := fmt.Sprintf(`{"openapi":%q,"info":{"title":"t","version":"v"},"paths":{},`, open)
			switch c.Choose("position", 3) {
			case 0:
				y, j = head+"x-v: "+l.yaml+"\n", jhead+`"x-v":`+l.json+`}`
			case 1:
				y, j = head+"x-w:\n x-v: "+l.yaml+"\n", jhead+`"x-w":{"x-v":`+l.json+`}}`
			case 2:
				y, j = head+"components:\n examples:\n  E:\n   value: "+strings.ReplaceAll(l.yaml, "\n", "\n   ")+"\n", jhead+`"components":{"examples":{"E":{"value":`+l.json+`}}}}`
			}
			c.Logf("%s", y)
			a, b := newSpec(ver), newSpec(ver)
			if err := a.UnmarshalJSON([]byte(j)); err != nil {
				panic("engine: " + err.Error() + j)
			}
			c.Step(1)
			if err := b.UnmarshalYAML([]byte(y)); err != nil {
				c.Failf(ver+" literal load", "document is rejected: %v\n%s", err, y)
			}
			j1, _ := a.MarshalJSON()
			j2, err := b.MarshalJSON()
			if err != nil {
				c.Failf(ver+" literal save", "%v\n%s", err, y)
			}
			x, _ := strictDecode(j1)
			z, _ := strictDecode(j2)
			c.StateBytes(j2)
			if d := jsonDiff("#", x, z); d != "" {
				c.Failf(ver+" literal", "document loaded from YAML differs from its JSON equivalent: %s\n%s\n%s", d, y, j2)
			}
			c.Outcome(l.json)
		},
	}
}

// brokenYAML has texts that are no specification.
func brokenYAML(ver string, fs []focus, g grammar) *engine.Scenario {
	texts := []string{"", "\n", "---\n", "null", "[]", "- 1", "text", "1", "a: [", "a: {", "a: \"", "a: 'x", "\ta: 1", "a: b: c", "a: &x", "a: *x", "a: &x [*x]", "a: &x {b: *x}", "%YAML 9.9\n---\na: 1", "{{a: 1}}", "? {a: 1}\n: b", "[a: 1]: 2", "{[1]: 2}",
		"openapi: 3.0.3", "openapi: 3.1.0\n", "openapi: [1]", "x: .nan", "x: .inf", "!!binary x", "a: !!int x", "a: !!float x", "<<: 1", "<<: [1]", "a: |\nb", "\x00", "\xff\xfe", "a: \x01", "- a\nb: c", "...", "--- a\n--- b"}
	return &engine.Scenario{
		Name:  ver + " broken",
		Bound: fmt.Sprintf("%d texts that are no specification, values that JSON does not have at every position of a free-form value, and the YAML form of the minimal document of every focus cut at every byte", len(texts)),
		Run: func(c *engine.Ctx) {
			s := newSpec(ver)
			head := "openapi: " + map[string]string{"3.0": "3.0.3", "3.1": "3.1.0"}[ver] + "\ninfo: {title: t, version: v}\npaths: {}\n"
			must := true
			var in []byte
			switch k := c.Choose("text", len(texts)+2); {
			case k < len(texts):
				in = []byte(texts[k])
			case k == len(texts):
				in = []byte(head + engine.Pick(c, "value", []string{"x-v: .nan", "x-v: .inf", "x-v: [1, -.inf]", "x-v: {a: {b: .NaN}}", "x-v: &a [*a]", "x-v: *unknown", "x-v: !!float x", "x-v: {a: b", "x-v: 'a"}))
			default:
				f := engine.Pick(c, "focus", fs)
				y := spell(spellings[0], f.document(c, g, 0))
				in = y[:c.Choose("at", len(y)+1)]
				must = false
			}
			c.Logf("%q", in)
			c.Step(1)
			err := s.UnmarshalYAML(in)
			if err == nil && must {
				c.Failf(ver+" broken", "text is accepted: %q", in)
			}
			if err == nil {
				if _, err := s.MarshalYAML(); err != nil {
					c.Failf(ver+" broken save", "document is accepted and can not be saved: %v: %q", err, in)
				}
			}
			c.Outcome(fmt.Sprint(err == nil))
		},
	}
}

func init() {
	register(&Property{ID: "P04", Scenarios: func(tier string) (res []*engine.Scenario) {
		for _, ver := range versions {
			ver := ver
			g, fs := grammar30()
			if ver == "3.1" {
				g, fs = grammar31()
			}
			for _, f := range fs {
				f := f
				b := 2
				if heavyFoci[f.name] {
					b = 1
				}
				if tier == "thorough" {
					b++
				}
				res = append(res, &engine.Scenario{
					Name:  ver + " " + f.name,
					Bound: fmt.Sprintf("all documents within %d deviations from the minimal %s and with all of its members, saved as YAML and loaded from %d spellings", b, f.name, len(spellings)),
					Run: func(c *engine.Ctx) {
						s := c.Choose("spelling", len(spellings)+1)
						d := f.document(c, g, b)
						if s == 0 {
							saveYAML(c, ver, "document", d)
						} else {
							loadYAML(c, ver, "document", d, spellings[s-1])
						}
					},
				})
			}
			res = append(res, scalarScenario(ver), literalScenario(ver), brokenYAML(ver, fs, g))
		}
		return res
	}})
}
