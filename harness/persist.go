package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"sort"
	"strconv"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/enclave"
	ojson "github.com/snivilised/agenor/internal/opts/json"
	"github.com/snivilised/agenor/internal/persist"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	nef "github.com/snivilised/nefilim"
)

// Sequences of saves, loads and accidents of session files.  Every value is
// seen as a flat map from a field to its text.
type (
	flat = map[string]string

	sPersistOp struct {
		Op    string `json:"op"` // save load damage compare
		F     string `json:"f"`  // which file
		O     flat   `json:"o"`
		O2    flat   `json:"o2"`
		A     flat   `json:"a"`
		Fault string `json:"fault"` // none refuse torn
		How   string `json:"how"`   // how a file is damaged
		I     int    `json:"i"`
		Set   string `json:"set"` // the field a load is to tamper with
		To    string `json:"to"`
	}
	sPersist struct {
		Ops []sPersistOp `json:"ops"`
	}

	// store is the file system that sessions are saved in
	store struct {
		nef.WriteFileFS
		files map[string][]byte
		fault string
		at    int
		torn  bool
		perm  fs.FileMode
		names []string
	}
)

var errRefused = errors.New("refused")

func (s *store) WriteFile(name string, data []byte, perm os.FileMode) error {
	s.names = append(s.names, name)
	s.perm = perm
	switch s.fault {
	case "refuse":
		return errRefused
	case "torn":
		n := s.at % len(data)
		s.files[name] = append([]byte{}, data[:n]...)
		return errRefused
	}
	s.files[name] = append([]byte{}, data...)
	return nil
}

func (s *store) ReadFile(name string) ([]byte, error) {
	b, ok := s.files[name]
	if !ok {
		return nil, fs.ErrNotExist
	}
	return append([]byte{}, b...), nil
}

func (s *store) Open(name string) (fs.File, error) { return nil, fs.ErrInvalid }

func num(v string) int {
	n, _ := strconv.Atoi(v)
	return n
}

func flatNode(m flat, p string, typ enums.FilterType, desc, pat string, scope enums.FilterScope, neg bool, ina enums.TriStateBool) {
	m[p] = "set"
	m[p+".type"] = fmt.Sprint(uint(typ))
	m[p+".desc"] = desc
	m[p+".pat"] = pat
	m[p+".scope"] = fmt.Sprint(uint(scope))
	m[p+".neg"] = fmt.Sprint(neg)
	m[p+".ina"] = fmt.Sprint(int(ina))
}

func flatDef(m flat, p string, d *core.FilterDef) {
	if d == nil {
		m[p] = "nil"
		return
	}
	flatNode(m, p, d.Type, d.Description, d.Pattern, d.Scope, d.Negate, d.IfNotApplicable)
	if d.Poly == nil {
		m[p+".poly"] = "nil"
		return
	}
	m[p+".poly"] = "set"
	flatDef(m, p+".poly.file", &d.Poly.File)
	flatDef(m, p+".poly.dir", &d.Poly.Directory)
}

func flatJDef(m flat, p string, d *ojson.FilterDef) {
	if d == nil {
		m[p] = "nil"
		return
	}
	flatNode(m, p, d.Type, d.Description, d.Pattern, d.Scope, d.Negate, d.IfNotApplicable)
	if d.Poly == nil {
		m[p+".poly"] = "nil"
		return
	}
	m[p+".poly"] = "set"
	flatJDef(m, p+".poly.file", &d.Poly.File)
	flatJDef(m, p+".poly.dir", &d.Poly.Directory)
}

func flatO(o *pref.Options) flat {
	m := flat{
		"keep": fmt.Sprint(o.Behaviours.SubPath.KeepTrailingSep), "case": fmt.Sprint(o.Behaviours.Sort.IsCaseSensitive),
		"first": fmt.Sprint(o.Behaviours.Sort.SortFilesFirst), "depth": fmt.Sprint(o.Behaviours.Cascade.Depth),
		"norec": fmt.Sprint(o.Behaviours.Cascade.NoRecurse),
		"samp":  fmt.Sprint(uint(o.Sampling.Type)), "samp.rev": fmt.Sprint(o.Sampling.InReverse),
		"samp.files": fmt.Sprint(o.Sampling.NoOf.Files), "samp.dirs": fmt.Sprint(o.Sampling.NoOf.Directories),
		"inc.wake": fmt.Sprint(o.Hibernate.Behaviour.InclusiveWake), "inc.sleep": fmt.Sprint(o.Hibernate.Behaviour.InclusiveSleep),
		"now": fmt.Sprint(o.Concurrency.NoW), "child": "nil", "sample": "nil",
	}
	flatDef(m, "node", o.Filter.Node)
	flatDef(m, "wake", o.Hibernate.WakeAt)
	flatDef(m, "sleep", o.Hibernate.SleepAt)
	if c := o.Filter.Child; c != nil {
		m["child"] = "set"
		m["child.type"], m["child.desc"] = fmt.Sprint(uint(c.Type)), c.Description
		m["child.pat"], m["child.neg"] = c.Pattern, fmt.Sprint(c.Negate)
	}
	if c := o.Filter.Sample; c != nil {
		m["sample"] = "set"
		m["sample.type"], m["sample.desc"] = fmt.Sprint(uint(c.Type)), c.Description
		m["sample.pat"], m["sample.neg"], m["sample.scope"] = c.Pattern, fmt.Sprint(c.Negate), fmt.Sprint(uint(c.Scope))
	}
	return m
}

func flatJO(o *ojson.Options) flat {
	m := flat{
		"keep": fmt.Sprint(o.Behaviours.SubPath.KeepTrailingSep), "case": fmt.Sprint(o.Behaviours.Sort.IsCaseSensitive),
		"first": fmt.Sprint(o.Behaviours.Sort.SortFilesFirst), "depth": fmt.Sprint(o.Behaviours.Cascade.Depth),
		"norec": fmt.Sprint(o.Behaviours.Cascade.NoRecurse),
		"samp":  fmt.Sprint(uint(o.Sampling.Type)), "samp.rev": fmt.Sprint(o.Sampling.InReverse),
		"samp.files": fmt.Sprint(o.Sampling.NoOf.Files), "samp.dirs": fmt.Sprint(o.Sampling.NoOf.Directories),
		"inc.wake": fmt.Sprint(o.Hibernate.Behaviour.InclusiveWake), "inc.sleep": fmt.Sprint(o.Hibernate.Behaviour.InclusiveSleep),
		"now": fmt.Sprint(o.Concurrency.NoW), "child": "nil", "sample": "nil",
	}
	flatJDef(m, "node", o.Filter.Node)
	flatJDef(m, "wake", o.Hibernate.WakeAt)
	flatJDef(m, "sleep", o.Hibernate.SleepAt)
	if c := o.Filter.Child; c != nil {
		m["child"] = "set"
		m["child.type"], m["child.desc"] = fmt.Sprint(uint(c.Type)), c.Description
		m["child.pat"], m["child.neg"] = c.Pattern, fmt.Sprint(c.Negate)
	}
	if c := o.Filter.Sample; c != nil {
		m["sample"] = "set"
		m["sample.type"], m["sample.desc"] = fmt.Sprint(uint(c.Type)), c.Description
		m["sample.pat"], m["sample.neg"], m["sample.scope"] = c.Pattern, fmt.Sprint(c.Negate), fmt.Sprint(uint(c.Scope))
	}
	return m
}

func makeDef(m flat, p string) *core.FilterDef {
	if m[p] != "set" {
		return nil
	}
	d := &core.FilterDef{Type: enums.FilterType(num(m[p+".type"])), Description: m[p+".desc"], Pattern: m[p+".pat"],
		Scope: enums.FilterScope(num(m[p+".scope"])), Negate: m[p+".neg"] == "true",
		IfNotApplicable: enums.TriStateBool(num(m[p+".ina"]))}
	if m[p+".poly"] == "set" {
		d.Poly = &core.PolyFilterDef{File: *makeDef(m, p+".poly.file"), Directory: *makeDef(m, p+".poly.dir")}
	}
	return d
}

func makeO(m flat) *pref.Options {
	o := pref.DefaultOptions()
	fillO(o, m)
	return o
}

func fillO(o *pref.Options, m flat) {
	o.Behaviours.SubPath.KeepTrailingSep = m["keep"] == "true"
	o.Behaviours.Sort.IsCaseSensitive = m["case"] == "true"
	o.Behaviours.Sort.SortFilesFirst = m["first"] == "true"
	o.Behaviours.Cascade.Depth = uint(num(m["depth"]))
	o.Behaviours.Cascade.NoRecurse = m["norec"] == "true"
	o.Sampling.Type = enums.SampleType(num(m["samp"]))
	o.Sampling.InReverse = m["samp.rev"] == "true"
	o.Sampling.NoOf.Files = uint(num(m["samp.files"]))
	o.Sampling.NoOf.Directories = uint(num(m["samp.dirs"]))
	o.Filter.Node = makeDef(m, "node")
	o.Filter.Child, o.Filter.Sample = nil, nil
	if m["child"] == "set" {
		o.Filter.Child = &core.ChildFilterDef{Type: enums.FilterType(num(m["child.type"])), Description: m["child.desc"],
			Pattern: m["child.pat"], Negate: m["child.neg"] == "true"}
	}
	if m["sample"] == "set" {
		o.Filter.Sample = &core.SampleFilterDef{Type: enums.FilterType(num(m["sample.type"])), Description: m["sample.desc"],
			Pattern: m["sample.pat"], Negate: m["sample.neg"] == "true", Scope: enums.FilterScope(num(m["sample.scope"]))}
	}
	o.Hibernate.WakeAt = makeDef(m, "wake")
	o.Hibernate.SleepAt = makeDef(m, "sleep")
	o.Hibernate.Behaviour.InclusiveWake = m["inc.wake"] == "true"
	o.Hibernate.Behaviour.InclusiveSleep = m["inc.sleep"] == "true"
	o.Concurrency.NoW = uint(num(m["now"]))
}

func makeA(m flat) *core.ActiveState {
	a := &core.ActiveState{Tree: m["tree"], Subscription: enums.Subscription(num(m["sub"])), Hibernation: enums.Hibernation(num(m["hib"])),
		CurrentPath: m["at"], IsDir: m["isdir"] == "true", Depth: num(m["depth"]), Metrics: core.Metrics{}}
	a.TraverseDescription.IsRelative = m["trel"] == "true"
	a.ResumeDescription.IsRelative = m["rrel"] == "true"
	for k, v := range m {
		if len(k) == 2 && k[0] == 'm' {
			t := enums.Metric(num(k[1:]))
			a.Metrics[t] = &core.NavigationMetric{T: t, Counter: uint(num(v))}
		}
	}
	return a
}

func flatA(a *core.ActiveState) flat {
	m := flat{"tree": a.Tree, "sub": fmt.Sprint(uint(a.Subscription)), "hib": fmt.Sprint(uint(a.Hibernation)), "at": a.CurrentPath,
		"isdir": fmt.Sprint(a.IsDir), "depth": fmt.Sprint(a.Depth), "trel": fmt.Sprint(a.TraverseDescription.IsRelative),
		"rrel": fmt.Sprint(a.ResumeDescription.IsRelative)}
	for t, v := range a.Metrics {
		k := fmt.Sprintf("m%d", uint(t))
		m[k] = "nil"
		if v != nil {
			m[k] = fmt.Sprint(v.Counter)
			if v.T != t {
				m[k] = fmt.Sprintf("%d for another metric", v.Counter)
			}
		}
	}
	return m
}

// where leaf values are, in a document
type spot struct {
	get any
	set func(v any)
}

func leaves(v any, set func(any), out *[]spot) {
	switch x := v.(type) {
	case map[string]any:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			leaves(x[k], func(n any) { x[k] = n }, out)
		}
	case []any:
		for i := range x {
			leaves(x[i], func(n any) { x[i] = n }, out)
		}
	default:
		if v != nil {
			*out = append(*out, spot{get: v, set: set})
		}
	}
}

func damage(b []byte, op *sPersistOp) []byte {
	var doc map[string]any
	switch op.How {
	case "cut":
		if len(b) == 0 {
			return b
		}
		return b[:op.I%len(b)]
	case "tail":
		return append(append([]byte{}, b...), []string{"}", "x", "{}", "[]", "\x00", ",", "1"}[op.I%7]...)
	case "head":
		return append([]byte([]string{"{", "x", "[", "\x00", ",", "}"}[op.I%6]), b...)
	case "other":
		return []byte([]string{"", "null", "[]", "{}", "1", "\"x\"", "true", " "}[op.I%8])
	}
	if json.Unmarshal(b, &doc) != nil {
		return []byte("{")
	}
	switch op.How {
	case "section", "nosection":
		ks := []string{}
		for k := range doc {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if op.How == "section" {
			delete(doc, ks[op.I%len(ks)])
		} else {
			doc[ks[op.I%len(ks)]] = nil
		}
	case "kind":
		at := []spot{}
		leaves(doc, func(any) {}, &at)
		s := at[op.I%len(at)]
		n := op.I / len(at)
		switch s.get.(type) {
		case bool:
			s.set([]any{1, "true", []any{}, J{}}[n%4])
		case float64:
			s.set([]any{"1", 1.5, []any{}, J{}, true, 1e300}[n%6])
		case string:
			s.set([]any{1, true, []any{}, J{}}[n%4])
		}
	}
	out, err := json.MarshalIndent(doc, "", "  ")
	if err != nil {
		panic(err)
	}
	return out
}

func result(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, locale.ErrUnEqualConversion):
		return "unequal"
	}
	return "error"
}

func runPersist(raw json.RawMessage, t *Trace) {
	sc := &sPersist{}
	if err := json.Unmarshal(raw, sc); err != nil {
		panic(err)
	}
	st := &store{files: map[string][]byte{}}
	for k := range sc.Ops {
		op := &sc.Ops[k]
		switch op.Op {
		case "save":
			st.fault, st.at, st.perm, st.names = op.Fault, op.I, 0, []string{}
			o, a := makeO(op.O), makeA(op.A)
			res, err := persist.Marshal(&persist.MarshalRequest{Active: a, O: o, Path: op.F, Perm: 0o640, FS: st})
			ev := J{"e": "save", "f": op.F, "fault": op.Fault, "o": op.O, "a": op.A, "r": result(err), "oafter": flatO(o),
				"aafter": flatA(a), "names": st.names, "perm": fmt.Sprintf("%o", st.perm), "ro": flat{}, "ra": flat{}}
			if err == nil {
				ev["ro"], ev["ra"] = flatJO(res.JO), flatA(res.Active)
			}
			// what is kept is not affected by what is done to the options later
			if err == nil && op.How == "scribble" {
				fillO(o, flat{"depth": "77", "node": "set", "node.pat": "scribble"})
				a.Tree, a.CurrentPath = "scribble", "scribble"
				for _, m := range a.Metrics {
					m.Counter += 1000
				}
			}
			t.add(ev)
		case "load":
			strategy := enums.ResumeStrategyFastward
			res, err := persist.Unmarshal(&persist.UnmarshalRequest{Restore: &enclave.RestoreState{Path: op.F, FS: st, Strategy: strategy}})
			ev := J{"e": "load", "f": op.F, "r": result(err), "o": flat{}, "jo": flat{}, "a": flat{}}
			if err == nil {
				ev["o"], ev["jo"], ev["a"] = flatO(res.O), flatJO(res.JO), flatA(res.Active)
			}
			t.add(ev)
		case "damage":
			if b, ok := st.files[op.F]; ok {
				st.files[op.F] = damage(b, op)
			}
			t.add(J{"e": "damage", "f": op.F})
		case "remove":
			delete(st.files, op.F)
			t.add(J{"e": "remove", "f": op.F})
		case "compare":
			c := &persist.Comparison{O: makeO(op.O), JO: persist.ToJSON(makeO(op.O2))}
			t.add(J{"e": "compare", "o": op.O, "o2": op.O2, "r": result(c.Equals()), "jo": flatJO(c.JO)})
		case "convert":
			jo := persist.ToJSON(makeO(op.O))
			o := persist.FromJSON(jo)
			t.add(J{"e": "convert", "o": op.O, "back": flatO(o), "jo": flatJO(jo)})
		case "nothing":
			c := &persist.Comparison{O: makeO(op.O), JO: persist.ToJSON(makeO(op.O))}
			if op.I%3 != 0 {
				c.O = nil
			}
			if op.I%3 != 1 {
				c.JO = nil
			}
			t.add(J{"e": "nothing", "r": result(c.Equals())})
		}
	}
}

func init() { runners["persist"] = runPersist }
