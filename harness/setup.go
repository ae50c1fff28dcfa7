package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp/syntax"
	"strings"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
)

// A set-up scenario: a request for a navigation that may contain mistakes.
type sSetup struct {
	sWalk
	Mode     string   `json:"mode"` // prime resume
	Faults   []string `json:"faults"`
	Strategy string   `json:"strategy"`
	At       int      `json:"at"`  // position of the failing option, or of the damage
	Bad      string   `json:"bad"` // kind of invalid regular expression
	BadGlob  string   `json:"badglob"`
	Then     bool     `json:"then"` // request it again without the mistakes
}

var errOpt = errors.New("option failed to apply")

// problems names everything an error says is wrong.
func problems(err error) []string {
	out := []string{}
	if err == nil {
		return out
	}
	for _, p := range []struct {
		n string
		e error
	}{
		{"notree", locale.ErrUsageMissingTreePath}, {"nosub", locale.ErrUsageMissingSubscription},
		{"nohandler", locale.ErrUsageMissingHandler}, {"nofrom", locale.ErrUsageMissingRestorePath},
		{"wrongprime", core.ErrWrongPrimaryFacade}, {"wrongresume", core.ErrWrongResumeFacade},
		{"option", errOpt}, {"badstate", core.ErrInvalidRestoreState}, {"nilforest", core.ErrNilForest},
		{"filtertype", locale.ErrFilterMissingType}, {"filterundef", locale.ErrFilterUndefined},
		{"filternil", locale.ErrFilterIsNil}, {"childglobex", locale.ErrFilterChildGlobExNotSupported},
		{"childcustom", locale.ErrFilterCustomNotSupported}, {"poly", locale.ErrPolyFilterIsInvalid},
		{"nofiles", locale.ErrInvalidFileSamplingSpecMissingFiles},
		{"nodirs", locale.ErrInvalidSamplingSpecMissingDirectories},
		{"nocustom", locale.ErrMissingCustomFilterDefinition}, {"custom", errClient},
		{"resumefs", locale.ErrCoreResumeFsMismatch},
		{"saved", locale.ErrCorePanicOccurred}, {"missing", os.ErrNotExist},
		{"badglob", filepath.ErrBadPattern},
	} {
		if errors.Is(err, p.e) {
			out = append(out, p.n)
		}
	}
	var (
		rex  *syntax.Error
		jsyn *json.SyntaxError
		jtyp *json.UnmarshalTypeError
		perr *os.PathError
	)
	if locale.IsInvalidExtGlobFilterMissingSeparatorError(err) {
		out = append(out, "globexsep")
	}
	if text := strings.ToLower(err.Error()); strings.Contains(text, "glob") || strings.Contains(text, "flac") {
		out = append(out, "globexspec")
	}
	if errors.As(err, &rex) {
		out = append(out, "regex")
	}
	if errors.As(err, &jsyn) || errors.As(err, &jtyp) {
		out = append(out, "json")
	}
	if errors.As(err, &perr) {
		out = append(out, "path")
	}
	return out
}

type invalidCustom struct{ customFilter }

func (f *invalidCustom) Validate() error { return errClient }

func fullScope() enums.FilterScope { return enums.ScopeAll }

func (sc *sSetup) badRegex() string {
	if sc.Bad == "" {
		return "("
	}
	return sc.Bad
}

// faulty returns the settings that carry the mistakes.
func (sc *sSetup) faulty() (before, after []pref.Option) {
	def := func(ty enums.FilterType, pattern string) *core.FilterDef {
		return &core.FilterDef{Type: ty, Description: "faulty", Pattern: pattern, Scope: fullScope()}
	}
	one := func(kind string) *core.FilterDef {
		switch kind {
		case "notype":
			return def(enums.FilterTypeUndefined, "a*")
		case "badregex":
			return def(enums.FilterTypeRegex, sc.badRegex())
		case "badglob":
			return def(enums.FilterTypeGlob, sc.BadGlob)
		case "globexdir":
			return def(enums.FilterTypeGlobEx, sc.BadGlob+"|*.txt")
		case "globexexcl":
			return def(enums.FilterTypeGlobEx, "*/"+sc.BadGlob+"|*.txt")
		case "globexpat":
			return def(enums.FilterTypeGlobEx, "*|*.flac,"+sc.BadGlob+".txt")
		case "polybadglob":
			d := def(enums.FilterTypePoly, "")
			d.Poly = &core.PolyFilterDef{File: *def(enums.FilterTypeGlob, sc.BadGlob), Directory: *def(enums.FilterTypeGlob, "*")}
			return d
		case "polybadglob2":
			d := def(enums.FilterTypePoly, "")
			d.Poly = &core.PolyFilterDef{File: *def(enums.FilterTypeGlob, "*"), Directory: *def(enums.FilterTypeGlob, sc.BadGlob)}
			return d
		case "globexsep":
			return def(enums.FilterTypeGlobEx, "flac")
		case "globexspec":
			return def(enums.FilterTypeGlobEx, "*|flac")
		case "polynil":
			return def(enums.FilterTypePoly, "a")
		case "polynested":
			d := def(enums.FilterTypePoly, "")
			d.Poly = &core.PolyFilterDef{File: *def(enums.FilterTypePoly, "a"), Directory: *def(enums.FilterTypeGlob, "*")}
			return d
		case "polynested2":
			d := def(enums.FilterTypePoly, "")
			d.Poly = &core.PolyFilterDef{File: *def(enums.FilterTypeGlob, "a"), Directory: *def(enums.FilterTypePoly, "*")}
			return d
		case "polybad":
			d := def(enums.FilterTypePoly, "")
			d.Poly = &core.PolyFilterDef{File: *def(enums.FilterTypeRegex, sc.badRegex()), Directory: *def(enums.FilterTypeGlob, "*")}
			return d
		case "polybad2":
			d := def(enums.FilterTypePoly, "")
			d.Poly = &core.PolyFilterDef{File: *def(enums.FilterTypeGlob, "*"), Directory: *def(enums.FilterTypeRegex, sc.badRegex())}
			return d
		case "polynotype":
			d := def(enums.FilterTypePoly, "")
			d.Poly = &core.PolyFilterDef{File: *def(enums.FilterTypeGlob, "*"), Directory: *def(enums.FilterTypeUndefined, "*")}
			return d
		case "polycustom":
			d := def(enums.FilterTypePoly, "")
			d.Poly = &core.PolyFilterDef{File: *def(enums.FilterTypeCustom, "*"), Directory: *def(enums.FilterTypeGlob, "*")}
			return d
		case "customnil":
			return def(enums.FilterTypeCustom, "a")
		}
		panic("unknown filter fault " + kind)
	}
	fo := &pref.FilterOptions{}
	used := false
	for _, f := range sc.Faults {
		where, kind, _ := strings.Cut(f, "-")
		switch where {
		case "option":
			before = append(before, func(*pref.Options) error { return errOpt })
		case "lateoption":
			after = append(after, func(*pref.Options) error { return fmt.Errorf("wrapped: %w", errOpt) })
		case "node":
			used = true
			fo.Node = one(kind)
		case "custom":
			used = true
			fo.Custom = &invalidCustom{}
		case "child":
			used = true
			c := &core.ChildFilterDef{Description: "faulty", Pattern: "a*"}
			switch kind {
			case "globex":
				c.Type = enums.FilterTypeGlobEx
			case "custom":
				c.Type = enums.FilterTypeCustom
			case "poly":
				c.Type = enums.FilterTypePoly
			case "badregex":
				c.Type, c.Pattern = enums.FilterTypeRegex, sc.badRegex()
			case "badglob":
				c.Type, c.Pattern = enums.FilterTypeGlob, sc.BadGlob
			}
			fo.Child = c
		case "sample":
			used = true
			s := &core.SampleFilterDef{Description: "faulty", Pattern: "a*", Type: enums.FilterTypeGlob, Scope: enums.ScopeFile}
			so := &pref.SamplingOptions{Type: enums.SampleTypeFilter, NoOf: pref.EntryQuantities{Files: 1, Directories: 1}}
			switch kind {
			case "notype":
				s.Type = enums.FilterTypeUndefined
			case "poly":
				s.Type = enums.FilterTypePoly
			case "globex":
				s.Type = enums.FilterTypeGlobEx
			case "badregex":
				s.Type, s.Pattern = enums.FilterTypeRegex, sc.badRegex()
			case "badglob":
				s.Pattern = sc.BadGlob
			case "customnil":
				s.Type = enums.FilterTypeCustom
			case "nofiles":
				so.NoOf.Files = 0
			case "nodirs":
				s.Scope = enums.ScopeDirectory
				so.NoOf.Directories = 0
			}
			fo.Sample = s
			after = append(after, age.WithSamplingOptions(so))
		case "wake":
			after = append(after, age.WithHibernationFilterWake(one(kind)))
		case "sleep":
			after = append(after, age.WithHibernationFilterSleep(one(kind)))
		}
	}
	if used {
		after = append(after, age.WithFilter(fo))
	}
	return before, after
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func runSetup(raw json.RawMessage, t *Trace) {
	sc := &sSetup{}
	must(json.Unmarshal(raw, sc))
	w, tree, _ := buildWorld(&sc.sWalk)
	admin, err := os.MkdirTemp("", "zzverif-adm-")
	must(err)
	defer os.RemoveAll(admin)
	sc.Admin = admin
	t.add(J{"e": "cfg", "tree": tree})
	rfs := tfs.New()

	from, good := "", ""
	if sc.Mode == "resume" {
		// a genuine session file, then damaged as asked
		other := &Trace{Ev: []J{}, cap: 100000}
		dead := sc.sWalk
		dead.Entry = "walk"
		dead.Script = []sScript{{At: 1, Act: "panic"}}
		dead.Sub, dead.Filter, dead.Child, dead.Sampling, dead.Hib = "universal", nil, nil, nil, nil
		from = prime(&dead, w, tree, rfs, other)
		if from == "" {
			t.add(J{"e": "nosession"})
			return
		}
		if sc.Then {
			data, err := os.ReadFile(from)
			must(err)
			good = filepath.Join(admin, "good.json")
			must(os.WriteFile(good, data, 0o644))
		}
		from = sc.damage(from, admin)
	}

	sc.request(w, tree, from, admin, rfs, t)
	if sc.Then {
		// the same request without its mistakes
		clean := *sc
		clean.Faults = nil
		t.add(J{"e": "again"})
		clean.request(w, tree, good, admin, rfs, t)
	}
}

func (sc *sSetup) request(w *world, tree, from, admin string, rfs tfs.TraversalFS, t *Trace) {
	sub := sc.Sub
	handler := w.client(&sc.sWalk, nil, t)
	forest := &core.Forest{T: w, R: rfs}
	get := func(string) *core.Forest { return forest }
	for _, f := range sc.Faults {
		switch f {
		case "nohandler":
			handler = nil
		case "notree":
			tree = ""
		case "nosub":
			sub = "undefined"
		case "nofrom":
			from = ""
		case "nilforest":
			forest = nil
		case "nilT":
			forest.T = nil
		case "nilR":
			forest.R = nil
		case "absT":
			forest.T = tfs.New()
		}
	}
	strategy := enums.ResumeStrategyFastward
	switch {
	case has(sc.Faults, "nostrategy"):
		strategy = enums.ResumeStrategyUndefined
	case sc.Strategy == "spawn":
		strategy = enums.ResumeStrategySpawn
	}
	head := pref.Head{Handler: handler, GetForest: get}
	using := &pref.Using{Head: head, Subscription: subOf(sub), Tree: tree}
	relic := &pref.Relic{Head: head, From: from, Strategy: strategy}

	var facade pref.Facade = using
	if (sc.Mode == "resume") != has(sc.Faults, "wrongfacade") {
		facade = relic
	}
	if has(sc.Faults, "nilfacade") {
		facade = nil
	}

	settings := options(&sc.sWalk, &sc.Opt, t, w, 0)
	settings = append(settings, pref.WithLogger(quiet()))
	before, after := sc.faulty()
	settings = append(settings, after...)
	at := min(sc.At, len(settings))
	settings = append(append(append([]pref.Option{}, settings[:at]...), before...), settings[at:]...)
	if sc.Opt.ViaO && sc.Mode == "prime" && !has(sc.Faults, "option") && !has(sc.Faults, "lateoption") {
		o := pref.DefaultOptions()
		for _, s := range settings {
			if s != nil {
				must(s(o))
			}
		}
		// nothing registers handlers with options made like this
		using.O = o
		settings = nil
	}

	wg := &loopback{}
	sc.sWalk.Entry = sc.Entry
	nav := navigator(&sc.sWalk, sc.Mode == "prime", wg, facade, nil, settings)
	result, err := nav.Navigate(context.Background())
	wg.Wait()
	ev := J{"e": "result", "ok": err == nil, "says": problems(err), "nilresult": false}
	if err != nil {
		ev["text"] = err.Error()
		ev["empty"] = err.Error() == ""
	} else {
		ev["empty"] = false
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				ev["nilresult"] = true
			}
		}()
		_ = result.Metrics()
	}()
	t.add(ev)
}

// damage makes the session file unusable in the way asked for.
func (sc *sSetup) damage(from, admin string) string {
	data, err := os.ReadFile(from)
	must(err)
	edit := func(fn func(m map[string]any)) {
		var m map[string]any
		must(json.Unmarshal(data, &m))
		fn(m)
		out, _ := json.Marshal(m)
		must(os.WriteFile(from, out, 0o644))
	}
	for _, f := range sc.Faults {
		switch f {
		case "file-missing":
			must(os.Remove(from))
		case "file-dir":
			must(os.Remove(from))
			must(os.Mkdir(from, 0o755))
		case "file-empty":
			must(os.WriteFile(from, nil, 0o644))
		case "file-text":
			must(os.WriteFile(from, []byte("once upon a time"), 0o644))
		case "file-cut":
			n := 1 + sc.At*7919%(len(strings.TrimSpace(string(data)))-1)
			must(os.WriteFile(from, data[:n], 0o644))
		case "file-noactive":
			edit(func(m map[string]any) { delete(m, "Active") })
		case "file-nojo":
			edit(func(m map[string]any) { delete(m, "JO") })
		case "file-type":
			edit(func(m map[string]any) { m["Active"].(map[string]any)["Depth"] = "deep" })
		case "file-jotype":
			edit(func(m map[string]any) { m["JO"].(map[string]any)["Behaviours"] = []int{1} })
		case "file-relative", "file-rrelative":
			edit(func(m map[string]any) {
				d := m["Active"].(map[string]any)["TraverseDescription"].(map[string]any)
				if f == "file-rrelative" {
					d = m["Active"].(map[string]any)["ResumeDescription"].(map[string]any)
				}
				d["IsRelative"] = !d["IsRelative"].(bool)
			})
		case "file-elsewhere":
			return filepath.Join(admin, "no", "such.json")
		}
	}
	return from
}

func init() { runners["setup"] = runSetup }
