package pipe

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	"verif/harness/vlib"
)

// regConfig is a configuration with options of several kinds and defaults.
type regConfig struct {
	Name string                 `config:"name"`
	N    int                    `config:"n"`
	Flag bool                   `config:"flag"`
	F    float64                `config:"f"`
	List []string               `config:"list"`
	Map  map[string]interface{} `config:"map"`
	Fail bool                   `config:"fail"`
	Sub  struct {
		A string `config:"a"`
		B uint16 `config:"b"`
	} `config:"sub"`
}

func (c *regConfig) InitDefaults() {
	c.Name = "default"
	c.N = 7
	c.Flag = true
	c.List = []string{"d1", "d2"}
	c.Sub.A = "da"
	c.Sub.B = 9
}

// plainRegConfig is one without defaults, with a required option.
type plainRegConfig struct {
	Name string `config:"name" validate:"required"`
	N    int    `config:"n"`
	Fail bool   `config:"fail"`
}

type regProc struct {
	tag    string
	config regConfig
}

func (p *regProc) Process(processor.Event) error { return nil }
func (p *regProc) Config() regConfig             { return p.config }

type plainRegProc struct {
	tag    string
	config plainRegConfig
}

func (p *plainRegProc) Process(processor.Event) error { return nil }
func (p *plainRegProc) Config() plainRegConfig        { return p.config }

// anonProc takes an anonymous struct.
type anonProc struct {
	tag string
	x   string
}

func (p *anonProc) Process(processor.Event) error { return nil }

type notProc struct{}

type valueProc struct{}

func (valueProc) Process(processor.Event) error { return nil }

type ctorFunc func(c plainRegConfig) (*plainRegProc, error)

type holder struct {
	tag string
	h   *hook
}

func (h holder) make(c plainRegConfig) (*plainRegProc, error) {
	return plainCtor(h.tag, h.h)(c)
}

// hook is what constructors do besides, the next time they are called.
type hook struct {
	next  func()
	calls int
}

func (h *hook) run() {
	if h != nil {
		h.calls++
	}
	if h != nil && h.next != nil {
		next := h.next
		h.next = nil
		next()
	}
}

type ctorError struct{ tag string }

func (e *ctorError) Error() string { return "constructor " + e.tag + " failed" }

func plainCtor(tag string, h *hook) func(c plainRegConfig) (*plainRegProc, error) {
	return func(c plainRegConfig) (*plainRegProc, error) {
		h.run()
		if c.Fail {
			return nil, &ctorError{tag}
		}
		return &plainRegProc{tag: tag, config: c}, nil
	}
}

func regCtor(tag string, h *hook) func(c regConfig) (*regProc, error) {
	return func(c regConfig) (*regProc, error) {
		h.run()
		if c.Fail {
			return &regProc{tag: "not this one"}, &ctorError{tag}
		}
		p := &regProc{tag: tag, config: c}
		// What a constructor may do with what it was given.
		p.config.List = append([]string(nil), c.List...)
		for i := range c.List {
			c.List[i] = "changed by the constructor"
		}
		p.config.Map = nil
		for k, v := range c.Map {
			if p.config.Map == nil {
				p.config.Map = map[string]interface{}{}
			}
			p.config.Map[k] = v
			c.Map[k] = "changed by the constructor"
		}
		return p, nil
	}
}

// Kinds of usable constructors.
const (
	kindReg = iota
	kindPlain
	kindNamedFunc
	kindMethod
	kindAnon
	kindPicky // Cannot do with an empty configuration.
	numKinds
)

func goodCtor(kind int, tag string, h *hook) interface{} {
	switch kind {
	case kindReg:
		return regCtor(tag, h)
	case kindPlain:
		return plainCtor(tag, h)
	case kindNamedFunc:
		return ctorFunc(plainCtor(tag, h))
	case kindPicky:
		return func(c plainRegConfig) (*plainRegProc, error) {
			if c.Name[0] == 0 { // There is a name, as it is required.
				return nil, errors.New("name")
			}
			return plainCtor(tag, h)(c)
		}
	case kindMethod:
		return holder{tag, h}.make
	case kindAnon:
		return func(c struct {
			X string `config:"x"`
		}) (*anonProc, error) {
			h.run()
			return &anonProc{tag: tag, x: c.X}, nil
		}
	}
	panic("kind")
}

// badCtors are not constructors.
var badCtors = map[string]interface{}{
	"nil":                  nil,
	"nil function":         (func(c plainRegConfig) (*plainRegProc, error))(nil),
	"nil named function":   ctorFunc(nil),
	"string":               "constructor",
	"int":                  5,
	"struct":               plainRegConfig{},
	"processor":            &plainRegProc{},
	"pointer to function":  new(func(c plainRegConfig) (*plainRegProc, error)),
	"slice of functions":   []func(c plainRegConfig) (*plainRegProc, error){plainCtor("x", nil)},
	"reflect.Value":        reflect.ValueOf(plainCtor("x", nil)),
	"no argument":          func() (*plainRegProc, error) { return nil, nil },
	"two arguments":        func(a, b plainRegConfig) (*plainRegProc, error) { return nil, nil },
	"pointer argument":     func(c *plainRegConfig) (*plainRegProc, error) { return nil, nil },
	"string argument":      func(c string) (*plainRegProc, error) { return nil, nil },
	"map argument":         func(c map[string]interface{}) (*plainRegProc, error) { return nil, nil },
	"interface argument":   func(c interface{}) (*plainRegProc, error) { return nil, nil },
	"variadic":             func(c ...plainRegConfig) (*plainRegProc, error) { return nil, nil },
	"struct and variadic":  func(c plainRegConfig, more ...int) (*plainRegProc, error) { return nil, nil },
	"no result":            func(c plainRegConfig) {},
	"no error":             func(c plainRegConfig) *plainRegProc { return nil },
	"no processor":         func(c plainRegConfig) error { return nil },
	"swapped results":      func(c plainRegConfig) (error, *plainRegProc) { return nil, nil },
	"three results":        func(c plainRegConfig) (*plainRegProc, error, int) { return nil, nil, 0 },
	"two errors":           func(c plainRegConfig) (*plainRegProc, error, error) { return nil, nil, nil },
	"not a processor":      func(c plainRegConfig) (*notProc, error) { return nil, nil },
	"processor by value":   func(c plainRegConfig) (valueProc, error) { return valueProc{}, nil },
	"struct by value":      func(c plainRegConfig) (plainRegProc, error) { return plainRegProc{}, nil },
	"bool for an error":    func(c plainRegConfig) (*plainRegProc, bool) { return nil, false },
	"string for an error":  func(c plainRegConfig) (*plainRegProc, string) { return nil, "" },
	"any for an error":     func(c plainRegConfig) (*plainRegProc, interface{}) { return nil, nil },
	"pointer to interface": func(c plainRegConfig) (*processor.Processor, error) { return nil, nil },
}

var badNames = func() []string {
	m := vlib.MObj(nil)
	for k := range badCtors {
		m.O[k] = nil
	}
	return m.Keys()
}()

type registered struct {
	kind int
	tag  string
}

// created is a processor that was created, and the configuration it has to
// have.
type created struct {
	p    processor.Processor
	text string
}

// drawRegOptions generates options, and returns the configuration they give.
func drawRegOptions(t *rapid.T, r registered) (opts map[string]interface{}, want string, fails, ctorFails bool) {
	opts = map[string]interface{}{}
	has := func(name string) bool { return rapid.IntRange(0, 2).Draw(t, "has "+name) == 2 }
	name := func() string {
		return vlib.Word(t, "value", []string{"a", "b", "ä", "x y", "1"})
	}
	if rapid.IntRange(0, 9).Draw(t, "unknown") == 9 {
		opts["unknown"] = name()
	}
	switch r.kind {
	case kindReg:
		var c regConfig
		c.InitDefaults()
		if has("name") {
			c.Name = name()
			opts["name"] = c.Name
		}
		if has("n") {
			c.N = rapid.IntRange(-5, 5).Draw(t, "n")
			opts["n"] = c.N
		}
		if has("flag") {
			c.Flag = rapid.Bool().Draw(t, "flag")
			opts["flag"] = c.Flag
		}
		if has("f") {
			c.F = float64(rapid.IntRange(1, 9).Draw(t, "f")) / 4
			opts["f"] = c.F
		}
		if has("list") {
			c.List = []string{name(), name(), name()}
			opts["list"] = []interface{}{c.List[0], c.List[1], c.List[2]}
		}
		if has("map") {
			c.Map = map[string]interface{}{"k": name()}
			opts["map"] = map[string]interface{}{"k": c.Map["k"]}
		}
		if has("sub") {
			sub := map[string]interface{}{}
			if has("a") {
				c.Sub.A = name()
				sub["a"] = c.Sub.A
			}
			c.Sub.B = uint16(rapid.IntRange(0, 65535).Draw(t, "b"))
			sub["b"] = int(c.Sub.B)
			opts["sub"] = sub
		}
		switch rapid.IntRange(0, 9).Draw(t, "broken") {
		case 7:
			opts["n"], fails = "not a number", true
		case 8:
			opts["sub"], fails = "not a map", true
		case 9:
			opts["fail"], ctorFails = true, true
		}
		want = fmt.Sprintf("%s %+v", r.tag, c)
	case kindAnon:
		x := ""
		if has("x") {
			x = name()
			opts["x"] = x
		}
		want = r.tag + " " + x
	default:
		c := plainRegConfig{Name: name()}
		opts["name"] = c.Name
		if has("n") {
			c.N = rapid.IntRange(-5, 5).Draw(t, "n")
			opts["n"] = c.N
		}
		switch rapid.IntRange(0, 9).Draw(t, "broken") {
		case 8:
			delete(opts, "name")
			fails = true
		case 9:
			opts["fail"], ctorFails = true, true
		}
		want = fmt.Sprintf("%s %+v", r.tag, c)
	}
	if fails {
		ctorFails = false
	}
	return opts, want, fails, ctorFails
}

func regText(p processor.Processor) string {
	switch p := p.(type) {
	case *regProc:
		return fmt.Sprintf("%s %+v", p.tag, p.config)
	case *plainRegProc:
		return fmt.Sprintf("%s %+v", p.tag, p.config)
	case *anonProc:
		return p.tag + " " + p.x
	}
	return fmt.Sprintf("%T", p)
}

var globalNames int

func TestC15_Registry(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 400000, Thorough: 8000000,
		Rule: "a random history of registrations (usable constructors of five forms, about thirty unusable values, new and taken names) and creations with random options over two registries, or one and the global one, against a model; configurations of earlier processors are compared again after every step; non-trivial: at least two creations under different names and one refused registration",
	}, func(t *rapid.T, c *vlib.Case) {
		regs := []*registry.Registry{registry.NewRegistry(), registry.NewRegistry()}
		global := rapid.IntRange(0, 9).Draw(t, "global") == 9
		prefix := ""
		if global {
			globalNames++
			prefix = fmt.Sprintf("verif-%d-%d-", os.Getpid(), globalNames)
			c.Class("global registry")
		}
		models := []map[string]registered{{}, {}}
		names := []string{"a", "b", "ab", "A", "", "a.b", "set", "ä"}
		if s, ok := vlib.NovelText(t, 4); ok {
			names = append(names, s)
		}
		var made []created
		var log []string
		during := &hook{}
		tags, refused := 0, 0
		createdBy := map[string]bool{}
		fail := func(format string, args ...interface{}) {
			t.Helper()
			t.Fatalf("%s: %s", strings.Join(log, "; "), fmt.Sprintf(format, args...))
		}
		if rapid.IntRange(0, 200).Draw(t, "crowd") == 117 {
			c.Class("many names")
			kind := rapid.IntRange(0, numKinds-1).Draw(t, "kind")
			n := vlib.Size(t, "n", []int{9, 33, 65, 130, 300}, 3000)
			log = append(log, fmt.Sprintf("register 0 n0...n%d kind %d", n-1, kind))
			for i := 0; i < n; i++ {
				name, tag := fmt.Sprintf("n%d", i), fmt.Sprintf("crowd%d", i)
				if err := register(t, regs[0], false, name, goodCtor(kind, tag, during)); err != nil {
					fail("error %v for %s", err, name)
				}
				models[0][name] = registered{kind, tag}
			}
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("n%d", i)
				opts, want, fails, ctorFails := drawRegOptions(t, models[0][name])
				p, err := regs[0].NewProcessor(name, opts)
				if (err != nil) != (fails || ctorFails) || err == nil && regText(p) != want {
					fail("%s: got %v, %v, want %s", name, p, err, want)
				}
			}
		}
		for i, n := 0, rapid.IntRange(4, 20).Draw(t, "steps"); i < n; i++ {
			k := rapid.IntRange(0, 1).Draw(t, "registry")
			useGlobal := global && k == 1
			name := prefix + rapid.SampledFrom(names).Draw(t, "name")
			op := rapid.IntRange(0, 7).Draw(t, "op")
			if useGlobal && rapid.IntRange(0, 5).Draw(t, "builtin") == 5 {
				checkBuiltin(t, c)
			}
			if known := vlib.MObj(nil); op > 2 && rapid.IntRange(0, 7).Draw(t, "known") > 0 {
				for n := range models[k] {
					known.O[n] = nil
				}
				if keys := known.Keys(); len(keys) > 0 {
					name = keys[rapid.IntRange(0, len(keys)-1).Draw(t, "which")]
				}
			}
			if rapid.IntRange(0, 5).Draw(t, "similar") == 4 {
				if name = similar(t, name); useGlobal && len(name) < len("processor")+1 {
					name = prefix + name // Earlier cases may have used it.
				}
				c.Class("similar name")
			}
			old, taken := models[k][name]
			switch op {
			case 0, 1: // A usable constructor.
				kind := rapid.IntRange(0, numKinds-1).Draw(t, "kind")
				tags++
				tag := fmt.Sprintf("t%d", tags)
				log = append(log, fmt.Sprintf("register %d %q kind %d %s", k, name, kind, tag))
				during.calls = 0
				err := register(t, regs[k], useGlobal, name, goodCtor(kind, tag, during))
				if during.calls > 0 {
					fail("a constructor was called to register one")
				}
				if (err == nil) == taken {
					fail("error %v, name taken: %v", err, taken)
				}
				if !taken {
					models[k][name] = registered{kind, tag}
				} else {
					refused++
					c.Class("duplicate refused")
				}
			case 2: // Something else.
				bad := rapid.SampledFrom(badNames).Draw(t, "bad")
				log = append(log, fmt.Sprintf("register %d %q %s", k, name, bad))
				if err := register(t, regs[k], useGlobal, name, badCtors[bad]); err == nil {
					fail("no error")
				}
				refused++
				c.Class("unusable refused")
			default:
				opts := map[string]interface{}{}
				want, fails, ctorFails := "", false, false
				if taken {
					opts, want, fails, ctorFails = drawRegOptions(t, old)
				}
				if len(opts) == 0 && rapid.Bool().Draw(t, "nil") {
					opts = nil
				}
				before := fmt.Sprint(opts)
				log = append(log, fmt.Sprintf("create %d %q %s", k, name, before))
				var p processor.Processor
				var err error
				// inner is what the constructor does with the registry itself.
				inner, within, calls := func() {}, "", 0
				if taken && !fails {
					calls = 1
				}
				switch rapid.IntRange(0, 19).Draw(t, "inner") {
				case 7: // It creates a processor, like one that holds others.
					other := name
					if known := vlib.MObj(nil); rapid.Bool().Draw(t, "another") {
						for n := range models[k] {
							known.O[n] = nil
						}
						if keys := known.Keys(); len(keys) > 0 {
							other = keys[rapid.IntRange(0, len(keys)-1).Draw(t, "which other")]
						}
					}
					r, found := models[k][other]
					if !found {
						break
					}
					opts, want, fails, ctorFails := drawRegOptions(t, r)
					depth := rapid.SampledFrom([]int{1, 1, 2, 3, 5, 9, 20}).Draw(t, "depth")
					log = append(log, fmt.Sprintf("within that create %q, %d times within itself", other, depth))
					if calls == 1 && !fails {
						calls += depth
					}
					inner = func() {
						c.Class("created within a constructor")
						if depth--; depth > 0 {
							during.next = inner
						}
						p, err := create(regs[k], useGlobal, other, opts)
						if (err != nil) != (fails || ctorFails) || err == nil && regText(p) != want {
							within = fmt.Sprintf("got %v, %v, want %s", p, err, want)
						}
						if err == nil {
							made = append(made, created{p, want})
						}
					}
				case 11: // It registers one.
					tags++
					other, kind, tag := prefix+fmt.Sprintf("within%d", tags), rapid.IntRange(0, numKinds-1).Draw(t, "kind within"), fmt.Sprintf("t%d", tags)
					log = append(log, fmt.Sprintf("within that register %q kind %d", other, kind))
					inner = func() {
						c.Class("registered within a constructor")
						if err := register(t, regs[k], useGlobal, other, goodCtor(kind, tag, during)); err != nil {
							within = err.Error()
						}
						models[k][other] = registered{kind, tag}
					}
				case 13: // It panics.
					if taken && !fails {
						log = append(log, "which panics")
						c.Class("panic of a constructor")
						during.next = func() { panic("constructor") }
						vlib.Catch(func() { create(regs[k], useGlobal, name, opts) })
					}
				}
				during.next, during.calls = inner, 0
				vlib.NoPanic(t, strings.Join(log, "; "), func() {
					p, err = create(regs[k], useGlobal, name, opts)
				})
				during.next = nil
				if during.calls != calls {
					fail("%d calls of a constructor, want %d", during.calls, calls)
				}
				if within != "" {
					fail("within the constructor: %s", within)
				}
				if after := fmt.Sprint(opts); after != before {
					fail("the options became %s", after)
				}
				if !taken || fails || ctorFails {
					if err == nil || p != nil {
						fail("processor %v, error %v; name registered: %v, bad options: %v, constructor fails: %v", p, err, taken, fails, ctorFails)
					}
					var ce *ctorError
					if ctorFails && (!errors.As(err, &ce) || ce.tag != old.tag) {
						fail("error %v, want that of the constructor %s", err, old.tag)
					}
					c.ClassIf(!taken, "unknown name")
					c.ClassIf(fails, "bad options")
					c.ClassIf(ctorFails, "constructor failed")
				} else {
					if err != nil {
						fail("error %v", err)
					}
					if got := regText(p); got != want {
						fail("\n got %s\nwant %s", got, want)
					}
					made = append(made, created{p, want})
					createdBy[name] = true
					// What the caller may do with its own map.
					if l, ok := opts["list"].([]interface{}); ok {
						l[0] = "changed by the caller"
					}
					if m, ok := opts["map"].(map[string]interface{}); ok {
						m["k"] = "changed by the caller"
					}
					for k := range opts {
						delete(opts, k)
					}
				}
			}
			for _, m := range made {
				if got := regText(m.p); got != m.text {
					fail("an earlier processor changed\n from %s\n to   %s", m.text, got)
				}
			}
		}
		if len(createdBy) > 1 && refused > 0 {
			c.NonTrivial(strings.Join(log, "; "))
		}
	})
}

// similar gives a name that looks like another.
func similar(t *rapid.T, name string) string {
	switch rapid.IntRange(0, 11).Draw(t, "how") {
	case 0:
		return name + vlib.Word(t, "suffix", []string{"0", "1", "2", "10", "_2", "-1", "v2", "@1", ":1", "#1", ".1", "/1"})
	case 1:
		return strings.ToUpper(name)
	case 2:
		return strings.ToLower(name)
	case 3:
		return name + rapid.SampledFrom([]string{" ", "\t", "\n", "\x00", "s", "_", ".", "*"}).Draw(t, "suffix")
	case 4:
		return rapid.SampledFrom([]string{" ", "x", "_", "-", "!", "processor.", "elastic/", "\ufeff"}).Draw(t, "prefix") + name
	case 5:
		return name + name
	case 6:
		if r := []rune(name); len(r) > 0 {
			return string(r[:len(r)-1])
		}
	case 7:
		if r := []rune(name); len(r) > 0 {
			return string(r[1:])
		}
	case 8:
		return strings.NewReplacer("-", "_", "_", "-", ".", "_").Replace(name)
	case 9:
		return strings.Title(name)
	case 10:
		return strings.ReplaceAll(name, "", "_")
	}
	return rapid.SampledFrom([]string{"default", "processor", "*", "nil", "append/", "null", "%s"}).Draw(t, "other")
}

var builtins = map[string]map[string]interface{}{
	"append": {"field": "a", "value": "x"}, "community_id": {}, "lowercase": {"field": "a"},
	"remove": {"fields": []string{"a"}}, "set": {"target_field": "a", "value": 1}, "uppercase": {"field": "a"},
}

// checkBuiltin creates a built-in processor, or by a similar name none, and
// tries to take its name.
func checkBuiltin(t *rapid.T, c *vlib.Case) {
	name := rapid.SampledFrom([]string{"append", "community_id", "lowercase", "remove", "set", "uppercase"}).Draw(t, "builtin")
	opts := builtins[name]
	if other := similar(t, name); builtins[other] == nil && rapid.Bool().Draw(t, "unknown") {
		if p, err := registry.NewProcessor(other, opts); err == nil || p != nil {
			t.Fatalf("unknown processor %q is created: %v, %v", other, p, err)
		}
		c.Class("unknown name")
		return
	}
	if p, err := registry.NewProcessor(name, opts); err != nil || p == nil {
		t.Fatalf("processor %q: %v, %v", name, p, err)
	}
	if err := register(t, nil, true, name, goodCtor(0, "taken", nil)); err == nil {
		t.Fatalf("the name %s of a built-in processor was taken", name)
	}
	c.Class("built-in")
}

// register registers, globally by MustRegister.
func create(r *registry.Registry, global bool, name string, opts map[string]interface{}) (processor.Processor, error) {
	if global {
		return registry.NewProcessor(name, opts)
	}
	return r.NewProcessor(name, opts)
}

func register(t *rapid.T, r *registry.Registry, global bool, name string, ctor interface{}) (err error) {
	if global {
		if p := vlib.Catch(func() { registry.MustRegister(name, ctor) }); p != nil {
			if e, ok := p.(error); ok && strings.Contains(fmt.Sprintf("%T", p), "runtime.") {
				t.Fatalf("MustRegister: %v", e)
			}
			return fmt.Errorf("%v", p)
		}
		return nil
	}
	vlib.NoPanic(t, "Register", func() { err = r.Register(name, ctor) })
	return err
}
