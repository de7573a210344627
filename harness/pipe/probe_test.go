package pipe

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	_ "github.com/andrewkroh/go-sawmill/pkg/processor/append"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/community_id"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/lowercase"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/remove"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/set"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/uppercase"
)

// act is what a probe does with one event.
type act int

const (
	actOK          act = iota
	actFail            // An error of its own.
	actMissing         // ErrorKeyMissing.
	actMissingWrap     // An error that wraps ErrorKeyMissing.
	actFailWrap        // An error that wraps another one.
	actDrop            // Drop.
	actDropFail        // Drop and an error.
	actDropMissing     // Drop and ErrorKeyMissing.
	actCancel          // Cancel.
	actCancelDrop      // Cancel and drop.
	actFailKnown       // An error that wraps a well-known one.
	actMissingDeep     // An error with ErrorKeyMissing as one of its reasons.
	actFailLike        // An error that only reads like ErrorKeyMissing.
	actDropCancel      // Drop and then cancel.
	actFailSame        // The very error that other probes return too.
	actMissingSame     // ErrorKeyMissing for the key that others name too.
	numActs
)

var actNames = [...]string{"ok", "fail", "missing", "wrapped missing", "wrapped fail", "drop", "drop+fail", "drop+missing", "cancel", "cancel+drop", "well-known fail", "missing among others", "fail that reads as missing", "drop+cancel", "common fail", "common missing"}

func (a act) String() string { return actNames[a] }

func (a act) fails() bool {
	return a == actFailSame || a == actMissingSame || a == actFailKnown || a == actMissingDeep || a == actFailLike || a == actFail || a == actMissing || a == actMissingWrap || a == actFailWrap || a == actDropFail || a == actDropMissing
}
func (a act) missing() bool {
	return a == actMissing || a == actMissingWrap || a == actDropMissing || a == actMissingDeep || a == actMissingSame
}
func (a act) drops() bool {
	return a == actDrop || a == actDropFail || a == actDropMissing || a == actCancelDrop || a == actDropCancel
}
func (a act) cancels() bool { return a == actCancel || a == actCancelDrop }

// probeError is the error of one probe.
type probeError struct{ name string }

func (e *probeError) Error() string { return "probe " + e.name + " failed" }

var errCommon = errors.New("common")

// known are errors that other parts of a program attach a meaning to.
var known = []error{context.Canceled, io.EOF, context.DeadlineExceeded, event.ErrKeyExists, event.ErrEmptyKey, event.ErrTargetKeyNotObject, os.ErrNotExist, io.ErrUnexpectedEOF}

// likeError wraps another error under the text of the missing key error.
type likeError struct {
	text string
	error
}

func (e *likeError) Error() string { return e.text }
func (e *likeError) Unwrap() error { return e.error }

// probeRun is the part of one event in a run: what the probes are to do, and
// what they did. Probes find it through the event's run_id field.
type probeRun struct {
	mu    sync.Mutex
	plan  map[string]act
	trace []string

	// inner is done by the probe that runs as number at, before or after it
	// does its own part.
	inner   func()
	at      int
	after   bool
	panicAt int // The probe that runs as this number panics, if not 0.
}

// probePanic is what a probe panics with.
type probePanic struct{ at int }

var runs sync.Map // int64 -> *probeRun

func (r *probeRun) do(name string, evt processor.Event) error {
	r.mu.Lock()
	r.trace = append(r.trace, name)
	n := len(r.trace)
	a := r.plan[name]
	r.mu.Unlock()

	if n == r.panicAt {
		panic(probePanic{n})
	}
	if n == r.at && !r.after {
		r.inner()
	}

	// Leave a mark in the event, to see that all work on the same one.
	if _, err := evt.Put("trace."+name, event.Integer(int64(n))); err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	if a.cancels() {
		evt.Cancel()
	}
	if a.drops() {
		evt.Drop()
	}
	if a == actDropCancel {
		evt.Cancel()
		evt.Cancel()
	}
	if n == r.at && r.after {
		r.inner()
	}
	switch {
	case a == actFailKnown:
		k := known[(len(name)*5+int(name[len(name)-1]))%len(known)]
		return fmt.Errorf("%w: %w", k, &probeError{name})
	case a == actMissingDeep:
		return fmt.Errorf("several reasons: %w", errors.Join(io.EOF, fmt.Errorf("one: %w", processor.ErrorKeyMissing{Key: name})))
	case a == actFailLike:
		return &likeError{processor.ErrorKeyMissing{Key: name}.Error(), &probeError{name}}
	case a == actFailSame:
		return errCommon
	case a == actMissingSame:
		return processor.ErrorKeyMissing{Key: "common"}
	case a == actFailWrap:
		return fmt.Errorf("outer: %w", &probeError{name})
	case a == actMissingWrap:
		return fmt.Errorf("wrapped: %w", processor.ErrorKeyMissing{Key: name})
	case a.missing():
		return processor.ErrorKeyMissing{Key: name}
	case a.fails():
		return &probeError{name}
	}
	return nil
}

func probe(name string, evt processor.Event) error {
	id := evt.Get("run_id")
	if id == nil {
		return errors.New("harness: no run_id")
	}
	r, ok := runs.Load(id.Integer)
	if !ok {
		return errors.New("harness: unknown run_id")
	}
	return r.(*probeRun).do(name, evt)
}

// failedWith says whether err is the failure of the named probe, which did a.
func failedWith(err error, name string, a act) bool {
	switch a {
	case actFailSame:
		return errors.Is(err, errCommon)
	case actMissingSame:
		name = "common"
	}
	var p *probeError
	if errors.As(err, &p) {
		return p.name == name
	}
	var k processor.ErrorKeyMissing
	if errors.As(err, &k) {
		return k.Key == name
	}
	return false
}

// The probe processor types: with both ignore options, with either, and with
// none.

type bothConfig struct {
	Name          string `config:"name"`
	IgnoreMissing bool   `config:"ignore_missing"`
	IgnoreFailure bool   `config:"ignore_failure"`
}

type bothProbe struct{ config bothConfig }

func (p *bothProbe) Config() bothConfig                { return p.config }
func (p *bothProbe) Process(evt processor.Event) error { return probe(p.config.Name, evt) }

type missConfig struct {
	Name          string `config:"name"`
	IgnoreMissing bool   `config:"ignore_missing"`
}

type missProbe struct{ config missConfig }

func (p *missProbe) Config() missConfig                { return p.config }
func (p *missProbe) Process(evt processor.Event) error { return probe(p.config.Name, evt) }

type failConfig struct {
	Name          string `config:"name"`
	IgnoreFailure bool   `config:"ignore_failure"`
}

type failProbe struct{ config failConfig }

func (p *failProbe) Config() failConfig                { return p.config }
func (p *failProbe) Process(evt processor.Event) error { return probe(p.config.Name, evt) }

type bareConfig struct {
	Name string `config:"name"`
}

type bareProbe struct{ config bareConfig }

func (p *bareProbe) Config() bareConfig                { return p.config }
func (p *bareProbe) Process(evt processor.Event) error { return probe(p.config.Name, evt) }

// passProcessor does nothing.
type passConfig struct{}

type passProcessor struct{}

func (p *passProcessor) Config() passConfig                { return passConfig{} }
func (p *passProcessor) Process(evt processor.Event) error { return nil }

func init() {
	registry.MustRegister("probe_both", func(c bothConfig) (*bothProbe, error) { return &bothProbe{c}, nil })
	registry.MustRegister("probe_miss", func(c missConfig) (*missProbe, error) { return &missProbe{c}, nil })
	registry.MustRegister("probe_fail", func(c failConfig) (*failProbe, error) { return &failProbe{c}, nil })
	registry.MustRegister("probe_bare", func(c bareConfig) (*bareProbe, error) { return &bareProbe{c}, nil })
	registry.MustRegister("pass", func(c passConfig) (*passProcessor, error) { return &passProcessor{}, nil })
}
