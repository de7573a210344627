// Package lineprobe registers processors whose behaviour is written in the
// line that is processed: the word NAME=ACT in event.original makes the probe
// called NAME do ACT. The checks of the front ends build this file into the
// programs under test (with another package clause), so it only uses the
// public packages.
package lineprobe

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

var errLineCommon = errors.New("common")

// lineKnown are errors that other parts of a program attach a meaning to.
var lineKnown = []error{context.Canceled, io.EOF, context.DeadlineExceeded, event.ErrKeyExists, os.ErrNotExist, io.ErrUnexpectedEOF}

func lineProbe(name string, evt processor.Event) error {
	v := evt.Get("event.original")
	if v == nil {
		return errors.New("there is no event original")
	}
	act := ""
	for _, w := range strings.Fields(v.String) {
		if strings.HasPrefix(w, name+"=") {
			act = w[len(name)+1:]
		}
	}
	switch act {
	case "":
		return nil
	case "fail":
		return errors.New("probe " + name + " failed")
	case "missing":
		return processor.ErrorKeyMissing{Key: name}
	case "failwrap":
		return fmt.Errorf("outer: %w", errors.New("probe "+name+" failed"))
	case "failknown":
		return fmt.Errorf("probe %s: %w", name, lineKnown[int(name[len(name)-1])%len(lineKnown)])
	case "faillike":
		return errors.New(processor.ErrorKeyMissing{Key: name}.Error())
	case "failsame":
		return errLineCommon
	case "missingwrap":
		return fmt.Errorf("wrapped: %w", processor.ErrorKeyMissing{Key: name})
	case "missingdeep":
		return fmt.Errorf("several reasons: %w", errors.Join(io.EOF, processor.ErrorKeyMissing{Key: name}))
	case "missingsame":
		return processor.ErrorKeyMissing{Key: "common"}
	case "drop":
		evt.Drop()
		return nil
	case "dropfail":
		evt.Drop()
		return errors.New("probe " + name + " failed")
	case "dropmissing":
		evt.Drop()
		return processor.ErrorKeyMissing{Key: name}
	case "canceldrop":
		evt.Cancel()
		evt.Drop()
		return nil
	case "dropcancel":
		evt.Drop()
		evt.Cancel()
		return nil
	case "cancel":
		evt.Cancel()
		return nil
	case "nan":
		_, err := evt.Put("nan", event.Float(math.NaN()))
		return err
	}
	_, err := evt.Put("acts."+name, event.String(act))
	return err
}

type lineBothConfig struct {
	Name          string `config:"name"`
	IgnoreMissing bool   `config:"ignore_missing"`
	IgnoreFailure bool   `config:"ignore_failure"`
}

type lineBoth struct{ config lineBothConfig }

func (p *lineBoth) Config() lineBothConfig            { return p.config }
func (p *lineBoth) Process(evt processor.Event) error { return lineProbe(p.config.Name, evt) }

type lineMissConfig struct {
	Name          string `config:"name"`
	IgnoreMissing bool   `config:"ignore_missing"`
}

type lineMiss struct{ config lineMissConfig }

func (p *lineMiss) Config() lineMissConfig            { return p.config }
func (p *lineMiss) Process(evt processor.Event) error { return lineProbe(p.config.Name, evt) }

type lineFailConfig struct {
	Name          string `config:"name"`
	IgnoreFailure bool   `config:"ignore_failure"`
}

type lineFail struct{ config lineFailConfig }

func (p *lineFail) Config() lineFailConfig            { return p.config }
func (p *lineFail) Process(evt processor.Event) error { return lineProbe(p.config.Name, evt) }

type lineBareConfig struct {
	Name string `config:"name"`
}

type lineBare struct{ config lineBareConfig }

func (p *lineBare) Config() lineBareConfig            { return p.config }
func (p *lineBare) Process(evt processor.Event) error { return lineProbe(p.config.Name, evt) }

func init() {
	registry.MustRegister("line_both", func(c lineBothConfig) (*lineBoth, error) { return &lineBoth{c}, nil })
	registry.MustRegister("line_miss", func(c lineMissConfig) (*lineMiss, error) { return &lineMiss{c}, nil })
	registry.MustRegister("line_fail", func(c lineFailConfig) (*lineFail, error) { return &lineFail{c}, nil })
	registry.MustRegister("line_bare", func(c lineBareConfig) (*lineBare, error) { return &lineBare{c}, nil })
}
