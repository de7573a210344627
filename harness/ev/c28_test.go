package ev

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"

	"verif/harness/vlib"
)

// shared is one content in the forms that several goroutines may read.
type shared struct {
	evt   *event.Event
	plain map[string]interface{}
	msg   *protobuf.MessageWrapper
	text  []byte // JSON.
	bytes []byte // Encoded message.
}

func sharedOf(t *rapid.T, m *vlib.MV) *shared {
	s := &shared{evt: m.Event(), plain: m.PlainMap(), msg: protobuf.FromEvent(m.Event())}
	var err error
	if s.text, err = json.Marshal(m.Event()); err != nil {
		t.Fatalf("encoding %v: %v", m, err)
	}
	if s.bytes, err = protobuf.FromEvent(m.Event()).Marshal(); err != nil {
		t.Fatalf("encoding %v: %v", m, err)
	}
	return s
}

func (s *shared) same(o *shared, m *vlib.MV) string {
	switch {
	case !vlib.OfEvent(s.evt).Equal(m):
		return fmt.Sprintf("event %v", vlib.OfEvent(s.evt))
	case !vlib.OfPlain(s.plain).Equal(vlib.OfPlain(o.plain)):
		return fmt.Sprintf("map %v", s.plain)
	case string(s.text) != string(o.text):
		return fmt.Sprintf("text %s", s.text)
	}
	return meaningOf(s.bytes, nil)
}

func meaningOf(data []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	w, err := vlib.ProtoWrapper(data)
	if err != nil {
		return fmt.Sprintf("unreadable %x: %v", data, err)
	}
	return vlib.ProtoMeaning(w).String()
}

// readers are what a program may do with a content without changing it. Each
// returns all that there is to see.
var readers = []struct {
	name string
	read func(s *shared, key string) string
}{
	{"Get", func(s *shared, key string) string { return vlib.Of(s.evt.Get(key)).String() }},
	{"Get all", func(s *shared, key string) string { return vlib.OfEvent(s.evt).String() }},
	{"JSON of the event", func(s *shared, key string) string {
		data, err := json.Marshal(s.evt)
		return fmt.Sprintf("%s %v", data, err)
	}},
	{"JSON of a value", func(s *shared, key string) string {
		data, err := json.Marshal(s.evt.Get(key))
		return fmt.Sprintf("%s %v", data, err)
	}},
	{"Clone", func(s *shared, key string) string { return vlib.Of(s.evt.Get(key).Clone()).String() }},
	{"to a map", func(s *shared, key string) string { return vlib.OfPlain(mapinterface.FromEvent(s.evt)).String() }},
	{"to a message", func(s *shared, key string) string { return meaningOf(protobuf.FromEvent(s.evt).Marshal()) }},
	{"from a map", func(s *shared, key string) string {
		e, err := mapinterface.ToEvent(s.plain)
		if err != nil {
			return "error"
		}
		return vlib.OfEvent(e).String()
	}},
	{"a value of a map", func(s *shared, key string) string {
		v, err := eventutil.ReflectValue(s.plain)
		if err != nil {
			return "error"
		}
		return vlib.Of(v).String()
	}},
	{"from a message", func(s *shared, key string) string {
		e := protobuf.ToLogEvent(s.msg.GetLog())
		out := vlib.OfEvent(e).String()
		e.Put("changed by a reader", event.Bool(true)) // An event of its own.
		return out
	}},
	{"Marshal", func(s *shared, key string) string { return meaningOf(s.msg.Marshal()) }},
	{"Size", func(s *shared, key string) string { return fmt.Sprint(s.msg.Size(), s.msg.GetLog().Size()) }},
	{"of the message's log", func(s *shared, key string) string {
		data, err := s.msg.GetLog().Marshal()
		var l protobuf.Log
		if err == nil {
			err = l.Unmarshal(data)
		}
		if err != nil {
			return err.Error()
		}
		return vlib.OfEvent(protobuf.ToLogEvent(&l)).String()
	}},
	{"decode JSON", func(s *shared, key string) string {
		var e event.Event
		if err := json.Unmarshal(s.text, &e); err != nil {
			return err.Error()
		}
		out := vlib.OfEvent(&e).String()
		e.Delete(key)
		e.Put(key, event.String("changed by a reader"))
		return out
	}},
	{"decode a message", func(s *shared, key string) string {
		var w protobuf.MessageWrapper
		if err := w.Unmarshal(s.bytes); err != nil {
			return err.Error()
		}
		e := protobuf.ToLogEvent(w.GetLog())
		out := vlib.OfEvent(e).String()
		eventutil.Append(e, key, event.String("changed by a reader"))
		return out
	}},
	{"text of a value", func(s *shared, key string) string {
		v := s.evt.Get(key)
		if v == nil || v.Type == event.ObjectType || v.Type == event.ArrayType {
			return "" // Has pointers.
		}
		return fmt.Sprintf("%v", v)
	}},
}

func TestC28_Readers(t *testing.T) {
	vlib.Run(t, vlib.Spec{
		Quick: 24000, Thorough: 400000,
		Rule: "one event with its map, message, JSON text and encoding that 2 to 5 goroutines read at the same time in 1 to 6 random ways each (get, encode, convert, clone, measure, decode and change what was decoded); each read has to give what it gives alone for an equal content, which must stay as it was; non-trivial: a nested content and two goroutines that read in the same way",
	}, func(t *rapid.T, c *vlib.Case) {
		m := vlib.Root(vlib.ValueOpt{Names: vlib.NonEmpty, Depth: 4}, vlib.NoBackslash).Draw(t, "m")
		s := sharedOf(t, m)
		type job struct {
			how  int
			key  string
			text string
		}
		jobs := make([][]job, rapid.IntRange(2, 5).Draw(t, "goroutines"))
		kinds := map[int]int{}
		var log []string
		for i := range jobs {
			for k, n := 0, rapid.IntRange(1, 6).Draw(t, "reads"); k < n; k++ {
				j := job{how: rapid.IntRange(0, len(readers)-1).Draw(t, "how")}
				if rapid.IntRange(0, 3).Draw(t, "as") == 0 && i > 0 {
					j.how = jobs[i-1][0].how
				}
				j.key = vlib.Key(vlib.Path(t, m, vlib.NoBackslash))
				jobs[i] = append(jobs[i], j)
				log = append(log, fmt.Sprintf("%d:%s", i, readers[j.how].name))
				c.Class(readers[j.how].name)
			}
			ways := map[int]bool{}
			for _, j := range jobs[i] {
				if !ways[j.how] {
					kinds[j.how]++
				}
				ways[j.how] = true
			}
		}
		where := strings.Join(log, ", ") + " of " + m.String()
		var wg sync.WaitGroup
		start := make(chan struct{})
		panics := make([]interface{}, len(jobs))
		for i := range jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				panics[i] = vlib.Catch(func() {
					for k := range jobs[i] {
						j := &jobs[i][k]
						j.text = readers[j.how].read(s, j.key)
					}
				})
			}(i)
		}
		close(start)
		wg.Wait()
		alone := sharedOf(t, m)
		for i := range jobs {
			if panics[i] != nil {
				t.Fatalf("%s: panic in goroutine %d: %v", where, i, panics[i])
			}
			for _, j := range jobs[i] {
				if want := readers[j.how].read(alone, j.key); j.text != want {
					t.Fatalf("%s: %s (key %q) in goroutine %d\n got %s\nwant %s", where, readers[j.how].name, j.key, i, j.text, want)
				}
			}
		}
		if got, want := s.same(alone, m), meaningOf(alone.bytes, nil); got != want {
			t.Fatalf("%s: reading changed the content: %s", where, got)
		}
		twice := false
		for _, n := range kinds {
			twice = twice || n > 1
		}
		if twice && m.Depth() > 1 {
			c.NonTrivial(where)
		}
	})
}
